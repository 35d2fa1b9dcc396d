"""C16: the update rules of the steppers on real networks, against the formulas."""
import numpy as np
from .nets import try_build, build, randomize, data_for


def lossy(ctx, **k):
    arch, size, net = try_build(ctx.py, types=('FullyConnected', 'Recurrent', 'Lstm', 'Elementwise', 'Highway'), **k)
    for i, n in enumerate(list(arch)):
        if n != 'Input' and not arch[n]['@outgoing_connections']:
            arch[n]['@outgoing_connections'] = {'default': ['Loss%d.default' % i]}
            arch['Loss%d' % i] = {'@type': 'Loss', '@outgoing_connections': {}, 'importance': 0.5 + i}
    net = build(arch)
    randomize(net, ctx.rng)
    return arch, net


class Watch(object):
    """counts the passes of a network and records parameters/gradients at the passes"""
    def __init__(self, net):
        self.ev = []
        f, b = net.forward_pass, net.backward_pass

        def fw(*a, **k):
            self.ev.append(('f', bool(k.get('training_pass', a[0] if a else False)), net.buffer.parameters.copy())); return f(*a, **k)

        def bw(*a, **k):
            r = b(*a, **k); self.ev.append(('b', net.buffer.gradients.copy())); return r
        net.forward_pass, net.backward_pass = fw, bw


def rules(ctx):
    from brainstorm.training import steppers as S
    for rep in range(ctx.n(60, 800)):
        if ctx.out_of_time():
            return
        py = ctx.py
        arch, net = lossy(ctx)
        w = Watch(net)
        kind = py.choice(['SgdStepper', 'MomentumStepper', 'NesterovStepper', 'ForwardStepper'])
        lr, mo, sc = py.choice([0.1, 1.0, 0.0, 0.01, py.random()]), py.choice([0.0, 0.9, 0.5, 1.0, py.random()]), py.random() < .5
        if kind == 'SgdStepper':
            st = S.SgdStepper(lr)
        elif kind == 'ForwardStepper':
            tp = py.random() < .5; st = S.ForwardStepper(tp)
        else:
            st = getattr(S, kind)(lr, mo, sc)
        info = dict(stepper=kind, arch=arch, learning_rate=lr, momentum=mo, scale=sc)
        ctx.count((kind, rep), info if rep < 3 else None)
        v = None
        for run in range(2):
            st.start(net)
            v = np.zeros(net.buffer.parameters.shape)
            for i in range(py.randint(1, 4)):
                if py.random() < .3:
                    lr = py.random(); info['learning_rate'] = lr
                    if kind != 'ForwardStepper':
                        st.learning_rate = lr
                if py.random() < .3:
                    mo = py.random(); info['momentum'] = mo
                    if kind in ('MomentumStepper', 'NesterovStepper'):
                        st.momentum = mo
                T, B = py.randint(1, 3), py.randint(1, 3)
                net.provide_external_data(data_for(arch, ctx.rng, T, B))
                p0 = net.buffer.parameters.copy(); w.ev[:] = []
                r = st.run()
                p1 = net.buffer.parameters
                kinds = [e[0] for e in w.ev]
                if kind == 'ForwardStepper':
                    ctx.require(kinds == ['f'] and w.ev[0][1] == tp, 'passes of a forward-only step: %s' % kinds, **info)
                    ctx.same(p1, p0, 'parameters after a forward-only step', **info)
                    ctx.close(r, net.get_loss_values()['total_loss'], 'returned loss', **info)
                    continue
                ctx.require(kinds == ['f', 'b'] and w.ev[0][1], 'a step must do exactly one training forward and one backward pass: %s' % kinds, **info)
                g = w.ev[1][1]
                ctx.same(net.buffer.gradients, g, 'gradients after the step', **info)
                l = lr * (1 - mo) if (sc and kind != 'SgdStepper') else lr
                if kind == 'SgdStepper':
                    ctx.same(w.ev[0][2], p0, 'parameters used in the passes', **info); want = p0 - l * g
                elif kind == 'MomentumStepper':
                    ctx.same(w.ev[0][2], p0, 'parameters used in the passes', **info)
                    v = mo * v - l * g; want = p0 + v
                else:
                    v = mo * v; ctx.close(w.ev[0][2], p0 + v, 'Nesterov: parameters used in the passes', tol=1e-12, **info)
                    want = p0 + v - l * g; v = v - l * g
                ctx.close(p1, want, '%s: parameters after the step' % kind, tol=1e-12, **info)
                if kind != 'SgdStepper':
                    ctx.close(st.velocity, v, '%s: velocity' % kind, tol=1e-12, **info)
                    ctx.require(st.learning_rate == lr and st.momentum == mo, 'the settings of the stepper must not change', **info)
                # every parameter view belongs to the updated buffer
                for n in arch:
                    if n in net.buffer.keys() and 'parameters' in net.buffer[n].keys():
                        for k in net.buffer[n].parameters.keys():
                            ctx.require(np.shares_memory(net.buffer[n].parameters[k], p1) or p1.size == 0, 'parameters outside of the updated buffer', **info)


CASES = [rules]


def replay(ctx, item):
    """the update rules on real networks"""
    rules(ctx)
