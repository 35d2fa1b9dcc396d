"""C03: chunked processing with carried state equals whole-sequence processing; clearing, stale state, data untouched."""
import numpy as np
from .nets import build, try_build, randomize, data_for, all_outputs
from .util import Fail

T_ = ('FullyConnected', 'Recurrent', 'Lstm', 'Elementwise', 'Highway', 'Merge', 'Recurrent', 'Lstm')


def history(ctx):
    for rep in range(ctx.n(60, 800)):
        if ctx.out_of_time():
            return
        types = T_ if rep % 3 else T_ + ('Clockwork', 'ClockworkLstm')
        arch, size, net = try_build(ctx.py, types=types, two_inputs=bool(rep % 2))
        clk = any(l['@type'].startswith('Clockwork') for l in arch.values())
        randomize(net, ctx.rng)
        T, B = ctx.py.randint(1, 7), ctx.py.randint(1, 3)
        data = data_for(arch, ctx.rng, T, B)
        orig = {k: v.copy() for k, v in data.items()}
        info = dict(arch=arch, T=T, B=B)
        ctx.count(('net', len(arch), T, B, tuple(sorted(l['@type'] for l in arch.values()))), info)
        net.provide_external_data(data)
        net.forward_pass()
        whole = all_outputs(net, arch, T)

        def check_inputs(d, what):
            for k, v in d.items():
                ctx.same(net.get('Input.outputs.' + k)[:len(v)], v, 'data given to the network after %s (input %s)' % (what, k), **info)
                ctx.require(k not in orig or (data[k] == orig[k]).all(), 'array of the caller modified', **info)
        check_inputs(data, 'a forward pass')
        # repeat without a state: same result whatever ran before
        other = data_for(arch, ctx.rng, ctx.py.randint(1, 7), B)
        net.provide_external_data(other)
        net.forward_pass()
        st = net.get_context()
        keep = [None if c is None else np.array(c) for c in st]
        net.provide_external_data(data)
        net.forward_pass()
        for k, v in all_outputs(net, arch, T).items():
            ctx.close(v, whole[k], 'starting without a state after other passes: %s' % k, tol=1e-10, **info)
        check_inputs(data, 'a forward pass')
        if clk:
            continue
        # cut
        cuts = sorted(set([0, T] + [ctx.py.randint(0, T) for _ in range(ctx.py.randint(0, 4))]))
        state = None
        for a, b in zip(cuts, cuts[1:]):
            chunk = {k: v[a:b] for k, v in data.items()}
            net.provide_external_data(chunk)
            if state is None:
                net.forward_pass()
            else:
                net.forward_pass(context=state)
            for k, v in all_outputs(net, arch, b - a).items():
                ctx.close(v, whole[k][a:b], 'cut at %s, steps %d..%d: %s' % (cuts, a, b, k), tol=1e-10, cuts=cuts, **info)
            check_inputs(chunk, 'continuing')
            state = net.get_context()
            saved = [None if c is None else np.array(c) for c in state]
            check_inputs(chunk, 'taking the state')
            # the state must be independent of what the network does afterwards
            net.provide_external_data(data_for(arch, ctx.rng, ctx.py.randint(1, 4), B))
            net.forward_pass()
            for s, q in zip(state, saved):
                if q is not None:
                    ctx.same(np.array(s), q, 'a state taken earlier', **info)
        for s, q in zip(st, keep):
            if q is not None:
                ctx.same(np.array(s), q, 'a state taken earlier', **info)


def gradient_with_state(ctx):
    """the state reaches the backward pass: directional derivative of the whole net with a carried-over state"""
    for rep in range(ctx.n(10, 100)):
        arch, size, net = try_build(ctx.py, types=T_)
        for i, n in enumerate(list(arch)):
            if n != 'Input' and not arch[n]['@outgoing_connections']:
                arch[n]['@outgoing_connections'] = {'default': ['Loss%d.default' % i]}
                arch['Loss%d' % i] = {'@type': 'Loss', '@outgoing_connections': {}, 'importance': 0.5 + i}
        net = build(arch)
        randomize(net, ctx.rng)
        T, B = ctx.py.randint(1, 4), 2
        d0, d1 = data_for(arch, ctx.rng, 3, B), data_for(arch, ctx.rng, T, B)
        net.provide_external_data(d0); net.forward_pass(); st = net.get_context()
        def phi():
            net.provide_external_data(d1); net.forward_pass(training_pass=True, context=st)
            return net.get_loss_values()['total_loss']
        phi()
        net.backward_pass()
        g = net.get('gradients')
        p = net.buffer.parameters
        p0 = p.copy()
        dirn = ctx.rng.randn(*p.shape)
        est = []
        for e in (1e-5, 1e-6):
            p[...] = p0 + e * dirn; a = phi()
            net.buffer.parameters[...] = p0 - e * dirn; b = phi()
            est.append((a - b) / 2 / e)
        ctx.count(('grad', rep))
        want, have = est[0], float((g * dirn).sum())
        ctx.require(abs(have - want) <= 1e-4 * (1 + abs(want) + np.abs(g * dirn).sum()),
                    'gradient with a carried-over state: derivative %r, backward pass %r' % (want, have), arch=arch, T=T)


CASES = [history]


def replay(ctx, item):
    history(ctx)
