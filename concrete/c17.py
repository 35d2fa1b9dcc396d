"""C17: weight and gradient modifiers."""
import numpy as np


def shapes(ctx):
    py = ctx.py
    d = py.randint(1, 4)
    return tuple(py.randint(1, 4) for _ in range(d))


def vals(ctx, shp):
    py = ctx.py
    v = ctx.rng.randn(*shp) * 10. ** py.randint(-3, 2)
    if py.random() < .3 and v.size:
        v.ravel()[py.randint(0, v.size - 1)] = 0.0
    if py.random() < .15:
        v[0] = 0.0
    return v


def single(ctx):
    import brainstorm.value_modifiers as M
    from brainstorm.handlers import NumpyHandler
    for rep in range(ctx.n(1500, 20000)):
        dt = ctx.py.choice([np.float64, np.float64, np.float32]); h = NumpyHandler(dt)
        tol = 1e-9 if dt == np.float64 else 2e-5
        shp = shapes(ctx)
        hub = np.zeros((2 + int(np.prod(shp)) + 3,), dt)      # as in the network: a slice of one big buffer
        w = hub[2:2 + int(np.prod(shp))].reshape(shp); w[...] = vals(ctx, shp)
        hub[:2] = 77; hub[-3:] = 77
        w0 = w.copy()
        kind = ctx.py.choice(['norm', 'clip', 'mask', 'freeze', 'freeze_given', 'l1', 'l2'])
        info = dict(modifier=kind, shape=shp, dtype=dt.__name__, values=w0)
        ctx.count((kind, shp, rep), info if rep < 4 else None)
        if kind == 'norm':
            lim = ctx.py.choice([0.5, 1.0, 2.0, 15.0, ctx.py.uniform(.01, 5)])
            if len(shp) > 1 and ctx.py.random() < .3:
                n = np.sqrt((w0.reshape(shp[0], -1) ** 2).sum(1)); lim = float(n[0]) if n[0] > 0 else lim
            info['limit'] = lim
            r = M.ConstrainL2Norm(lim)(h, w)
            if len(shp) < 2:
                ctx.same(w, w0, 'biases under ConstrainL2Norm', **info)
            else:
                for a, b in zip(w.reshape(shp[0], -1), w0.reshape(shp[0], -1)):
                    n = np.sqrt((b.astype(np.float64) ** 2).sum())
                    if n <= lim:
                        ctx.close(a, b, 'unit within the limit', tol=tol, **info)
                    else:
                        ctx.close(a, b * (lim / n), 'unit above the limit', tol=tol, **info)
                    ctx.require(np.sqrt((a.astype(np.float64) ** 2).sum()) <= lim * (1 + 1e-5), 'norm above the limit', **info)
        elif kind == 'clip':
            lo = ctx.py.choice([-1., -.1, 0., -5, 1e-3]); hi = lo + ctx.py.choice([0., .5, 2., 1e3])
            info['interval'] = (lo, hi); M.ClipValues(lo, hi)(h, w)
            ctx.close(w, np.minimum(np.maximum(w0, dt(lo)), dt(hi)), 'clipping', tol=1e-12 if dt == np.float64 else 1e-6, **info)
            inner = (w0 > lo) & (w0 < hi)
            ctx.same(w[inner], w0[inner], 'inner values', **info)
        elif kind == 'mask':
            m = (ctx.rng.rand(*shp) > .5).astype(float) if rep % 2 else ctx.rng.randn(*shp)
            md = M.MaskValues(m)
            for k in range(2):
                w0 = w.copy(); md(h, w)
                ctx.close(w, w0 * m.astype(dt), 'masking, call %d' % (k + 1), tol=tol, mask=m, **info)
            m0 = m.copy(); ctx.same(m, m0, 'mask')
        elif kind in ('freeze', 'freeze_given'):
            md = M.FreezeValues() if kind == 'freeze' else M.FreezeValues(vals(ctx, shp).astype(dt))
            want = w0 if kind == 'freeze' else md.weights.copy()
            for k in range(3):
                md(h, w); ctx.same(w, want, 'frozen values, call %d' % (k + 1), **info)
                w[...] = vals(ctx, shp)
            md(h, w)
            h2 = NumpyHandler(dt); w[...] = 3; md(h2, w); ctx.same(w, want, 'frozen values with another handler', **info)
        else:
            f = ctx.py.choice([0.1, 1.0, 0.0, -0.5]); g = vals(ctx, shp).astype(dt); g0 = g.copy()
            (M.L1Decay if kind == 'l1' else M.L2Decay)(f)(h, w, g)
            ctx.close(g, g0 + f * (np.sign(w0) if kind == 'l1' else w0), 'gradient', tol=tol, factor=f, gradient=g0, **info)
            ctx.same(w, w0, 'parameters under decay', **info)
        ctx.require((hub[:2] == 77).all() and (hub[-3:] == 77).all(), 'memory beside the view', **info)


def network(ctx):
    """attached to a network: only the chosen views change, in the modification calls, in order, after resizing too"""
    import brainstorm.value_modifiers as M
    from brainstorm.handlers import NumpyHandler
    from .nets import try_build, randomize, data_for
    for rep in range(ctx.n(40, 500)):
        if ctx.out_of_time():
            return
        arch, size, net = try_build(ctx.py, types=('FullyConnected', 'Recurrent', 'Lstm', 'BatchNorm'))
        randomize(net, ctx.rng)
        views = [(n, k) for n in arch if n != 'Input' and 'parameters' in net.buffer[n].keys() for k in net.buffer[n].parameters.keys()]
        if not views:
            continue
        sel = ctx.py.sample(views, ctx.py.randint(1, len(views)))
        kinds = {}
        wm, gm = {}, {}
        for v in sel:
            k = ctx.py.choice(['clip', 'norm', 'freeze', 'l2', 'l1', 'gclip', 'two'])
            kinds[v] = k
            if k in ('clip', 'norm', 'freeze', 'two'):
                wm.setdefault(v[0], {})[v[1]] = {'clip': lambda: M.ClipValues(-.2, .2), 'norm': lambda: M.ConstrainL2Norm(.3), 'freeze': lambda: M.FreezeValues(),
                                                 'two': lambda: [M.ClipValues(.5, .6), M.ClipValues(.1, .55)]}[k]()
            else:
                gm.setdefault(v[0], {})[v[1]] = {'l2': M.L2Decay(.5), 'l1': M.L1Decay(.25), 'gclip': M.ClipValues(-.1, .1)}[k]
        if wm:
            net.set_weight_modifiers(wm)
        if gm:
            net.set_gradient_modifiers(gm)
        info = dict(arch=arch, modifiers={'.'.join(k): v for k, v in kinds.items()})
        ctx.count(('net', rep), info if rep < 3 else None)
        first = {v: net.buffer[v[0]].parameters[v[1]].copy() for v in views}
        frozen = {}
        for phase in range(4):
            if phase:
                if phase == 2:
                    net.set_handler(NumpyHandler(np.float64))
                net.provide_external_data(data_for(arch, ctx.rng, phase, ctx.py.randint(1, 4)))
                net.forward_pass(training_pass=True)
                before = net.get('parameters'); net.backward_pass()
                ctx.same(net.get('parameters'), before, 'the backward pass must not modify parameters', **info)
                net.buffer.parameters[...] = ctx.rng.randn(*net.buffer.parameters.shape)
            net.buffer.gradients[...] = ctx.rng.randn(*net.buffer.gradients.shape)
            P = {v: net.buffer[v[0]].parameters[v[1]].copy() for v in views}
            G = {v: net.buffer[v[0]].gradients[v[1]].copy() for v in views}

            def want_w(v):
                k, w = kinds.get(v), P[v]
                if k == 'clip':
                    return np.clip(w, -.2, .2)
                if k == 'two':
                    return np.clip(np.clip(w, .5, .6), .1, .55)
                if k == 'norm' and w.ndim > 1:
                    n = np.sqrt((w.reshape(len(w), -1) ** 2).sum(1)); return (w.reshape(len(w), -1) / np.maximum(n / .3, 1)[:, None]).reshape(w.shape)
                if k == 'freeze':
                    return frozen.setdefault(v, w.copy())
                return w

            def want_g(v):
                k = kinds.get(v)
                w = want_w(v)
                return {'l2': lambda: G[v] + .5 * w, 'l1': lambda: G[v] + .25 * np.sign(w), 'gclip': lambda: np.clip(G[v], -.1, .1)}.get(k, lambda: G[v])()
            net.apply_weight_modifiers()
            for v in views:
                ctx.close(net.buffer[v[0]].parameters[v[1]], want_w(v), 'parameter %s.%s after the weight modifiers (phase %d)' % (v + (phase,)), tol=1e-12, **info)
                ctx.same(net.buffer[v[0]].gradients[v[1]], G[v], 'gradients under weight modifiers', **info)
            net.apply_gradient_modifiers()
            for v in views:
                ctx.close(net.buffer[v[0]].gradients[v[1]], want_g(v), 'gradient %s.%s after the gradient modifiers (phase %d)' % (v + (phase,)), tol=1e-12, **info)
                ctx.close(net.buffer[v[0]].parameters[v[1]], want_w(v), 'parameters under gradient modifiers', tol=1e-12, **info)


def backward_applies(ctx):
    """backward_pass applies the gradient modifiers exactly once"""
    import brainstorm.value_modifiers as M
    from .c16 import lossy
    from .nets import data_for
    for rep in range(ctx.n(10, 100)):
        arch, net = lossy(ctx)
        d = data_for(arch, ctx.rng, 2, 2)
        net.provide_external_data(d); net.forward_pass(training_pass=True); net.backward_pass()
        g0 = net.get('gradients'); p0 = net.get('parameters')
        net.set_gradient_modifiers({'default': M.L2Decay(0.5)})
        net.provide_external_data(d); net.forward_pass(training_pass=True); net.backward_pass()
        ctx.count(('bw', rep))
        ctx.close(net.get('gradients'), g0 + .5 * p0, 'gradient modifiers during the backward pass', tol=1e-10, arch=arch)


CASES = [single, network, backward_applies]


def replay(ctx, item):
    """the modifiers a failed obligation belongs to, on concrete arrays and networks"""
    (network if item['kind'] == 'network' else single)(ctx)
