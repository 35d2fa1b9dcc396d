"""C08: convolution and pooling operations of the backend against loop references, for random geometries."""
import numpy as np
from .ref import conv_ref, windows
from .c07 import arr


def geometry(ctx):
    r = ctx.py
    k = (r.randint(1, 4), r.randint(1, 4)); pad = r.randint(0, 3); stride = (r.randint(1, 3), r.randint(1, 3))
    H, W = r.randint(max(1, k[0] - 2 * pad), 7), r.randint(max(1, k[1] - 2 * pad), 7)
    return H, W, k, pad, stride, (H + 2 * pad - k[0]) // stride[0] + 1, (W + 2 * pad - k[1]) // stride[1] + 1


def guard(shape, dt, val):
    """array inside a larger one whose surroundings can be checked for stray writes"""
    n = int(np.prod(shape)); big = np.full(n + 2 * 64, val, dt)
    return big, big[64:64 + n].reshape(shape)


def conv_one(ctx, h, dt, tol, geo, N, C, K, st):
    H, W, k, pad, stride, oh, ow = geo
    x = (arr(ctx.rng, (N, H * W * C), dt, st, 'n')).reshape(N, H, W, C)
    Wt = arr(ctx.rng, (K,) + k + (C,), dt, False, 'n'); b = arr(ctx.rng, (K,), dt, False, 'n')
    out = arr(ctx.rng, (N, oh * ow * K), dt, st, 'n').reshape(N, oh, ow, K)
    info = dict(N=N, H=H, W=W, C=C, K=K, kernel=k, padding=pad, stride=stride, strided=bool(st))
    ctx.count(('conv', N, H, W, C, K, k, pad, stride), info)
    x0, W0, b0 = x.copy(), Wt.copy(), b.copy()
    h.conv2d_forward_batch(x, Wt, b, out, pad, stride)
    ctx.close(out, conv_ref(x0.astype(float), W0.astype(float), b0.astype(float), pad, stride), 'convolution', tol=tol, **info)
    for a, a0, nm in ((x, x0, 'inputs'), (Wt, W0, 'weights'), (b, b0, 'bias')):
        ctx.same(a, a0, 'conv forward argument ' + nm, **info)
    dy = arr(ctx.rng, (N, oh * ow * K), dt, st, 'n').reshape(N, oh, ow, K)
    dx = arr(ctx.rng, (N, H * W * C), dt, st, 'n').reshape(N, H, W, C); dx0, dy0 = dx.copy(), dy.copy()
    bW, dW = guard(Wt.shape, dt, 0); bb, db = guard(b.shape, dt, 0)
    h.conv2d_backward_batch(x, Wt, pad, stride, dx, dy, dW, db)
    wW, wx = np.zeros(Wt.shape), dx0.astype(float)
    for i, j, ys, xs in windows(H, W, k, pad, stride):
        for y in ys:
            for z in xs:
                u, v = y - (i * stride[0] - pad), z - (j * stride[1] - pad)
                wW[:, u, v, :] += np.einsum('nk,nc->kc', dy0[:, i, j].astype(float), x0[:, y, z].astype(float))
                wx[:, y, z] += np.einsum('nk,kc->nc', dy0[:, i, j].astype(float), W0[:, u, v].astype(float))
    ctx.close(dW, wW, 'convolution weight gradient', tol=tol, **info)
    ctx.close(db, dy0.astype(float).sum((0, 1, 2)), 'convolution bias gradient', tol=tol, **info)
    ctx.close(dx, wx, 'convolution input deltas', tol=tol, **info)
    for a, a0, nm in ((x, x0, 'inputs'), (Wt, W0, 'weights'), (dy, dy0, 'output deltas')):
        ctx.same(a, a0, 'conv backward argument ' + nm, **info)
    ctx.require((bW[:64] == 0).all() and (bW[-64:] == 0).all() and (bb[:64] == 0).all() and (bb[-64:] == 0).all(), 'write outside gradients', **info)


def conv(ctx):
    from brainstorm.handlers import NumpyHandler
    for dt in (np.float64, np.float32):
        h = NumpyHandler(dt); tol = 3e-4 if dt == np.float32 else 1e-9
        for rep in range(ctx.n(60, 1500)):
            if ctx.out_of_time():
                return
            N, C, K = [int(ctx.rng.randint(1, 4)) for _ in range(3)]
            conv_one(ctx, h, dt, tol, geometry(ctx), N, C, K, rep % 2)


def pool_one(ctx, h, dt, tol, geo, N, C, rep):
    H, W, k, pad, stride, oh, ow = geo
    st = rep % 2; ties = rep % 5 == 3
    mk = lambda n, s: arr(ctx.rng, (N, int(np.prod(s))), dt, st, 'n').reshape((N,) + s)
    x = mk(N, (H, W, C))
    if ties:
        x[...] = np.round(x)
    if rep % 7 == 1:
        x[...] = -np.abs(x) - 1.
    info = dict(N=N, H=H, W=W, C=C, kernel=k, padding=pad, stride=stride, strided=bool(st), x=x.copy())
    ctx.count(('pool', N, H, W, C, k, pad, stride, ties), None)
    x0 = x.copy()
    # max
    bo, out = guard((N, oh, ow, C), dt, 7); ba, am = guard((N, oh, ow, C), dt, 7)
    h.maxpool2d_forward_batch(x, k, out, pad, stride, am)
    want = np.zeros((N, oh, ow, C)); avg = np.zeros((N, oh, ow, C))
    for i, j, ys, xs in windows(H, W, k, pad, stride):
        if ys and xs:
            w = x0[:, ys][:, :, xs].astype(float)
            want[:, i, j] = w.max((1, 2)); avg[:, i, j] = w.mean((1, 2))
    ctx.close(out, want, 'max pooling', tol=0, **info)
    ctx.same(x, x0, 'pooling inputs', **info)
    # backward: exactly one position per output, inside the window, holding the maximum
    dx = mk(N, (H, W, C)); dx0 = dx.copy()
    dy = mk(N, (oh, ow, C)); dy0 = dy.copy()
    h.maxpool2d_backward_batch(x, k, out, pad, stride, am, dx, dy)
    ctx.same(dy, dy0, 'max pool backward output deltas', **info); ctx.same(x, x0, 'max pool backward inputs', **info)
    # one delta at a time: which position gets it?
    one = np.zeros((N, oh, ow, C), dt); acc = dx0.astype(float)
    for i, j, ys, xs in windows(H, W, k, pad, stride):
        one[...] = 0; one[:, i, j] = 1.0; g = np.zeros((N, H, W, C), dt)
        h.maxpool2d_backward_batch(x, k, out, pad, stride, am, g, one)
        if not (ys and xs):
            ctx.require(not g.any(), 'delta of an empty window', **info); continue
        ctx.require(((g == 0) | (g == 1)).all() and (g.sum((1, 2)) == 1).all(), 'max-pooled delta must go to exactly one position', i=i, j=j, **info)
        sel = (g * x0).sum((1, 2))
        ctx.same(sel, want[:, i, j].astype(dt), 'the chosen position does not hold the maximum', i=i, j=j, **info)
        m = np.zeros((H, W), bool); m[np.ix_(ys, xs)] = True
        ctx.require(not g[:, ~m].any(), 'delta leaves the window', i=i, j=j, **info)
        acc += g * dy0[:, i:i + 1, j:j + 1]
    ctx.close(dx, acc, 'max pool input deltas', tol=tol, **info)
    # avg
    bo2, o2 = guard((N, oh, ow, C), dt, 7)
    h.avgpool2d_forward_batch(x, k, o2, pad, stride)
    ctx.close(o2, avg, 'average pooling', tol=tol, **info)
    dx = mk(N, (H, W, C)); acc = dx.astype(float)
    h.avgpool2d_backward_batch(x, k, o2, pad, stride, dx, dy)
    for i, j, ys, xs in windows(H, W, k, pad, stride):
        for y in ys:
            for z in xs:
                acc[:, y, z] += dy0[:, i, j].astype(float) / (len(ys) * len(xs))
    ctx.close(dx, acc, 'average pool input deltas', tol=tol, **info)
    ctx.same(x, x0, 'average pool inputs', **info); ctx.same(dy, dy0, 'average pool output deltas', **info)
    for b in (bo, ba, bo2):
        ctx.require((b[:64] == 7).all() and (b[-64:] == 7).all(), 'write outside the outputs', **info)


def pool(ctx):
    from brainstorm.handlers import NumpyHandler
    for dt in (np.float64, np.float32):
        h = NumpyHandler(dt); tol = 3e-5 if dt == np.float32 else 1e-10
        for rep in range(ctx.n(120, 2500)):
            if ctx.out_of_time():
                return
            N, C = [int(ctx.rng.randint(1, 4)) for _ in range(2)]
            pool_one(ctx, h, dt, tol, geometry(ctx), N, C, rep)


def layers(ctx):
    """the layers announce the output size that follows from the geometry and use the operations correctly"""
    from .layerspec import make
    from .util import layer_buffers
    from .ref import pool_ref
    for rep in range(ctx.n(40, 500)):
        H, W, k, pad, stride, oh, ow = geometry(ctx)
        C, K, T, B = [int(ctx.rng.randint(1, 4)) for _ in range(4)]
        info = dict(H=H, W=W, C=C, kernel=k, padding=pad, stride=stride)
        ctx.count(('layer', H, W, C, k, pad, stride), info)
        for kind in ('conv', 'max', 'avg'):
            if kind == 'conv':
                l = make('Convolution2D', dict(num_filters=K, kernel_size=k, stride=stride, padding=pad, activation='linear'), {'default': ('T', 'B', H, W, C)})
            else:
                l = make('Pooling2D', dict(kernel_size=k, type=kind, stride=stride, padding=pad), {'default': ('T', 'B', H, W, C)})
            fs = tuple(l.out_shapes['default'].feature_shape)
            ctx.require(fs == (oh, ow, K if kind == 'conv' else C), '%s: announced output size %s' % (kind, fs), **info)
            from brainstorm.handlers import NumpyHandler
            l.set_handler(NumpyHandler(np.float64))
            b = layer_buffers(l, T, B, bool(rep % 2))
            b.inputs.default[...] = ctx.rng.randn(*b.inputs.default.shape)
            for p in b.parameters:
                p[...] = ctx.rng.randn(*p.shape)
            l.forward_pass(b)
            x = b.inputs.default.reshape(T * B, H, W, C)
            w = conv_ref(x, b.parameters.W, b.parameters.bias, pad, stride) if kind == 'conv' else pool_ref(x, kind, k, pad, stride)
            ctx.close(b.outputs.default.reshape(w.shape), w, kind + ' layer', **info)


CASES = [conv, pool, layers]


def replay(ctx, it):
    from brainstorm.handlers import NumpyHandler
    d = it['dims']
    k, stride, pad, H, W = (d['KH'], d['KW']), (d['SH'], d['SW']), d['pad'], d['H'], d['W']
    if H + 2 * pad < k[0] or W + 2 * pad < k[1] or H * W * d['N'] * d['C'] > 10 ** 5:
        return
    geo = (H, W, k, pad, stride, (H + 2 * pad - k[0]) // stride[0] + 1, (W + 2 * pad - k[1]) // stride[1] + 1)
    h = NumpyHandler(np.float64)
    for rep in range(8):
        if it['what'] == 'conv':
            conv_one(ctx, h, np.float64, 1e-9, geo, d['N'], d['C'], d['FN'], rep % 2)
        else:
            pool_one(ctx, h, np.float64, 1e-10, geo, d['N'], d['C'], rep)
