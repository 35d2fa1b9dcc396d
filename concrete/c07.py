"""C07: operations of the CPU backend against their documented function (evaluated in long double numpy),
with contiguous and strided memory, aliased outputs, both precisions; all arguments but the outputs must not change."""
import numpy as np


def arr(rng, shape, dt, strided, kind='n'):
    if kind == 'n':
        v = rng.randn(*shape) * 2
        v.flat[:: 5] = 0.0
    elif kind == 'pos':
        v = rng.rand(*shape) * 3 + 0.05
    elif kind == 'nz':
        v = (rng.rand(*shape) + 0.2) * np.where(rng.rand(*shape) < .5, -1, 1)
    elif kind == 'cond':
        v = np.array([0., 1., 2., -1., 0.5])[rng.randint(0, 5, shape)] * (rng.rand(*shape) < .6)
    elif kind == 'y01':
        v = rng.rand(*shape) * .98 + .01
    elif kind == 'ys':
        v = rng.rand(*shape) * 1.9 - .95
    v = v.astype(dt)
    if strided and len(shape):
        big = np.zeros(tuple(s + 3 for s in shape), dt)
        w = big[tuple(slice(1, 1 + s) for s in shape)]
        w[...] = v
        return w
    return v


def L(x):
    return np.asarray(x).astype(np.longdouble)


def sig(x):
    return np.where(x >= 0, 1 / (1 + np.exp(-np.abs(x))), np.exp(-np.abs(x)) / (1 + np.exp(-np.abs(x))))


# name, [(argument, kind of shape, values)], outputs, function(args incl. old outputs) -> {out: value}, arguments an output may alias
T_ = 't'
OPS = [
    ('abs_t', [('a', T_, 'n')], ['out'], lambda a, out: [abs(a)], ['a']),
    ('add_into_if', [('a', T_, 'n'), ('cond', T_, 'cond')], ['out'], lambda a, cond, out: [np.where(cond != 0, out + a, out)], ['a']),
    ('add_tt', [('a', T_, 'n'), ('b', T_, 'n')], ['out'], lambda a, b, out: [a + b], ['a', 'b']),
    ('divide_tt', [('a', T_, 'n'), ('b', T_, 'nz')], ['out'], lambda a, b, out: [a / b], ['a', 'b']),
    ('log_t', [('a', T_, 'pos')], ['out'], lambda a, out: [np.log(a)], ['a']),
    ('mult_add_tt', [('a', T_, 'n'), ('b', T_, 'n')], ['out'], lambda a, b, out: [out + a * b], ['a', 'b']),
    ('mult_tt', [('a', T_, 'n'), ('b', T_, 'n')], ['out'], lambda a, b, out: [a * b], ['a', 'b']),
    ('sign_t', [('a', T_, 'n')], ['out'], lambda a, out: [np.sign(a)], ['a']),
    ('sqrt_t', [('a', T_, 'pos')], ['out'], lambda a, out: [np.sqrt(a)], ['a']),
    ('subtract_tt', [('a', T_, 'n'), ('b', T_, 'n')], ['out'], lambda a, b, out: [a - b], ['a', 'b']),
    ('rel', [('x', T_, 'n')], ['y'], lambda x, y: [np.maximum(x, 0)], ['x']),
    ('sigmoid', [('x', T_, 'n')], ['y'], lambda x, y: [sig(x)], ['x']),
    ('tanh', [('x', T_, 'n')], ['y'], lambda x, y: [np.tanh(x)], ['x']),
    ('el', [('x', T_, 'n')], ['y'], lambda x, y: [np.where(x >= 0, x, np.exp(np.minimum(x, 0)) - 1)], ['x']),
    ('rel_deriv', [('x', T_, 'n'), ('y', T_, 'n'), ('dy', T_, 'n')], ['dx'], lambda x, y, dy, dx: [np.where(y > 0, dy, 0)], ['dy', 'y']),
    ('sigmoid_deriv', [('x', T_, 'n'), ('y', T_, 'y01'), ('dy', T_, 'n')], ['dx'], lambda x, y, dy, dx: [dy * y * (1 - y)], ['dy', 'y']),
    ('tanh_deriv', [('x', T_, 'n'), ('y', T_, 'ys'), ('dy', T_, 'n')], ['dx'], lambda x, y, dy, dx: [dy * (1 - y * y)], ['dy', 'y']),
    ('el_deriv', [('x', T_, 'n'), ('y', T_, 'ys'), ('dy', T_, 'n')], ['dx'], lambda x, y, dy, dx: [np.where(y >= 0, dy, dy * (y + 1))], ['dy', 'y']),
]


def shapes(ctx):
    r = ctx.py
    k = r.randint(1, 4)
    return tuple(r.choice([1, 1, 2, 3, 5]) for _ in range(k))


def _call(ctx, h, name, args, outs, want, dt, info, kw=None, tol=None):
    before = {k: np.array(v, copy=True) for k, v in args.items() if isinstance(v, np.ndarray)}
    kwargs = dict(args); kwargs.update(kw or {})
    getattr(h, name)(**kwargs)
    tol = tol or (2e-5 if dt == np.float32 else 1e-10)
    touched = [args[o] for o in outs]
    for o, w in zip(outs, want):
        ctx.close(args[o], np.asarray(w, np.float64), '%s: result %s' % (name, o), tol=tol, **dict(info, args=before))
    for k, v in args.items():
        if isinstance(v, np.ndarray) and k not in outs and not any(v is t for t in touched):
            ctx.same(v, before[k], '%s: argument %s' % (name, k), **dict(info, args=before))


def elementwise(ctx):
    from brainstorm.handlers import NumpyHandler
    for dt in (np.float64, np.float32):
        h = NumpyHandler(dt)
        for name, spec, outs, f, alias in OPS:
            for rep in range(ctx.n(12, 200)):
                if ctx.out_of_time():
                    return
                shp = shapes(ctx)
                st = bool(rep % 2)
                args = {n: arr(ctx.rng, shp, dt, st and ctx.rng.rand() < .7, k) for n, _, k in spec}
                al = None
                if rep % 3 == 1 and alias:
                    al = alias[(rep // 3) % len(alias)]
                    args[outs[0]] = args[al]
                else:
                    args[outs[0]] = arr(ctx.rng, shp, dt, st, 'n')
                want = f(**{k: L(v) for k, v in args.items()})
                info = dict(op=name, shape=shp, dtype=str(dt), alias=al, strided=st)
                ctx.count((name, shp, str(dt), al, st), info if rep == 0 else None)
                _call(ctx, h, name, args, outs, want, dt, info)


def scalars(ctx):
    from brainstorm.handlers import NumpyHandler
    for dt in (np.float64, np.float32):
        h = NumpyHandler(dt)
        for rep in range(ctx.n(25, 400)):
            shp = shapes(ctx); st = bool(rep % 2)
            s = [0.0, 1, -1.5, 3, 0.25][rep % 5]
            A = lambda k='n': arr(ctx.rng, shp, dt, st, k)
            info = dict(shape=shp, s=s, strided=st)
            ctx.count(('scalar', shp, s, st, str(dt)))
            for name, f in (('add_st', lambda s, t, out: [t + s]), ('mult_st', lambda s, t, out: [t * s]), ('mult_add_st', lambda s, t, out: [out + s * t])):
                t = A(); out = t if rep % 3 == 2 else A()
                _call(ctx, h, name, dict(t=t, out=out), ['out'], f(s, L(t), L(out)), dt, info, kw=dict(s=s))
            a = A(); out = a if rep % 3 == 2 else A()
            lo, hi = sorted(ctx.rng.randn(2))
            _call(ctx, h, 'clip_t', dict(a=a, out=out), ['out'], [np.minimum(np.maximum(L(a), dt(lo)), dt(hi))], dt, info, kw=dict(a_min=lo, a_max=hi))
            a, b = A(), A('nz'); out = [A(), a, b][rep % 3]
            _call(ctx, h, 'modulo_tt', dict(a=a, b=b, out=out), ['out'], [np.fmod(a, b)], dt, info)
            m = A(); h.fill(m, s)
            ctx.close(m, np.full(shp, s), 'fill', **info)
            c = A('cond'); m = A(); w = np.where(c != 0, s, m)
            _call(ctx, h, 'fill_if', dict(mem=m, cond=c), ['mem'], [w], dt, info, kw=dict(val=s))
            c = A('cond'); m, src = A(), A(); w = np.where(c != 0, src, m)
            _call(ctx, h, 'copy_to_if', dict(dest=m, src=src, cond=c), ['dest'], [w], dt, info)
            m, src = A(), A()
            _call(ctx, h, 'copy_to', dict(dest=m, src=src), ['dest'], [src.copy()], dt, info)
            m, src = A(), A()
            _call(ctx, h, 'set_from_numpy', dict(mem=m, arr=src), ['mem'], [src.copy()], dt, info)
            c = h.get_numpy_copy(m); ctx.same(c, m, 'get_numpy_copy')
            ctx.require(not np.shares_memory(c, m), 'get_numpy_copy returns a view', **info)
            c = h.create_from_numpy(m); ctx.same(c, m, 'create_from_numpy'); ctx.require(not np.shares_memory(c, m), 'create_from_numpy returns a view', **info)
            for nm, v in (('zeros', 0), ('ones', 1)):
                z = getattr(h, nm)(shp); ctx.same(z, np.full(shp, v), nm, **info); ctx.require(z.dtype == dt, nm + ' dtype')
            z = h.allocate(shp); ctx.require(z.shape == shp and z.dtype == dt, 'allocate', **info)
            m = A(); ctx.require(bool(h.is_fully_finite(m)), 'finite array reported as not finite', **info)
            m.flat[int(ctx.rng.randint(m.size))] = [np.nan, np.inf, -np.inf][rep % 3] if m.flags.c_contiguous else m.flat[0]
            bad = A(); idx = tuple(int(ctx.rng.randint(k)) for k in shp); bad[idx] = [np.nan, np.inf, -np.inf][rep % 3]
            ctx.require(not bool(h.is_fully_finite(bad)), 'non-finite value missed', **info)


def matrices(ctx):
    from brainstorm.handlers import NumpyHandler
    for dt in (np.float64, np.float32):
        h = NumpyHandler(dt)
        for rep in range(ctx.n(40, 600)):
            if ctx.out_of_time():
                return
            M, N, K = [int(ctx.rng.choice([1, 2, 3, 4, 7])) for _ in range(3)]
            st = bool(rep % 2)
            A = lambda *s, **k: arr(ctx.rng, s, dt, st, k.get('kind', 'n'))
            info = dict(M=M, N=N, K=K, strided=st)
            ctx.count(('matrix', M, N, K, st, str(dt)), info)
            for ta in (False, True):
                for tb in (False, True):
                    for name in ('dot_mm', 'dot_add_mm'):
                        a = A(*((K, M) if ta else (M, K))); b = A(*((N, K) if tb else (K, N))); out = A(M, N)
                        p = (L(a).T if ta else L(a)) @ (L(b).T if tb else L(b))
                        kw = {}
                        if ta or rep % 4 < 2: kw['transa'] = ta
                        if tb or rep % 4 < 2: kw['transb'] = tb
                        _call(ctx, h, name, dict(a=a, b=b, out=out), ['out'], [p + (L(out) if 'add' in name else 0)], dt, dict(info, transa=ta, transb=tb), kw=kw)
            for vs in ((1, N), (M, 1)):
                for name, f in (('add_mv', lambda m, v, o: m + v), ('subtract_mv', lambda m, v, o: m - v), ('divide_mv', lambda m, v, o: m / v),
                                ('mult_mv', lambda m, v, o: m * v), ('mult_add_mv', lambda m, v, o: o + m * v)):
                    m = A(M, N); v = A(*vs, kind='nz'); out = m if rep % 3 == 2 else A(M, N)
                    _call(ctx, h, name, dict(m=m, v=v, out=out), ['out'], [f(L(m), L(v), L(out))], dt, dict(info, v=vs))
            m = A(M, N); out = m if rep % 3 == 2 else A(M, N)
            if rep % 5 == 0:
                m[...] *= 200
            e = np.exp(L(m) - L(m).max(1, keepdims=True))
            _call(ctx, h, 'softmax_m', dict(m=m, out=out), ['out'], [e / e.sum(1, keepdims=True)], dt, info)
            v = ctx.rng.randint(0, N, (M, 1)).astype(dt); out = A(M, N)
            w = np.zeros((M, N)); w[np.arange(M), v[:, 0].astype(int)] = 1
            _call(ctx, h, 'binarize_v', dict(v=v, out=out), ['out'], [w], dt, info)
            m = A(M, N); out = A(M, 1)
            _call(ctx, h, 'index_m_by_v', dict(m=m, v=v, out=out), ['out'], [np.array([[m[i, int(v[i, 0])]] for i in range(M)])], dt, info)


def reductions(ctx):
    from brainstorm.handlers import NumpyHandler
    for dt in (np.float64, np.float32):
        h = NumpyHandler(dt)
        for rep in range(ctx.n(60, 800)):
            shp = shapes(ctx); st = bool(rep % 2)
            a = arr(ctx.rng, shp, dt, st, 'n')
            info = dict(shape=shp, strided=st)
            ctx.count(('red', shp, st))
            for ax in [None] + list(range(len(shp))):
                for keep in (False, True):
                    w = L(a).sum(axis=ax, keepdims=keep and ax is not None)
                    if ax is None and keep:
                        continue
                    if ax is not None and not keep and len(shp) == 1:
                        out = np.zeros((), dt)
                    else:
                        out = arr(ctx.rng, w.shape, dt, st, 'n') if w.ndim else np.array(7.0, dt)
                    _call(ctx, h, 'sum_t', dict(a=a, out=out), ['out'], [w], dt, dict(info, axis=ax, keep=keep), kw=dict(axis=ax), tol=1e-4 if dt == np.float32 else 1e-10)
            for ax in range(len(shp)):
                o = arr(ctx.rng, shp, dt, st, 'n')
                src = arr(ctx.rng, shp[:ax] + (1,) + shp[ax + 1:], dt, st, 'n')
                _call(ctx, h, 'broadcast_t', dict(a=src, out=o), ['out'], [np.broadcast_to(src, shp)], dt, dict(info, axis=ax), kw=dict(axis=ax))
            if len(shp) >= 2:
                f2 = int(ctx.rng.randint(1, 5))
                b = arr(ctx.rng, shp[:-1] + (f2,), dt, st, 'n'); o = arr(ctx.rng, shp[:-1] + (f2 + shp[-1],), dt, st, 'n')
                _call(ctx, h, 'merge_tt', dict(a=a, b=b, out=o), ['out'], [np.concatenate([a, b], -1)], dt, info)
                x = arr(ctx.rng, shp[:-1] + (f2 + shp[-1],), dt, st, 'n')
                oa, ob = arr(ctx.rng, shp, dt, st, 'n'), arr(ctx.rng, shp[:-1] + (f2,), dt, st, 'n')
                _call(ctx, h, 'split_add_tt', dict(x=x, out_a=oa, out_b=ob), ['out_a', 'out_b'], [L(oa) + x[..., :shp[-1]], L(ob) + x[..., shp[-1]:]], dt, info)


def random_fill(ctx):
    from brainstorm.handlers import NumpyHandler
    for dt in (np.float64, np.float32):
        h = NumpyHandler(dt)
        for rep in range(ctx.n(10, 60)):
            shp = (40, 50, 3); p = float(ctx.rng.rand())
            m = arr(ctx.rng, shp, dt, True, 'n')
            h.generate_probability_mask(m, p)
            ctx.count(('mask', rep, str(dt)))
            ctx.require(set(np.unique(m)) <= {0.0, 1.0}, 'mask is not 0/1')
            ctx.require(abs(m.mean() - p) < 6 * np.sqrt(p * (1 - p) / m.size) + 1e-9, 'mask probability', p=p, mean=float(m.mean()))
            mean, std = float(ctx.rng.randn()), float(ctx.rng.rand() + .1)
            h.fill_gaussian(mean, std, m)
            ctx.require(abs(m.mean() - mean) < 7 * std / np.sqrt(m.size) and abs(m.std() / std - 1) < 7 / np.sqrt(m.size), 'gaussian fill', mean=mean, std=std)
        for p in (0.0, 1.0):
            m = np.full((5, 5), .5, dt); h.generate_probability_mask(m, p); ctx.require((m == p).all(), 'mask of probability %g' % p)


def act_tables(ctx):
    """the named activation functions layers use are the operations above"""
    from brainstorm.handlers import NumpyHandler
    F = {'sigmoid': sig, 'rel': lambda x: np.maximum(x, 0), 'tanh': np.tanh, 'linear': lambda x: x, 'el': lambda x: np.where(x >= 0, x, np.exp(np.minimum(x, 0)) - 1)}
    D = {'sigmoid': lambda y: y * (1 - y), 'rel': lambda y: (y > 0) * 1.0, 'tanh': lambda y: 1 - y * y, 'linear': lambda y: y * 0 + 1, 'el': lambda y: np.where(y >= 0, 1, y + 1)}
    for dt in (np.float64, np.float32):
        h = NumpyHandler(dt); tol = 2e-5 if dt == np.float32 else 1e-10
        for nm, f in F.items():
            for rep in range(ctx.n(8, 100)):
                shp = shapes(ctx); x = arr(ctx.rng, shp, dt, rep % 2, 'n'); y = arr(ctx.rng, shp, dt, rep % 2, 'n')
                x0 = x.copy(); ctx.count(('act', nm, shp))
                h.act_func[nm](x, y); ctx.close(y, f(x0.astype(float)), 'act_func ' + nm, tol=tol, x=x0); ctx.same(x, x0, 'act_func argument')
                z = x.copy(); h.inplace_act_func[nm](z); ctx.close(z, f(x0.astype(float)), 'inplace_act_func ' + nm, tol=tol, x=x0)
                dy = arr(ctx.rng, shp, dt, rep % 2, 'n'); dx = arr(ctx.rng, shp, dt, rep % 2, 'n'); y0, dy0 = y.copy(), dy.copy()
                h.act_func_deriv[nm](x, y, dy, dx); ctx.close(dx, dy0 * D[nm](y0.astype(float)), 'act_func_deriv ' + nm, tol=tol, y=y0, dy=dy0)
                ctx.same(y, y0, 'act_func_deriv y'); ctx.same(dy, dy0, 'act_func_deriv dy')
                h.inplace_act_func_deriv[nm](y, dy); ctx.close(dy, dy0 * D[nm](y0.astype(float)), 'inplace_act_func_deriv ' + nm, tol=tol, y=y0, dy=dy0); ctx.same(y, y0, 'inplace deriv y')
        big = np.array([-1e4, -800., -90., -1e-9, 0., 1e-9, 90., 800., 1e4]).astype(dt); y = big.copy()
        with np.errstate(all='ignore'):
            h.sigmoid(big, y); ctx.close(y, sig(L(big)).astype(float), 'sigmoid of large values', tol=tol)
            h.tanh(big, y); ctx.close(y, np.tanh(big), 'tanh of large values', tol=tol)
            h.el(big, y); ctx.close(y, np.where(big >= 0, big, np.expm1(np.minimum(big, 0))), 'el of large values', tol=tol)
            h.rel(big, y); ctx.close(y, np.maximum(big, 0), 'rel of large values', tol=tol)


CASES = [elementwise, scalars, matrices, reductions, random_fill, act_tables]


def replay(ctx, item):
    from specs import c07
    c07.replay(ctx, item)
