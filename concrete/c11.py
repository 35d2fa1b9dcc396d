"""C11: initialisers."""
import math
import numpy as np
from .nets import try_build


def shapes2(ctx, lo=1, hi=7):
    return (ctx.py.randint(lo, hi), ctx.py.randint(lo, hi))


def refuse(ctx, init, shape):
    from brainstorm.utils import InitializationError
    ctx.raises(InitializationError, lambda: init(shape), '%s must refuse shape %s' % (type(init).__name__, shape))


def ranges(ctx):
    from brainstorm import initializers as I
    FI = {'rel': math.sqrt(6), 'tanh': math.sqrt(3), 'sigmoid': 4 * math.sqrt(3), 'linear': 1.0}
    FIO = {'rel': math.sqrt(12), 'tanh': math.sqrt(6), 'sigmoid': 4 * math.sqrt(6), 'linear': 1.0}
    for rep in range(ctx.n(60, 600)):
        if ctx.out_of_time():
            return
        k = ctx.py.randint(1, 4); shp = tuple(ctx.py.randint(1, 6) for _ in range(k))
        ctx.count(('range', shp), dict(shape=shp))
        n = int(np.prod(shp))
        for args in ((), (2.5,), (-.3, .9), (.2, .3), (-1.5, None)):
            u = I.Uniform(*args); v = u(shp)
            lo, hi = (-.1, .1) if not args else ((-abs(args[0]), abs(args[0])) if len(args) < 2 or args[1] is None else args)
            ctx.require(v.shape == shp and (v >= lo).all() and (v <= hi).all(), 'Uniform%s range' % (args,), shape=shp, got=v)
        g = I.Gaussian(.5, 3.); v = g(shp)
        ctx.require(v.shape == shp and np.isfinite(v).all(), 'Gaussian shape', shape=shp)
        if k == 1:
            for i in (I.DenseSqrtFanIn(), I.DenseSqrtFanInOut(), I.EchoState(), I.SparseInputs(I.Gaussian(), 1), I.SparseOutputs(I.Gaussian(), 1), I.Identity(), I.Orthogonal(), I.RandomWalk()):
                refuse(ctx, i, shp)
            continue
        for nm in list(FI) + [1.7]:
            b = (FI[nm] if nm in FI else nm) / math.sqrt(np.prod(shp[1:])); v = I.DenseSqrtFanIn(nm)(shp)
            ctx.require(v.shape == shp and (abs(v) <= b * (1 + 1e-12)).all(), 'DenseSqrtFanIn(%s) bound' % nm, shape=shp, bound=b, got=v)
            b = (FIO[nm] if nm in FIO else nm) / math.sqrt(shp[0] + np.prod(shp[1:])); v = I.DenseSqrtFanInOut(nm)(shp)
            ctx.require(v.shape == shp and (abs(v) <= b * (1 + 1e-12)).all(), 'DenseSqrtFanInOut(%s) bound' % nm, shape=shp, bound=b, got=v)
        if k > 2:
            for i in (I.Identity(), I.Orthogonal(), I.RandomWalk(), I.EchoState()):
                refuse(ctx, i, shp)
            for sq in ((2, 2, 2), (3, 3, 2), (2, 2, 1)):
                refuse(ctx, I.EchoState(), sq)


def spread(ctx):
    """random values use the whole documented range (both ends and the right scale)"""
    from brainstorm import initializers as I
    shp = (40, 50); n = 2000
    ctx.count('spread')
    for init, b in ((I.Uniform(.7), .7), (I.DenseSqrtFanIn('tanh'), math.sqrt(3 / 50.)), (I.DenseSqrtFanInOut('rel'), math.sqrt(12 / 90.)), (I.DenseSqrtFanInOut('linear'), math.sqrt(1 / 90.)), (I.DenseSqrtFanIn(3.0), 3 / math.sqrt(50))):
        v = init(shp)
        ctx.require(v.max() > .95 * b and v.min() < -.95 * b and abs(v.mean()) < 7 * b / math.sqrt(3 * n), '%s does not use its interval' % type(init).__name__, bound=b, lo=float(v.min()), hi=float(v.max()))
    v = I.Uniform(2., 5.)(shp); ctx.require(abs(v.mean() - 3.5) < .2 and v.min() < 2.1 and v.max() > 4.9, 'Uniform(low, high)')
    v = I.Gaussian(.5, 3.)(shp); ctx.require(abs(v.mean() - 3) < 7 * .5 / math.sqrt(n) and abs(v.std() / .5 - 1) < 7 / math.sqrt(n), 'Gaussian moments')
    for N, act in ((5, 'linear'), (60, 'linear'), (5, 'rel'), (60, 'rel')):
        sc = math.exp(1. / (2 * N)) if act == 'linear' else math.sqrt(2) * math.exp(1.2 / (max(N, 6) - 2.4))
        v = np.array([I.RandomWalk(act)((N, N)) for _ in range(max(1, 4000 // N ** 2))])
        ctx.require(abs(v.std() * N / sc - 1) < 7 / math.sqrt(v.size), 'RandomWalk scale', N=N, act=act, std=float(v.std() * N), want=sc)
        a = I.RandomWalk(act, scale=2.5); a.rnd.set_seed(3); b = I.RandomWalk(act, scale=5.0); b.rnd.set_seed(3)
        ctx.close(2 * a((N, N)), b((N, N)), 'RandomWalk explicit scale')


def structure(ctx):
    from brainstorm import initializers as I
    for rep in range(ctx.n(60, 600)):
        if ctx.out_of_time():
            return
        m, n = shapes2(ctx); s = float(ctx.rng.rand() * 3 + .1)
        ctx.count(('structure', m, n), dict(shape=(m, n)))
        q = I.Orthogonal(s)((m, n))
        ctx.require(q.shape == (m, n), 'Orthogonal shape')
        g = q.dot(q.T) if m <= n else q.T.dot(q)
        ctx.close(g, np.eye(min(m, n)) * s * s, 'scaled orthogonality', tol=1e-8, shape=(m, n))
        e = I.EchoState(s)
        if m == n:
            w = e((n, n)); ctx.close(max(abs(np.linalg.eigvals(w))), s, 'spectral radius', tol=1e-7, n=n)
            ctx.require(w.shape == (n, n), 'EchoState shape')
        else:
            refuse(ctx, e, (m, n)); refuse(ctx, I.Identity(), (m, n)); refuse(ctx, I.RandomWalk(), (m, n))
        w = I.Identity(s, 0.0, enforce_square=False)((m, n)); ctx.close(w, np.eye(m, n) * s, 'Identity', shape=(m, n))
        std = .01 * rep / 60 + .001
        i = I.Identity(s, std, enforce_square=False); w = i((m, n)) - np.eye(m, n) * s
        ctx.require((abs(w) < 9 * std).all() and w.any(), 'Identity noise', std=std, got=w)
        for c in range(1, 9):
            si, so = I.SparseInputs(I.Uniform(1., 2.), c), I.SparseOutputs(I.Uniform(1., 2.), c)
            if c <= m:
                w = si((m, n)); ctx.require(w.shape == (m, n) and ((w != 0).sum(0) == c).all() and ((w == 0) | ((w >= 1) & (w <= 2))).all(), 'SparseInputs(%d)' % c, shape=(m, n), got=w)
            else:
                refuse(ctx, si, (m, n))
            if c <= n:
                w = so((m, n)); ctx.require(w.shape == (m, n) and ((w != 0).sum(1) == c).all() and ((w == 0) | ((w >= 1) & (w <= 2))).all(), 'SparseOutputs(%d)' % c, shape=(m, n), got=w)
            else:
                refuse(ctx, so, (m, n))
        a = ctx.rng.randn(m, n); ai = I.ArrayInitializer(a.tolist())
        ctx.same(ai((m, n)), a, 'ArrayInitializer'); refuse(ctx, ai, (m, n + 1)); refuse(ctx, ai, (m * n,))
        lo = I.LstmOptInit(1.0, I.Uniform(2., 3.), 4.0, 5.0); w = lo((4 * m, n))
        ctx.require(w.shape == (4 * m, n) and (w[:m] == 1).all() and ((w[m:2 * m] >= 2) & (w[m:2 * m] <= 3)).all() and (w[2 * m:3 * m] == 4).all() and (w[3 * m:] == 5).all(), 'LstmOptInit blocks', got=w)
        refuse(ctx, lo, (4 * m + 1, n))


def seeds(ctx):
    """same seed, same parameters - whatever ran before; different parameters get different values"""
    from brainstorm import initializers as I
    mk = [lambda: I.Gaussian(), lambda: I.Uniform(1.), lambda: {'default': I.DenseSqrtFanIn(), 'fallback': I.Gaussian()}, lambda: {'default': I.SparseInputs(I.Gaussian(), 1), 'fallback': I.Uniform()},
          lambda: {'default': I.SparseOutputs(I.Uniform(), 1), 'fallback': I.Gaussian()}, lambda: {'default': I.Orthogonal(), 'fallback': I.Uniform()}, lambda: {'default': I.EchoState(), 'fallback': I.Gaussian()},
          lambda: {'default': I.RandomWalk(), 'fallback': I.Identity(enforce_square=False), }, lambda: {'default': I.LstmOptInit(I.Gaussian(), I.Uniform(), I.SparseInputs(I.Gaussian(), 1), I.Uniform(2.)), 'fallback': I.Gaussian()}]
    from brainstorm.utils import InitializationError
    import brainstorm as bs
    for rep in range(ctx.n(40, 400)):
        if ctx.out_of_time():
            return
        arch, _, net = try_build(ctx.py)
        f = mk[rep % len(mk)]; sd = ctx.py.randint(0, 10 ** 6)
        ctx.count(('seed', rep), dict(arch=arch, seed=sd))
        try:
            net.initialize(f(), seed=sd)
        except InitializationError:
            continue
        p = net.get('parameters')
        if rep % 3 == 0:
            net.initialize(I.Gaussian(), seed=sd + 1); np.random.rand(3); bs.randomness.global_rnd.rand(ctx.py.randint(1, 5)); net.rnd.rand(3)
        i = f()
        for x in (i.values() if isinstance(i, dict) else [i]):
            x.rnd.rand(ctx.py.randint(0, 9)) if hasattr(x, 'rnd') else None
            for y in x.__dict__.values():
                if hasattr(y, 'rnd'):
                    y.rnd.rand(ctx.py.randint(0, 9))
        net.initialize(i, seed=sd)
        ctx.same(net.get('parameters'), p, 'same seed, other parameters', arch=arch, seed=sd, init=rep % len(mk))
        net.initialize(i, seed=sd)
        ctx.same(net.get('parameters'), p, 'same seed and initialiser object, other parameters', arch=arch, seed=sd, init=rep % len(mk))
        net2 = bs.Network.from_architecture({k: arch[k] for k in sorted(arch, reverse=True)})
        from brainstorm.handlers import NumpyHandler
        net2.set_handler(NumpyHandler(np.float64)); net2.initialize(f(), seed=sd)
        ctx.same(net2.get('parameters'), p, 'same seed in an equal network, other parameters', arch=arch, seed=sd)
        if p.size > 4 and rep % len(mk) < 2:
            net.initialize(f(), seed=sd + 1)
            ctx.require((net.get('parameters') != p).any(), 'another seed gives the same parameters')
            ctx.require(len(set(p)) == p.size, 'parameters are initialised with repeated random numbers', arch=arch)


def random_state(ctx):
    from brainstorm.randomness import RandomState
    import pickle, copy
    for rep in range(ctx.n(20, 200)):
        sd = ctx.py.randint(0, 10 ** 8); r = RandomState(sd); a = r.rand(4)
        ctx.count(('rs', rep))
        ctx.require(r.get_seed() == sd, 'get_seed'); r.reset(); ctx.same(r.rand(4), a, 'reset')
        r.set_seed(sd); ctx.same(r.rand(4), a, 'set_seed')
        q = pickle.loads(pickle.dumps(r)); c = copy.deepcopy(r); x = r.rand(3); ctx.same(q.rand(3), x, 'pickle'); ctx.same(c.rand(3), x, 'copy')
        ctx.require(q.get_seed() == sd and isinstance(q, RandomState), 'pickled seed')
        s = RandomState(sd).create_random_state(); t = RandomState(sd).create_random_state(); ctx.same(s.rand(2), t.rand(2), 'derived random state')


CASES = [ranges, spread, structure, seeds, random_state]


def replay(ctx, item):
    dict(ranges=ranges, structure=structure, seeds=seeds, random_state=random_state)[item['kind']](ctx)
