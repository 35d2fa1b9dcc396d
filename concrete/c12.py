"""C12: data iterators."""
import math
import numpy as np


def dataset(ctx, T=None, N=None, image=False):
    T = T or ctx.py.randint(1, 6); N = N or ctx.py.randint(1, 12)
    d = {'default': ctx.rng.rand(T, N, *((ctx.py.randint(2, 4), ctx.py.randint(2, 5), ctx.py.randint(1, 3)) if image else (3,)))}
    # every entry identifies its sequence and time step
    ident = np.arange(T)[:, None] * 1000 + np.arange(N)[None] + 0.5
    d['ident'] = ident.reshape(T, N, 1).copy()
    d['targets'] = np.floor(ctx.rng.rand(T, N, 1) * 4)
    return d, T, N


def epoch(it, kwargs=True):
    from brainstorm.handlers import default_handler
    out = []
    for b in it(handler=default_handler):
        out.append({k: np.array(v, copy=True) for k, v in b.items()})
    return out


def seqs(batch):
    return [int(round((v - .5) % 1000)) for v in batch['ident'][0, :, 0]] if batch['ident'].shape[0] else None


def minibatches(ctx):
    from brainstorm.data_iterators import Minibatches
    for rep in range(ctx.n(250, 4000)):
        if ctx.out_of_time():
            return
        d, T, N = dataset(ctx)
        bsz = ctx.py.randint(1, N + 3); shuffle = bool(rep % 2)
        mode = rep % 5
        kw = {}
        lens = np.full(N, T)
        if mode in (1, 2):
            m = (ctx.rng.rand(T, N, 1) < .5).astype(float)
            if mode == 2:      # gaps, empty sequences, non-0/1 values
                m *= 0.5
                m[:, ctx.rng.rand(N) < .2] = 0
            nm = 'mask' if mode == 1 else 'weights'
            d[nm] = m
            if mode == 2:
                kw['cut_according_to'] = 'weights'
            for i in range(N):
                nz = np.nonzero(m[:, i, 0])[0]
                lens[i] = nz[-1] + 1 if len(nz) else 0
        elif mode == 3:
            lens = np.array([ctx.py.randint(0, T) for _ in range(N)])
            kw['cut_according_to'] = lens.tolist() if rep % 3 else lens.copy()
        elif mode == 4:
            kw['cut_according_to'] = None
        orig = {k: v.copy() for k, v in d.items()}
        it = Minibatches(bsz, shuffle, **dict(kw, **d))
        info = dict(T=T, N=N, batch_size=bsz, shuffle=shuffle, mode=mode, lens=lens)
        ctx.count(('mb', T, N, bsz, shuffle, mode), info)
        want_batches = [list(range(i, min(i + bsz, N))) for i in range(0, N, bsz)]
        ctx.require(it.length == len(want_batches), 'announced length %s' % it.length, **info)
        ctx.require({k: tuple(v) for k, v in it.data_shapes.items()} == {k: v.shape for k, v in orig.items()}, 'data shapes', **info)
        orders = []
        for ep in range(3):
            got = epoch(it)
            ctx.require(len(got) == it.length, 'number of batches', **info)
            seen = []
            for b in got:
                ctx.require(set(b) == set(orig), 'names in the batch', **info)
                cand = [w for w in want_batches if w not in seen and all(b[k].shape[1] == len(w) and b[k].shape[0] == max(lens[w]) and
                        np.array_equal(b[k], orig[k][:max(lens[w]), w]) for k in orig)]
                ctx.require(cand, 'a batch is not a block of sequences, aligned and cut to the longest of them', **dict(info, batch={k: v for k, v in b.items() if k != 'default'}))
                seen.append(cand[0])
            if not shuffle:
                ctx.require(seen == want_batches, 'order of unshuffled batches', **info)
            orders.append(tuple(map(tuple, seen)))
            for k in orig:
                ctx.same(d[k], orig[k], 'data set', **info)
    d, T, N = dataset(ctx, 2, 12)
    it = Minibatches(1, True, **d); os = {tuple(s for b in epoch(it) for s in seqs(b)) for _ in range(30)}
    ctx.require(len(os) > 15, 'shuffling does not permute the batches')
    it = Minibatches(1, True, **d); it.rnd.set_seed(1); a = epoch(it); it.rnd.set_seed(1); b = epoch(it)
    ctx.require([seqs(x) for x in a] == [seqs(x) for x in b], 'shuffling ignores the seed')


def undivided(ctx):
    from brainstorm.data_iterators import Undivided, Minibatches
    from brainstorm.utils import IteratorValidationError
    for rep in range(ctx.n(30, 300)):
        d, T, N = dataset(ctx); orig = {k: v.copy() for k, v in d.items()}
        it = Undivided(**d); ctx.count(('und', T, N))
        ctx.require(it.length == 1, 'length')
        for ep in range(2):
            got = epoch(it)
            ctx.require(len(got) == 1 and set(got[0]) == set(orig), 'Undivided yields the data once')
            for k in orig:
                ctx.same(got[0][k], orig[k], 'Undivided data')
            for b in it():
                b['default'] = None; b['new'] = 1
        bad = dict(d); k = ctx.py.choice(sorted(d)); bad[k] = [d[k][:, :-1], d[k][:-1], d[k][:, :, 0], 5][rep % 4] if rep % 4 != 2 else d[k].reshape(T, -1)
        for cls in (Undivided, Minibatches):
            ctx.raises(IteratorValidationError, lambda: cls(**bad), 'inconsistent data accepted', shapes={k: np.shape(v) for k, v in bad.items()})


def base(ctx, image, rep):
    from brainstorm.data_iterators import Undivided, Minibatches
    d, T, N = dataset(ctx, image=image)
    d['other'] = ctx.rng.rand(*d['default'].shape)
    orig = {k: v.copy() for k, v in d.items()}
    mk = (lambda: Undivided(**d)) if rep % 3 == 0 else (lambda: Minibatches(ctx.py.randint(1, N + 1), False, **d))
    return d, orig, mk, T, N


def wrap(ctx, name, build, expect, image, reps, prep=None):
    """expect(key, original batch array, rng clone) -> expected array or predicate"""
    from brainstorm.handlers import default_handler
    for rep in range(reps):
        if ctx.out_of_time():
            return
        d, orig, mk, T, N = base(ctx, image, rep)
        if prep:
            prep(d); orig = {k: v.copy() for k, v in d.items()}
        inner = mk()
        plain = epoch(inner)
        cfg = build(ctx, d, inner, rep)
        it, conf = cfg
        info = dict(iterator=name, T=T, N=N, conf=conf, rep=rep)
        ctx.count((name, T, N, str(conf)), info)
        ctx.require(it.length == inner.length, name + ': length', **info)
        for ep in range(3):
            got = epoch(it)
            ctx.require(len(got) == len(plain), name + ': number of batches', **info)
            for g, p in zip(got, plain):
                ctx.require(set(g) == set(p), name + ': names', **info)
                for k in p:
                    expect(ctx, k, g[k], p[k], conf, dict(info, key=k, epoch=ep))
            for k in orig:
                ctx.same(d[k], orig[k], name + ': underlying data set', **info)
        again = epoch(inner)
        for g, p in zip(again, plain):
            for k in p:
                ctx.same(g[k], p[k], name + ': data of the wrapped iterator', **info)
        # the same random numbers give the same data, in every epoch
        it.rnd.set_seed(5); a = epoch(it); it.rnd.set_seed(5); b = epoch(it)
        for x, y in zip(a, b):
            for k in x:
                ctx.same(x[k], y[k], name + ': not determined by the seed', **info)


def keys_of(ctx, pool):
    ks = [k for k in pool if ctx.rng.rand() < .6]
    return ks or [pool[0]]


def gaussian(ctx):
    from brainstorm.data_iterators import AddGaussianNoise
    from brainstorm.utils import IteratorValidationError

    def build(ctx, d, inner, rep):
        ks = keys_of(ctx, ['default', 'other'])
        std = {k: float([0.0, .5, 2.][rep % 3]) for k in ks}; mean = {k: float(ctx.rng.randn()) for k in ks} if rep % 2 else None
        return AddGaussianNoise(inner, std, mean), dict(std=std, mean=mean)

    def expect(ctx, k, g, p, conf, info):
        if k not in conf['std']:
            ctx.same(g, p, 'other items', **info); return
        mu = (conf['mean'] or {}).get(k, 0.0); s = conf['std'][k]; n = g - p - mu
        ctx.require(g.shape == p.shape, 'shape', **info)
        if s == 0:
            ctx.close(g, p + mu, 'noise without deviation', **info)
        else:
            ctx.require(abs(n.mean()) < 7 * s / math.sqrt(n.size) and (abs(n) < 9 * s).all() and (n.size < 30 or abs(n.std() / s - 1) < 8 / math.sqrt(n.size)), 'noise statistics', **info)
    wrap(ctx, 'AddGaussianNoise', build, expect, False, ctx.n(30, 300))
    d, orig, mk, T, N = base(ctx, False, 0)
    ctx.raises(IteratorValidationError, lambda: AddGaussianNoise(mk(), {'nope': 1.}), 'unknown name')
    ctx.raises(IteratorValidationError, lambda: AddGaussianNoise(mk(), {'default': 1.}, {'other': 1.}), 'different names')


def salt(ctx):
    from brainstorm.data_iterators import AddSaltNPepper
    from brainstorm.utils import IteratorValidationError

    def build(ctx, d, inner, rep):
        ks = keys_of(ctx, ['default', 'other'])
        pr = {k: [0.0, .3, 1.0][rep % 3] for k in ks}; ra = {k: [0., 1., .4][(rep // 3) % 3] for k in ks} if rep % 2 else None
        return AddSaltNPepper(inner, pr, ra), dict(pr=pr, ra=ra)

    def expect(ctx, k, g, p, conf, info):
        if k not in conf['pr']:
            ctx.same(g, p, 'other items', **info); return
        pr, ra = conf['pr'][k], (conf['ra'] or {}).get(k, .5)
        ctx.require(g.shape == p.shape, 'shape', **info)
        ctx.require(((g == p) | (g == 0) | (g == 1)).all(), 'values other than salt, pepper and the original', **info)
        n = g.size
        for val, q in ((1.0, pr * ra), (0.0, pr * (1 - ra))):
            c = (g == val).mean()
            ctx.require(abs(c - q) <= 7 * math.sqrt(q * (1 - q) / n) + 1e-9, 'fraction of %g is %g instead of %g' % (val, c, q), **info)
    wrap(ctx, 'AddSaltNPepper', build, expect, False, ctx.n(36, 360))
    d, orig, mk, T, N = base(ctx, False, 0)
    ctx.raises(IteratorValidationError, lambda: AddSaltNPepper(mk(), {'nope': 1.}), 'unknown name')


def flip(ctx):
    from brainstorm.data_iterators import Flip
    from brainstorm.utils import IteratorValidationError
    stat = []

    def build(ctx, d, inner, rep):
        if rep % 4 == 3:
            return Flip(inner), dict(pr={'default': .5})
        ks = keys_of(ctx, ['default', 'other']); pr = {k: [0., 1., .5][rep % 3] for k in ks}
        return Flip(inner, pr), dict(pr=pr)

    def expect(ctx, k, g, p, conf, info):
        if k not in conf['pr']:
            ctx.same(g, p, 'other items', **info); return
        q = conf['pr'][k]
        ctx.require(g.shape == p.shape, 'shape', **info)
        for i in range(p.shape[1]):
            keep, fl = np.array_equal(g[:, i], p[:, i]), np.array_equal(g[:, i], p[:, i, :, ::-1])
            ctx.require(keep or fl, 'image neither kept nor mirrored', **info)
            ctx.require((keep or q > 0) and (fl or q < 1), 'probability %g' % q, **info)
            if q == .5:
                stat.append(fl)
    wrap(ctx, 'Flip', build, expect, True, ctx.n(40, 300))
    ctx.require(abs(np.mean(stat) - .5) < 7 * .5 / math.sqrt(len(stat)), 'flip probability', mean=float(np.mean(stat))) if len(stat) > 20 else None
    d, orig, mk, T, N = base(ctx, True, 0)
    ctx.raises(IteratorValidationError, lambda: Flip(mk(), {'nope': .5}), 'unknown name')
    ctx.raises(IteratorValidationError, lambda: Flip(mk(), {'default': 1.5}), 'probability > 1')
    ctx.raises(IteratorValidationError, lambda: Flip(mk(), {'targets': .5}), '3d data')


def pad(ctx):
    from brainstorm.data_iterators import Pad
    from brainstorm.utils import IteratorValidationError

    def build(ctx, d, inner, rep):
        ks = keys_of(ctx, ['default', 'other'])
        size = {k: ctx.py.randint(0, 3) for k in ks}; val = {k: float(ctx.rng.randn()) for k in ks} if rep % 2 else None
        return Pad(inner, size, val), dict(size=size, val=val)

    def expect(ctx, k, g, p, conf, info):
        if k not in conf['size']:
            ctx.same(g, p, 'other items', **info); return
        s, v = conf['size'][k], (conf['val'] or {}).get(k, 0.)
        t, b, h, w, c = p.shape
        e = np.full((t, b, h + 2 * s, w + 2 * s, c), v); e[:, :, s:s + h, s:s + w] = p
        ctx.same(g, e, 'padded images', **info)
    wrap(ctx, 'Pad', build, expect, True, ctx.n(30, 300))
    d, orig, mk, T, N = base(ctx, True, 0)
    ctx.raises(IteratorValidationError, lambda: Pad(mk(), {'nope': 1}), 'unknown name')
    ctx.raises(IteratorValidationError, lambda: Pad(mk(), {'targets': 1}), '3d data')
    ctx.raises(IteratorValidationError, lambda: Pad(mk(), {'default': 1}, {'other': 1.}), 'different names')


def crop(ctx):
    from brainstorm.data_iterators import RandomCrop
    from brainstorm.utils import IteratorValidationError
    pos = {}

    def build(ctx, d, inner, rep):
        ks = keys_of(ctx, ['default', 'other'])
        sh = {k: (ctx.py.randint(1, d[k].shape[2]), ctx.py.randint(1, d[k].shape[3])) for k in ks}
        return RandomCrop(inner, sh), dict(shape=sh)

    def expect(ctx, k, g, p, conf, info):
        if k not in conf['shape']:
            ctx.same(g, p, 'other items', **info); return
        ch, cw = conf['shape'][k]
        t, b, h, w, c = p.shape
        ctx.require(g.shape == (t, b, ch, cw, c), 'crop shape', **info)
        for i in range(b):
            cand = [(r, q) for r in range(h - ch + 1) for q in range(w - cw + 1) if np.array_equal(p[:, i, r:r + ch, q:q + cw], g[:, i])]
            ctx.require(cand, 'not a crop (the same for all time steps) of the image', **info)
            pos.setdefault((h - ch, w - cw), []).append(cand[0])
    wrap(ctx, 'RandomCrop', build, expect, True, ctx.n(40, 400))
    for (r, q), l in pos.items():
        if len(l) > 40 * (r + 1) * (q + 1):
            ctx.require(len(set(l)) == (r + 1) * (q + 1), 'some crop positions never occur', room=(r, q))
    d, orig, mk, T, N = base(ctx, True, 0)
    h, w = d['default'].shape[2:4]
    for bad in ({'nope': (1, 1)}, {'targets': (1, 1)}, {'default': (h + 1, 1)}, {'default': (1, w + 1)}, {'default': 2}):
        ctx.raises(IteratorValidationError, lambda: RandomCrop(mk(), bad), 'invalid crop %s' % bad)


def hot(ctx):
    from brainstorm.data_iterators import OneHot, MultiHot
    from brainstorm.utils import IteratorValidationError

    def prep(d):
        V = 5
        T, N = d['ident'].shape[:2]
        d['one'] = ctx.rng.randint(0, V, (T, N, 1)); d['two'] = ctx.rng.randint(0, V, (T, N, 1))
        d['multi'] = ctx.rng.randint(0, V, (T, N, ctx.py.randint(1, 4)))

    def b1(ctx, d, inner, rep):
        ks = keys_of(ctx, ['one', 'two']); v = {k: ctx.py.randint(5, 8) for k in ks}
        return OneHot(inner, v), dict(v=v)

    def e1(ctx, k, g, p, conf, info):
        if k not in conf['v']:
            ctx.same(g, p, 'other items', **info); return
        V = conf['v'][k]
        ctx.same(g, np.arange(V)[None, None] == p, 'one hot', **info)

    def b2(ctx, d, inner, rep):
        ks = keys_of(ctx, ['multi', 'one']); v = {k: ctx.py.randint(5, 8) for k in ks}
        return MultiHot(inner, v), dict(v=v)

    def e2(ctx, k, g, p, conf, info):
        if k not in conf['v']:
            ctx.same(g, p, 'other items', **info); return
        V = conf['v'][k]
        ctx.same(g, (np.arange(V)[None, None, None] == p[..., None]).any(2), 'multi hot', **info)
    wrap(ctx, 'OneHot', b1, e1, False, ctx.n(25, 200), prep)
    wrap(ctx, 'MultiHot', b2, e2, False, ctx.n(25, 200), prep)
    d, orig, mk, T, N = base(ctx, False, 0)
    for cls in (OneHot, MultiHot):
        ctx.raises(IteratorValidationError, lambda: cls(mk(), {'nope': 3}), 'unknown name')
        ctx.raises(IteratorValidationError, lambda: cls(mk(), {'targets': 3.5}), 'vocabulary size')
    ctx.raises(IteratorValidationError, lambda: OneHot(mk(), {'default': 3}), 'last dimension')


def nested(ctx):
    """wrappers on wrappers"""
    from brainstorm.data_iterators import Pad, RandomCrop, Flip, Minibatches, AddGaussianNoise
    for rep in range(ctx.n(10, 80)):
        d, orig, mk, T, N = base(ctx, True, rep)
        it = Flip(AddGaussianNoise(Pad(mk(), {'default': 1}), {'other': 0.0}), {'default': 1.0, 'other': 1.0})
        ctx.count(('nested', rep))
        for ep in range(2):
            i = 0
            for b in it():
                n = b['ident'].shape[1]
                w = np.pad(orig['default'], ((0, 0), (0, 0), (1, 1), (1, 1), (0, 0)), 'constant')[:, i:i + n, :, ::-1]
                ctx.same(b['default'], w, 'nested wrappers'); ctx.same(b['other'], orig['other'][:, i:i + n, :, ::-1], 'nested wrappers'); i += n
            ctx.require(i == N, 'all sequences')
        for k in orig:
            ctx.same(d[k], orig[k], 'nested: underlying data')


CASES = [minibatches, undivided, gaussian, salt, flip, pad, crop, hot, nested]


def replay(ctx, item):
    if item['kind'] == 'wrapper':
        dict(AddGaussianNoise=gaussian, AddSaltNPepper=salt, Flip=flip, Pad=pad, RandomCrop=crop, OneHot=hot, MultiHot=hot)[item['name']](ctx)
    elif item['kind'] == 'refused':
        for f in (minibatches, undivided, gaussian, salt, flip, pad, crop, hot):
            f(ctx)
    else:
        minibatches(ctx)
        undivided(ctx)
