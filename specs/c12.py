"""C12: Minibatches, Undivided and the wrappers for data of any size, any batch size and any contents."""
from engine.poly import *
from engine.prover import *
from engine.rt import *
from engine import rt, verify, prover, handler, tensor, seq, pyxload
from engine.tensor import input_array, View, assign_to, bigmax
from engine.verify import contract, lemma
from . import common
from .ghost import Tok
from .c18 import first_max

ASSUMPTIONS = [common.REALS, common.NUMPY, 'RandomState.shuffle permutes in place; standard_normal, rand, random_sample and random_integers return numbers of the requested shape and range',
               'sequences have at least one time step and at least one unmasked one where lengths come from a mask']
TRUSTED = ['engine/*.py', 'z3', common.EXTRACTION, common.KERNEL]
T, N, F, bs = isym('T'), isym('N'), isym('F'), isym('bs')
DIMS = [dict(T=2, N=5, F=2, bs=2, T0=2), dict(T=3, N=4, F=1, bs=4), dict(T=1, N=3, F=3, bs=5), dict(T=2, N=6, F=2, bs=3)]


class Rnd(object):
    """the source of randomness: every draw is an array of unknown numbers (of the requested range)"""

    def shuffle(self, a):
        n = P(a.shape[0])
        INT_ARRAYS.add('perm')
        a.st.content = lambda c: rd('perm', c[0])
        seq.emit('shuffle', n)

    def permutation(self, n):
        if isinstance(n, View):
            raise Unsupported('permutation of an array')
        r = input_array('perm', [P(n)], is_int=True)
        seq.emit('shuffle', P(n))
        return r

    def _arr(self, base, shape, is_int=False):
        shape = shape if isinstance(shape, (tuple, list)) else (shape,)
        return input_array(seq.name(base), [P(s) for s in shape], is_int=is_int)

    def standard_normal(self, size):
        r = self._arr('normal', size)
        seq.emit('normal', r)
        return r

    def randn(self, *shape):
        return self.standard_normal(shape)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self.standard_normal(size)

    def rand(self, *shape):
        return self.random_sample(shape if shape else None)

    def random_sample(self, size=None):
        if size is None:
            return S(draw('u'))
        if not isinstance(size, (tuple, list)) or len(size) == 1:
            n = size[0] if isinstance(size, (tuple, list)) else size
            return input_array('u1', [P(n)])
        r = self._arr('uniform', size)
        seq.emit('uniform', r)
        return r

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self.random_sample(size)

    def random_integers(self, lo, hi, size=None):
        r = self._arr('integers', size, True)
        seq.emit('integers', P(lo), P(hi), r)
        return r

    def randint(self, lo, hi, size=None):
        return self.random_integers(lo, P(hi) - 1, size)

    def __getattr__(self, name):
        raise Unsupported('random draw ' + name)


def lens(rec):
    """_calculate_lengths_from_mask"""
    import brainstorm.data_iterators as D

    def run():
        m = input_array('mask', [T, N, ONE])
        r = D._calculate_lengths_from_mask(m)
        return r, m
    on = lambda t, b: 1 - eq0(rd('mask', t, b))

    def post(x):
        r, m = x
        b = free_index(0, N)
        t = free_index(0, T)
        anyon = bigmax(ZERO, T, lambda t: on(t, b))
        yield 'one length per sequence', P(r.shape[0]), N
        yield 'time steps up to the last unmasked one', r.get([b]), ite(eq0(anyon), ZERO, T - first_max(lambda k: on(T - 1 - k, b), T)), (b,)
        yield 'mask unchanged', m.get([t, b]), rd('mask', t, b), (t, b)
    contract(rec, '_calculate_lengths_from_mask', '_calculate_lengths_from_mask', [(1 - T, 'le'), (1 - N, 'le')], run, post, dims=DIMS, items=[dict(kind='minibatches')])
    # what the formula means: a is the first maximum of g(k) = on(T-1-k), k counting from the end
    g, k, a, q, n = z3.Function('g', z3.IntSort(), z3.IntSort()), z3.Int('k'), z3.Int('a'), z3.Int('q'), z3.Int('T')
    h = [n >= 1, z3.ForAll([k], z3.Or(g(k) == 0, g(k) == 1)), a >= 0, a < n, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), g(k) <= g(a))), z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < a), g(k) < g(a)))]
    lemma(rec, 'no unmasked time step lies beyond the length', 'lemma', h + [q >= 0, q < n, g(n - 1 - q) == 1, k == n - 1 - q], z3.And(q < n - a, n - a >= 1, n - a <= n))
    lemma(rec, 'the last time step within the length is unmasked', 'lemma', h + [q >= 0, q < n, g(n - 1 - q) == 1, k == n - 1 - (n - a - 1)], g(k) == 1)


def batches(rec):
    import brainstorm.data_iterators as D
    for shuffle in (False, True):
        for cut in ('mask', 'absent', 'lengths', None):
            nb = -floordiv(-N, bs)

            def run():
                seq.TRACE[:] = [[]]
                seq.TRACKED[:] = []
                prover.ARRANGE.update(lengths=(ZERO, T), perm=(ZERO, nb - 1))
                data = dict(x=input_array('x', [T, N, F]), y=input_array('y', [T, N, isym('G')]))
                kw = {}
                if cut == 'mask':
                    data['mask'] = input_array('mask', [T, N, ONE])
                elif cut == 'absent':
                    kw['cut_according_to'] = 'absent'
                elif cut == 'lengths':
                    kw['cut_according_to'] = input_array('lengths', [N], is_int=True)
                else:
                    kw['cut_according_to'] = None
                lens_of = lambda m: input_array('lengths', [N], is_int=True)
                old = D._calculate_lengths_from_mask
                D._calculate_lengths_from_mask = lens_of          # by its contract
                try:
                    it = D.Minibatches(S(bs), shuffle, **dict(kw, **data))
                finally:
                    D._calculate_lengths_from_mask = old
                it.rnd = Rnd()
                out = []
                seq.consume(it(handler=None), lambda d: seq.emit('batch', d) if True else None)
                return it, data, seq.TRACE[0]

            nb = -floordiv(-N, bs)

            def post(x):
                it, data, tr = x
                yield 'announced number of batches: N / batch size rounded up', P(it.length), nb
                yield 'announced shapes', all(it.data_shapes[k] == v.shape for k, v in data.items()) and set(it.data_shapes) == set(data)
                blocks = [e for e in tr if isinstance(e, seq.Block)]
                sh = [e for e in tr if isinstance(e, tuple) and e[0] == 'shuffle']
                yield 'order shuffled once per epoch exactly if wanted', len(sh) == (1 if shuffle else 0) and len(blocks) == 1 and len(tr) == len(sh) + 1 and tr[-1] is blocks[0]
                if len(blocks) != 1:
                    return
                b = blocks[0]
                yield 'as many batches as announced', b.coll.n, nb
                yield 'until the end', b.until is None
                for v, g, ev in b.cases:
                    ok = len(ev) == 1 and ev[0][0] == 'batch' and set(ev[0][1]) == set(data)
                    yield 'one batch at a time with all data items', ok
                    if not ok or not seq.possible(g):
                        continue
                    j = rd('perm', b.index) if shuffle else b.index
                    # facts about a generic batch number
                    Ctx.cur.push(*(guard_facts(g) + [(-j, 'le'), (j + 1 - nb, 'le'), (-b.index, 'le'), (b.index + 1 - nb, 'le')]))
                    lo = j * bs
                    hi = j * bs + bs
                    hi = hi if prove_int(hi - N - 1, 'lt') is True else N if prove_int(N - hi - 1, 'lt') is True else imin(hi, N)
                    L = lambda s: rd('lengths', s)
                    if cut in ('mask', 'lengths'):
                        longest = bigmax(ZERO, hi - lo, lambda s: L(lo + s))
                    for k, d in data.items():
                        o = ev[0][1][k]
                        yield '%s: the sequences of batch j' % k, P(o.shape[1]), hi - lo
                        if cut in ('mask', 'lengths'):
                            yield '%s: as many time steps as the longest sequence in the batch' % k, P(o.shape[0]), longest
                        else:
                            yield '%s: all time steps' % k, P(o.shape[0]), T
                        s = free_index(0, P(o.shape[1]))
                        t = free_index(0, P(o.shape[0]))
                        f = [] if k == 'mask' else [free_index(0, F if k == 'x' else isym('G'))]
                        yield '%s: sequence s of the batch is sequence j * batch size + s' % k, o.get([t, s] + f), rd(k, t, lo + s, *f), [t, s] + f
                    Ctx.cur.pop()
            contract(rec, 'Minibatches[%s%s]' % ('shuffled' if shuffle else 'in order', ', cut by %s' % cut), ['Minibatches.__init__', 'Minibatches.__call__', '_assert_correct_data_format'],
                     [(1 - T, 'le'), (1 - N, 'le'), (1 - F, 'le'), (1 - isym('G'), 'le'), (1 - bs, 'le')], run, post, dims=DIMS, items=[dict(kind='minibatches')])
    n, b, nb, s, q, j = z3.Ints('N bs nb s q j')
    ceil = [n >= 1, b >= 1, nb * b >= n, (nb - 1) * b < n]
    lemma(rec, 'every sequence lies in the batch with its number divided by the batch size', 'lemma', ceil + [s >= 0, s < n, q * b <= s, s < q * b + b], z3.And(q >= 0, q < nb, q * b <= s, s < z3.If(q * b + b <= n, q * b + b, n)))
    lemma(rec, 'and in no other', 'lemma', ceil + [s >= 0, s < n, q * b <= s, s < q * b + b, j >= 0, j < nb, j * b <= s, s < j * b + b], j == q)


H, W, C, V = isym('H'), isym('W'), isym('C'), isym('V')
POS = [(1 - x, 'le') for x in (T, N, F, H, W, C, V)]
WDIMS = [dict(T=2, N=2, F=2, H=2, W=3, C=1, V=3, size=1, ch=1, cw=2), dict(T=1, N=3, F=1, H=3, W=2, C=2, V=2, size=2, ch=3, cw=1)]


class Inner(object):
    """any iterator: yields any number of batches with the items x, y and img, fresh dictionaries over its own arrays"""

    def __init__(self, ints=False, width=None):
        w = F if width is None else width
        self.arrays = dict(x=input_array('x', [T, N, w], is_int=ints), y=input_array('y', [T, N, w], is_int=ints), img=input_array('img', [T, N, H, W, C]))
        self.data_shapes = {k: v.shape for k, v in self.arrays.items()}
        self.length = S(isym('len_batches'))
        self.asked = []
        self.coll = seq.Coll('batches', None)
        self.coll.at = lambda i, v: dict(self.arrays)        # a dictionary of its own for every batch

    def __call__(self, handler=None):
        self.asked.append(handler)
        return self.coll


def draw(name):
    """a number drawn in this iteration of the innermost loop"""
    from engine import loops
    if not loops.INDEX:
        return sym(seq.name(name))
    top = loops.INDEX[-1]
    top[1] += 1
    return rd('%s%d' % (name, top[1]), top[0])


def wrapper(rec, name, make, named, want, functions, ints=False, width=None, facts=(), extra=None, lohi=None, arrange=None):
    """named: the items the wrapper is asked to change; want(key, old, events) -> (new shape, f(index) -> value)"""
    import brainstorm.data_iterators as D

    def run():
        prover.ARRANGE.update(arrange or {})
        seq.TRACE[:] = [[]]
        seq.TRACKED[:] = []
        inner = Inner(ints, width)
        it = make(D, inner)
        it.rnd = Rnd()
        seq.consume(it(handler='HANDLER'), lambda d: seq.emit('batch', d))
        return it, inner, seq.TRACE[0]

    def post(x):
        it, inner, tr = x
        yield 'number of batches of the inner iterator', P(it.length), P(inner.length)
        yield 'inner iterator asked once, with the handler', set(inner.asked) == {'HANDLER'}
        if prove_int(inner.coll.n - 1, 'lt') is True:
            yield 'nothing if there are no batches', tr == []
            return
        ok = len(tr) == 1 and isinstance(tr[0], seq.Block) and tr[0].until is None and seq.base_coll(tr[0].coll) is inner.coll
        yield 'one batch for every batch of the inner iterator', ok
        if not ok:
            return
        for v, g, ev in tr[0].cases:
            if not seq.possible(g):
                continue
            outs = [e for e in ev if isinstance(e, tuple) and e[0] == 'batch']
            yield 'yields exactly once for it, with the same items', len(outs) == 1 and set(outs[0][1]) == set(inner.arrays)
            if len(outs) != 1:
                continue
            draws = [e for e in ev if isinstance(e, tuple) and e[0] != 'batch']
            Ctx.cur.push(*guard_facts(g))
            new = outs[0][1]
            for k, old in sorted(inner.arrays.items()):
                if k not in named:
                    yield '%s is passed through' % k, new[k] is old
            n = 0
            for k in named:
                old = inner.arrays[k]
                o = new[k]
                # the draws made for this item: those its new contents depend on
                mine = [e for e in draws if hasattr(e[-1], 'st') and e[-1].st.name in arrays_in(o.get([free_index(0, s) for s in o.shape if P(s) != ONE]))]
                if len(mine) != (extra or 1):
                    mine = draws[n:n + (extra or 1)]
                shape, f = want(k, mine)
                n += extra or 1
                yield '%s: number of axes' % k, len(o.shape) == len(shape)
                for q, (s1, s2) in enumerate(zip(o.shape, shape)):
                    yield '%s: size of axis %d' % (k, q), P(s1), P(s2)
                idx = [free_index(0, s) for s in shape]
                live = [i for i, s in zip(idx, shape) if s != ONE]
                yield '%s: contents' % k, o.get(live), f(idx), idx
            for k, a in sorted(inner.arrays.items()):
                idx = [free_index(0, s) for s in a.shape if P(s) != ONE]
                yield '%s: the array of the inner iterator is unchanged' % k, a.get(idx), rd(k, *idx), idx
            Ctx.cur.pop()
    contract(rec, name, functions, POS + list(facts), run, post, dims=WDIMS, items=[dict(kind='wrapper', name=name.split('[')[0])], lohi=lohi, limit=256)


def noise(rec):
    for keys in (('x',), ('x', 'y')):
        for means in (False, True):
            def make(D, inner):
                return D.AddGaussianNoise(inner, {k: S(sym('std_' + k)) for k in keys}, {k: S(sym('mean_' + k)) for k in keys} if means else None)

            def want(k, dr):
                r = dr[0][1]
                return (T, N, F), lambda i: rd(k, *i) + sym('std_' + k) * r.get(i) + (sym('mean_' + k) if means else 0)
            wrapper(rec, 'AddGaussianNoise[%d items%s]' % (len(keys), ', means' if means else ''), make, keys, want, ['AddGaussianNoise.__init__', 'AddGaussianNoise.__call__'])

            def make(D, inner):
                return D.AddSaltNPepper(inner, {k: S(sym('p_' + k)) for k in keys}, {k: S(sym('q_' + k)) for k in keys} if means else None)

            def want(k, dr):
                r = dr[0][1]
                p, q = sym('p_' + k), sym('q_' + k) if means else P(Fraction(1, 2))
                return (T, N, F), lambda i: ite(le0(r.get(i) - p * (1 - q)), ZERO, ite(le0(1 - p * q - r.get(i)), ONE, rd(k, *i)))
            wrapper(rec, 'AddSaltNPepper[%d items%s]' % (len(keys), ', ratios' if means else ''), make, keys, want, ['AddSaltNPepper.__init__', 'AddSaltNPepper.__call__'],
                    lohi=dict([('p_x', (0., 1.)), ('p_y', (0., 1.)), ('q_x', (0., 1.)), ('q_y', (0., 1.))] + [('uniform%s' % z, (0., 1.)) for z in ['', '_1', '_2', '_3']]))


def hot(rec):
    for keys in (('x',), ('x', 'y')):
        wrapper(rec, 'OneHot[%d items]' % len(keys), lambda D, inner: D.OneHot(inner, {k: S(V) for k in keys}), keys,
                lambda k, dr: ((T, N, V), lambda i: eq0(rd(k, i[0], i[1]) - i[2], True)), ['OneHot.__init__', 'OneHot.__call__'], ints=True, width=ONE, lohi=dict(x=(0, 3), y=(0, 3)),
                arrange=dict(x=(ZERO, V - 1), y=(ZERO, V - 1)))
        wrapper(rec, 'MultiHot[%d items]' % len(keys), lambda D, inner: D.MultiHot(inner, {k: S(V) for k in keys}), keys,
                lambda k, dr: ((T, N, V), lambda i: bigmax(ZERO, F, lambda c: eq0(rd(k, i[0], i[1], c) - i[2], True))), ['MultiHot.__init__', 'MultiHot.__call__'], ints=True, facts=[(2 - F, 'le')], lohi=dict(x=(0, 3), y=(0, 3)),
                arrange=dict(x=(ZERO, V - 1), y=(ZERO, V - 1)))


def images(rec):
    size, ch, cw = isym('size'), isym('ch'), isym('cw')
    for val in (False, True):
        def inside(i):
            y, x = i[2] - size, i[3] - size
            v = sym('val') if val else ZERO
            return ite(le0(-y, True) * lt0(y - H, True) * le0(-x, True) * lt0(x - W, True), rd('img', i[0], i[1], y, x, i[4]), v)
        wrapper(rec, 'Pad[%s]' % ('value' if val else 'zero'), lambda D, inner: D.Pad(inner, {'img': S(size)}, {'img': S(sym('val'))} if val else None), ('img',),
                lambda k, dr: ((T, N, H + 2 * size, W + 2 * size, C), inside), ['Pad.__init__', 'Pad.__call__'], facts=[(-size, 'le')])
    wrapper(rec, 'Flip[probability]', lambda D, inner: D.Flip(inner, {'img': S(sym('prob'))}), ('img',),
            lambda k, dr: ((T, N, H, W, C), lambda i: ite(lt0(rd('u1', i[1]) - sym('prob')), rd('img', i[0], i[1], i[2], W - 1 - i[3], i[4]), rd('img', *i))),
            ['Flip.__init__', 'Flip.__call__'], facts=[(-sym('prob'), 'le'), (sym('prob') - 1, 'le')])
    import brainstorm.data_iterators as D

    def crop(inputs, h, w, rows, cols, out):                       # by its contract (C08)
        for a, want in ((inputs, (T, N, H, W, C)), (rows, (N,)), (cols, (N,)), (out, (T, N, ch, cw, C))):
            if len(a.shape) != len(want) or any(P(p) != q for p, q in zip(a.shape, want)):
                raise ValueError('_crop_images: wrong shape')
        gi, gr, gc = tensor.freeze(inputs), tensor.freeze(rows), tensor.freeze(cols)
        out.st.content = lambda c: gi([c[0], c[1], c[2] + gr([c[1]]), c[3] + gc([c[1]]), c[4]])
        seq.emit('crop', h, w)
    old, D._crop_images = D._crop_images, crop

    def want(k, dr):
        (_, lo1, hi1, r), (_, lo2, hi2, c) = dr
        if (hi1, hi2) == (W - cw, H - ch) and hi1 != hi2:
            (_, lo2, hi2, c), (_, lo1, hi1, r) = dr                 # drawn in the other order
        ok = (lo1, hi1, lo2, hi2) == (ZERO, H - ch, ZERO, W - cw)
        return (T, N, ch, cw, C), (lambda i: rd('img', i[0], i[1], i[2] + r.get([i[1]]), i[3] + c.get([i[1]]), i[4])) if ok else lambda i: sym('positions are not drawn from the whole range')
    try:
        wrapper(rec, 'RandomCrop', lambda D, inner: D.RandomCrop(inner, {'img': (S(ch), S(cw))}), ('img',), want, ['RandomCrop.__init__', 'RandomCrop.__call__'],
                facts=[(1 - ch, 'le'), (1 - cw, 'le'), (ch - H, 'le'), (cw - W, 'le')], extra=2)
    finally:
        D._crop_images = old


def undivided(rec):
    import brainstorm.data_iterators as D

    def run():
        seq.TRACE[:] = [[]]
        seq.TRACKED[:] = []
        data = dict(x=input_array('x', [T, N, F]), y=input_array('y', [T, N, F]))
        it = D.Undivided(**data)
        seq.consume(it(handler=None), lambda d: seq.emit('batch', d))
        return it, data, seq.TRACE[0]

    def post(x):
        it, data, tr = x
        yield 'length one', it.length == 1
        yield 'announced shapes', all(it.data_shapes[k] == v.shape for k, v in data.items()) and set(it.data_shapes) == set(data)
        ok = len(tr) == 1 and tr[0][0] == 'batch'
        yield 'one batch', ok
        if ok:
            yield 'all data items, in a dictionary of its own', tr[0][1] == data and tr[0][1] is not it.data
    contract(rec, 'Undivided', ['Undivided.__init__', 'Undivided.__call__', '_assert_correct_data_format'], POS, run, post, dims=WDIMS, items=[dict(kind='minibatches')])


def refused(rec):
    """documented refusals"""
    import brainstorm.data_iterators as D
    from brainstorm.utils import IteratorValidationError

    def gate(name, fn, make):
        def run():
            try:
                make()
            except IteratorValidationError:
                return True
            return False
        contract(rec, name + ' is refused', fn, POS, run, lambda r: [('with IteratorValidationError', r)], dims=WDIMS, items=[dict(kind='refused')])
    s = S(isym('s'))
    gate('noise on an unknown item', 'AddGaussianNoise.__init__', lambda: D.AddGaussianNoise(Inner(), {'nope': S(sym('a'))}))
    gate('means for other items than standard deviations', 'AddGaussianNoise.__init__', lambda: D.AddGaussianNoise(Inner(), {'x': S(sym('a'))}, {'y': S(sym('a'))}))
    gate('salt and pepper on an unknown item', 'AddSaltNPepper.__init__', lambda: D.AddSaltNPepper(Inner(), {'nope': S(sym('a'))}))
    gate('ratios for other items than probabilities', 'AddSaltNPepper.__init__', lambda: D.AddSaltNPepper(Inner(), {'x': S(sym('a'))}, {'y': S(sym('a'))}))
    gate('flipping an unknown item', 'Flip.__init__', lambda: D.Flip(Inner(), {'nope': 0.5}))
    gate('flipping items that are no images', 'Flip.__init__', lambda: D.Flip(Inner(), {'x': 0.5}))
    gate('one-hot of an unknown item', 'OneHot.__init__', lambda: D.OneHot(Inner(), {'nope': s}))
    gate('one-hot with a vocabulary size that is no integer', 'OneHot.__init__', lambda: D.OneHot(Inner(width=ONE), {'x': S(sym('v'))}))
    gate('one-hot of images', 'OneHot.__init__', lambda: D.OneHot(Inner(), {'img': s}))
    gate('multi-hot of an unknown item', 'MultiHot.__init__', lambda: D.MultiHot(Inner(), {'nope': s}))
    gate('multi-hot of images', 'MultiHot.__init__', lambda: D.MultiHot(Inner(), {'img': s}))
    gate('padding an unknown item', 'Pad.__init__', lambda: D.Pad(Inner(), {'nope': s}))
    gate('padding items that are no images', 'Pad.__init__', lambda: D.Pad(Inner(), {'x': s}))
    gate('pad values for other items than sizes', 'Pad.__init__', lambda: D.Pad(Inner(), {'img': s}, {'x': 1}))
    gate('cropping an unknown item', 'RandomCrop.__init__', lambda: D.RandomCrop(Inner(), {'nope': (1, 1)}))
    gate('cropping items that are no images', 'RandomCrop.__init__', lambda: D.RandomCrop(Inner(), {'x': (1, 1)}))
    gate('a crop larger than the image', 'RandomCrop.__init__', lambda: D.RandomCrop(Inner(), {'img': (S(H + 1 + isym('more')), 1)}) if decide_nonneg('more') else (_ for _ in ()).throw(IteratorValidationError()))
    gate('a flip probability above one', 'Flip.__init__', lambda: D.Flip(Inner(), {'img': S(ONE + exp(sym('e')))}))
    gate('a flip probability below zero', 'Flip.__init__', lambda: D.Flip(Inner(), {'img': S(-exp(sym('e')))}))
    for bad, shapes in (('different numbers of sequences', ([T, N, F], [T, N + 1, F])), ('different numbers of time steps', ([T, N, F], [T + 1, N, F])), ('arrays with too few axes', ([T, N], [T, N]))):
        for cls in ('Minibatches', 'Undivided'):
            gate('%s: data with %s' % (cls, bad), ['%s.__init__' % cls, '_assert_correct_data_format'],
                 lambda: getattr(D, cls)(**dict(x=input_array('x', shapes[0]), y=input_array('y', shapes[1]))))
    gate('Undivided: data without shape', ['Undivided.__init__', '_assert_correct_data_format'], lambda: D.Undivided(x=[1, 2]))


def decide_nonneg(name):
    return decide(le0(-isym(name), True))


def tasks(tier):
    for f in (lens, batches, undivided, noise, hot, images, refused):
        yield f.__name__, f
