"""C11: every initialiser for all shapes and arguments, in terms of the numbers drawn; the draws are a function of the seed."""
import hashlib
import math
from engine.poly import *
from engine.prover import *
from engine.rt import *
from engine import rt, verify, prover, npx, tensor, seq, loops
from engine.tensor import input_array, View, assign_to
from engine.verify import contract, lemma
from . import common

ASSUMPTIONS = [common.REALS, common.NUMPY, 'numpy.random.RandomState: a draw is a function of the seed and the draws made since; rand is in [0, 1), uniform(a, b) in [a, b), shuffle permutes along the first axis',
               'numpy.linalg.svd gives factors with orthonormal columns / rows, numpy.linalg.eig the eigenvalues; the spectral radius is homogeneous: rho(c A) = |c| rho(A)',
               'a permutation of a row keeps the number of its ones']
TRUSTED = ['engine/*.py', 'z3', common.EXTRACTION, common.KERNEL]
M, K, Q, n4 = isym('M'), isym('K'), isym('Q'), isym('n4')
POS = [(1 - x, 'le') for x in (M, K, Q, n4)]
DIMS = [dict(M=2, K=3, Q=2, n4=1, conn=1), dict(M=4, K=1, Q=3, n4=2, conn=1), dict(M=1, K=1, Q=1, n4=1, conn=1), dict(M=5, K=7, Q=1, n4=3, conn=4)]


def _h(x):
    if isinstance(x, (tuple, list)):
        return '(' + ','.join(_h(y) for y in x) + ')'
    if isinstance(x, (S, Poly)):
        return P(x).key
    return repr(x)


class GhostBase(object):
    """numpy.random.RandomState as far as it is specified: the state is the seed and the draws since"""

    def __init__(self, seed=None):
        self.state = ('seed', _h(seed))

    def seed(self, seed=None):
        self.state = ('seed', _h(seed))

    def get_state(self):
        return self.state

    def set_state(self, s):
        self.state = s

    def _draw(self, what):
        """name of the draw; inside a loop the draws of iteration t are indexed by t"""
        if loops.INDEX:
            t = loops.INDEX[-1]
            t[1] += 1
            nm = 'd' + hashlib.md5(repr((self.state, 'loop', t[1], what)).encode()).hexdigest()[:10]
            self.after_loop = True
            return nm, [t[0]]
        if getattr(self, 'after_loop', None) == self.state:
            raise Unsupported('draw after a loop of draws')
        nm = 'd' + hashlib.md5(repr((self.state, what)).encode()).hexdigest()[:10]
        self.state = (self.state, what)
        return nm, []

    def _array(self, kind, shape):
        shape = [P(s) for s in (shape if isinstance(shape, (tuple, list)) else (shape,))]
        nm, pre = self._draw((kind, tuple(s.key for s in shape)))
        if kind == 'u':
            UNIFORM.add(nm)
        v = input_array(nm, shape)
        if pre:
            old = v.st.content
            v.st.content = lambda c: rd(nm, *(pre + list(c)))
        return v

    def rand(self, *shape):
        return self._array('u', shape)

    def random_sample(self, size):
        return self._array('u', size)

    def randn(self, *shape):
        return self._array('g', shape)

    def standard_normal(self, size):
        return self._array('g', size)

    def normal(self, loc=0., scale=1., size=None):
        return loc + scale * self._array('g', size)

    def uniform(self, low=0., high=1., size=None):
        return low + (high - low) * self._array('u', size)

    def randint(self, lo, hi=None, size=None):
        if size is not None:
            raise Unsupported('randint with size')
        nm, pre = self._draw(('randint', _h(lo), _h(hi)))
        if pre:
            raise Unsupported('seeds drawn in a loop')
        return S(isym(nm))

    def shuffle(self, a):
        nm, pre = self._draw(('shuffle', a.shape[0].p.key if isinstance(a.shape[0], S) else a.shape[0]))
        INT_ARRAYS.add(nm)
        prover.ARRANGE[nm] = (ZERO, P(a.shape[0]) - 1)
        PERMS.append(nm)
        g = tensor.freeze(a)
        r = tensor.alloc(a.shape, None)
        r.st.content = lambda c: g([rd(nm, *(pre + [c[0]]))] + list(c[1:]))
        assign_to(a, r)

    def __getattr__(self, name):
        if name.startswith('__') or name == 'after_loop':
            raise AttributeError(name)
        raise Unsupported('random draw ' + name)


UNIFORM, PERMS = set(), []


class ghostly(object):
    """the real RandomState and Seedable on top of the specified base class"""

    def __enter__(self):
        import brainstorm.randomness as R
        self.R, self.old = R, R.RandomState
        d = {k: v for k, v in vars(R.RandomState).items() if k not in ('__dict__', '__weakref__')}
        R.RandomState = type('RandomState', (GhostBase,), d)
        self.oldg, R.global_rnd = R.global_rnd, R.RandomState(S(isym('gseed')))
        return R

    def __exit__(self, *a):
        self.R.RandomState, self.R.global_rnd = self.old, self.oldg


def entry(v, idx):
    """v[idx], axes of size one carry no component"""
    return v.get([i for i, s in zip(idx, v.shape) if P(s) != ONE])


def shaped(name, v, shape):
    yield name + 'number of axes', len(v.shape) == len(shape)
    for q, (a, b) in enumerate(zip(v.shape, shape)):
        yield name + 'size of axis %d' % q, P(a), P(b)


def formula(rec, name, make, shape, want, fn, facts=(), lohi=None, raises=None):
    """the result has the requested shape and the entries want(i, draws), where draws are the numbers drawn"""
    def run():
        UNIFORM.clear()
        del PERMS[:]
        with ghostly():
            init = make()
            before = init.rnd.state
            sh = tuple(S(s) if isinstance(s, Poly) else s for s in shape)
            return init(sh), init, before

    def post(x):
        r, init, before = x
        for o in shaped('', r, [P(s) for s in shape]):
            yield o
        idx = [free_index(0, s) for s in shape]
        got = entry(r, idx)
        used = [a for a in arrays_in(got) if a.startswith('d')]
        yield 'entries', got, want(idx, lambda k: rd(used[k], *[i for i, s in zip(idx, shape) if P(s) != ONE]) if k < len(used) else sym('no draw')), idx
    contract(rec, name, fn, POS + list(facts), run, post, dims=DIMS, lohi=lohi, items=[dict(kind='ranges'), dict(kind='structure')])


def refusal(rec, name, make, shape, fn, facts=()):
    from brainstorm.utils import InitializationError

    def run():
        with ghostly():
            try:
                make()(tuple(S(s) if isinstance(s, Poly) else s for s in shape))
            except InitializationError:
                return True
            return False
    contract(rec, name, fn, POS + list(facts), run, lambda r: [('refused with InitializationError', r)], dims=DIMS, items=[dict(kind='ranges'), dict(kind='structure')])


def root(x):
    return power(P(x), Fraction(1, 2))


def prod(l):
    r = ONE
    for x in l:
        r = r * x
    return r


def uniforms(rec):
    import brainstorm.initializers as I
    lo, hi, sc = sym('low'), sym('high'), sym('scale')
    names = dict(rel=(6, 12, 1), tanh=(3, 6, 1), sigmoid=(3, 6, 4), linear=(1, 1, 1))
    for shape in ((M,), (M, K), (M, K, Q)):
        r = 'rank %d' % len(shape)
        formula(rec, 'Uniform[low, high, %s]' % r, lambda: I.Uniform(S(lo), S(hi)), shape, lambda i, d: (hi - lo) * d(0) + lo, ['Uniform.__init__', 'Uniform._set_interval', 'Uniform.__call__'], facts=[(lo - hi, 'lt')], lohi=dict(low=(-2., 0.), high=(0.1, 2.)))
        formula(rec, 'Uniform[one bound, %s]' % r, lambda: I.Uniform(S(hi)), shape, lambda i, d: 2 * hi * d(0) - hi, ['Uniform.__init__', 'Uniform._set_interval', 'Uniform.__call__'], facts=[(-hi, 'lt')], lohi=dict(high=(0.1, 2.)))
        formula(rec, 'Uniform[one negative bound, %s]' % r, lambda: I.Uniform(S(-hi)), shape, lambda i, d: 2 * hi * d(0) - hi, ['Uniform.__init__', 'Uniform._set_interval', 'Uniform.__call__'], facts=[(-hi, 'lt')], lohi=dict(high=(0.1, 2.)))
        formula(rec, 'Gaussian[%s]' % r, lambda: I.Gaussian(S(lo), S(hi)), shape, lambda i, d: lo * d(0) + hi, ['Gaussian.__call__'])
    for shape in ((M, K), (M, K, Q)):
        for nm, (f1, f2, mult) in sorted(names.items()) + [(None, (0, 0, 0))]:
            r = 'rank %d, %s' % (len(shape), nm or 'any scale')
            c1 = P(mult * math.sqrt(f1)) if nm else sc
            c2 = P(mult * math.sqrt(f2)) if nm else sc
            arg = nm or S(sc)
            formula(rec, 'DenseSqrtFanIn[%s]' % r, lambda: I.DenseSqrtFanIn(arg), shape, lambda i, d: c1 * (2 * d(0) - 1) / root(prod(shape[1:])), ['DenseSqrtFanIn.__call__', 'Initializer._assert_atleast2d'])
            formula(rec, 'DenseSqrtFanInOut[%s]' % r, lambda: I.DenseSqrtFanInOut(arg), shape, lambda i, d: c2 * (2 * d(0) - 1) / root(shape[0] + prod(shape[1:])), ['DenseSqrtFanInOut.__call__', 'Initializer._assert_atleast2d'])
    for cls in ('DenseSqrtFanIn', 'DenseSqrtFanInOut'):
        refusal(rec, '%s of a vector' % cls, lambda: getattr(I, cls)(), (M,), ['%s.__call__' % cls, 'Initializer._assert_atleast2d'])
    l, h, u, c, q = z3.Reals('low high u scale q')
    lemma(rec, 'Uniform: entries in [low, high]', 'lemma', [l < h, u >= 0, u < 1], z3.And(l <= (h - l) * u + l, (h - l) * u + l <= h))
    a = z3.If(c >= 0, c, -c)
    v = c * (2 * u - 1) * q
    lemma(rec, 'fan-in and fan-in-out: entries in [-scale / sqrt(n), scale / sqrt(n)], where q = 1 / sqrt(n)', 'lemma', [q > 0, u >= 0, u < 1], z3.And(-a * q <= v, v <= a * q))


def matrices(rec):
    import brainstorm.initializers as I
    sc, std = sym('scale'), sym('std')
    for sq in (True, False):
        shape = (M, M) if sq else (M, K)
        formula(rec, 'Identity[%s]' % ('square' if sq else 'any'), lambda: I.Identity(S(sc), S(std), sq), shape, lambda i, d: sc * eq0(i[0] - i[1], True) + std * d(0), 'Identity.__call__')
    formula(rec, 'RandomWalk[linear]', lambda: I.RandomWalk('linear'), (M, M), lambda i, d: exp(ONE / (2 * M)) * d(0) / M, 'RandomWalk.__call__')
    formula(rec, 'RandomWalk[rel, large]', lambda: I.RandomWalk('rel'), (M, M), lambda i, d: P(math.sqrt(2)) * exp(P(1.2) / (M - P(2.4))) * d(0) / M, 'RandomWalk.__call__', facts=[(7 - M, 'le')])
    formula(rec, 'RandomWalk[rel, small]', lambda: I.RandomWalk('rel'), (M, M), lambda i, d: P(math.sqrt(2) * math.exp(1.2 / (6 - 2.4))) * d(0) / M, 'RandomWalk.__call__', facts=[(M - 5, 'le')])
    formula(rec, 'RandomWalk[any scale]', lambda: I.RandomWalk(scale=S(sc)), (M, M), lambda i, d: sc * d(0) / M, 'RandomWalk.__call__')
    ne = [(M - K, 'ne')]
    refusal(rec, 'Identity of a matrix that is not square', lambda: I.Identity(), (M, K), 'Identity.__call__', ne)
    refusal(rec, 'RandomWalk of a matrix that is not square', lambda: I.RandomWalk(), (M, K), 'RandomWalk.__call__', ne)
    refusal(rec, 'EchoState of a matrix that is not square', lambda: I.EchoState(), (M, K), ['EchoState.__call__', 'Initializer._assert_atleast2d'], ne)
    for cls in ('Identity', 'RandomWalk', 'EchoState', 'Orthogonal'):
        for shape in ((M,), (M, M, M)):
            refusal(rec, '%s of an array with %d axes' % (cls, len(shape)), lambda: getattr(I, cls)(), shape, '%s.__call__' % cls)

    # linear algebra by contract
    calls = []

    class LinAlg(object):
        @staticmethod
        def svd(a, full_matrices=True, **k):
            m, n = [P(s) for s in a.shape]
            mn = S(m) if decide(le0(m - n, True)) else S(n)
            calls.append(a)
            if full_matrices:
                return input_array('svd_U', [m, m]), input_array('svd_s', [P(mn)]), input_array('svd_V', [n, n])
            return input_array('svd_u', [m, P(mn)]), input_array('svd_s', [P(mn)]), input_array('svd_v', [P(mn), n])

        @staticmethod
        def eig(a):
            calls.append(a)
            return EigVals(), None

        @staticmethod
        def eigvals(a):
            return LinAlg.eig(a)[0]

        def __getattr__(self, name):
            raise Unsupported('numpy.linalg.' + name)

    class NP(object):
        linalg = LinAlg()

        def __getattr__(self, name):
            return getattr(npx.proxy, name)
    rho = sym('rho')

    class EigVals(object):
        pass
    old = I.np, I.max if hasattr(I, 'max') else max, I.abs if hasattr(I, 'abs') else abs
    oabs, omax = rt.SHADOW.get('abs', abs), rt.SHADOW.get('max', max)

    class AbsEig(object):
        def max(self):
            return S(rho)
    I.np = NP()
    I.abs = lambda x: AbsEig() if isinstance(x, EigVals) else oabs(x)
    I.max = lambda *x, **k: S(rho) if len(x) == 1 and isinstance(x[0], AbsEig) else omax(*x, **k)
    try:
        def run():
            del calls[:]
            with ghostly():
                i = I.Orthogonal(S(sc))
                return i((S(M), S(K))), i

        def post(x):
            r, i = x
            for o in shaped('', r, (M, K)):
                yield o
            a, b = free_index(0, M), free_index(0, K)
            ok = len(calls) == 1 and len(calls[0].shape) == 2 and [P(s) for s in calls[0].shape] == [M, K]
            yield 'factors of one random matrix of that shape', ok
            if ok:
                yield 'which is drawn', any(z.startswith('d') for z in arrays_in(calls[0].get([a, b])))
            wide = prove_int(M - K, 'lt')
            w = rd('svd_v', a, b) if wide else rd('svd_u', a, b)
            yield 'scale times the factor with orthonormal %s' % ('rows' if wide else 'columns'), entry(r, [a, b]), sc * w, (a, b)
        contract(rec, 'Orthogonal', 'Orthogonal.__call__', POS + [(2 - M, 'le'), (2 - K, 'le')], run, post, dims=DIMS, items=[dict(kind='structure')])

        def run():
            del calls[:]
            with ghostly():
                i = I.EchoState(S(sc))
                return i((S(M), S(M))), i

        def post(x):
            r, i = x
            for o in shaped('', r, (M, M)):
                yield o
            a, b = free_index(0, M), free_index(0, M)
            ok = len(calls) == 1
            yield 'eigenvalues of one matrix', ok
            if ok:
                yield 'which is scaled by radius / its spectral radius', entry(r, [a, b]), entry(calls[0], [a, b]) * sc / rho, (a, b)
                got = entry(calls[0], [a, b])
                d = [z for z in arrays_in(got) if z in UNIFORM]
                yield 'and was drawn from [-0.5, 0.5]', got, (rd(d[0], a, b) if d else sym('no draw')) - P(Fraction(1, 2)), (a, b)
        contract(rec, 'EchoState', ['EchoState.__call__'], POS + [(2 - M, 'le'), (-rho, 'lt')], run, post, dims=DIMS, items=[dict(kind='structure')], lohi=dict(rho=(0.2, 2.)))
    finally:
        I.np = old[0]
        for k, v in (('max', omax), ('abs', oabs)):
            setattr(I, k, v)


class AnyInit(object):
    """any initialiser: the result depends on the seed it was given and on the shape"""


def any_initializer(I):
    class Any(I.Initializer):
        def __init__(self, tag):
            super(Any, self).__init__()
            self.tag = tag
            self.shapes = []

        def __call__(self, shape):
            self.shapes.append(shape)
            return self.rnd.rand(*shape)
    return Any


def nested(rec):
    import brainstorm.initializers as I
    conn = isym('conn')
    for cls, shape, f in (('SparseInputs', (M, K), [(conn - M, 'le')]), ('SparseOutputs', (M, K), [(conn - K, 'le')])):
        def run():
            del PERMS[:]
            with ghostly():
                sub = any_initializer(I)('sub')
                return getattr(I, cls)(sub, S(conn))(tuple(S(s) for s in shape)), sub

        def post(x):
            r, sub = x
            for o in shaped('', r, shape):
                yield o
            yield 'the sub-initialiser is asked for that shape', len(sub.shapes) == 1 and [P(s) for s in sub.shapes[0]] == list(shape)
            a, b = free_index(0, shape[0]), free_index(0, shape[1])
            got = entry(r, [a, b])
            d = [z for z in arrays_in(got) if z in UNIFORM]
            ps = [p for p in PERMS if p in arrays_in(got)]
            yield 'every row or column is shuffled by one permutation', len(set(ps)) == 1 and len(d) == 1
            if ps and d:
                v = rd(d[0], a, b)
                kept = lt0((rd(ps[0], b, a) if cls == 'SparseInputs' else rd(ps[0], a, b)) - conn, True)
                yield 'an entry is kept where the permutation of its %s gives a number below the number of connections' % ('column' if cls == 'SparseInputs' else 'row'), got, v * kept, (a, b)
        contract(rec, cls, ['%s.__call__' % cls, 'evaluate_initializer'], POS + f + [(1 - conn, 'le')] + [(2 - s, 'le') for s in shape], run, post, dims=DIMS, items=[dict(kind='structure')])
        refusal(rec, '%s with more connections than units' % cls, lambda: getattr(I, cls)(any_initializer(I)('s'), S(conn)), shape, '%s.__call__' % cls, [(f[0][0] * -1 + 1, 'le')])
        refusal(rec, '%s of a vector' % cls, lambda: getattr(I, cls)(any_initializer(I)('s'), S(conn)), (M,), '%s.__call__' % cls)

    for shape in ((4 * n4,), (4 * n4, K), (4 * n4, K, Q)):
        def run():
            with ghostly():
                subs = [any_initializer(I)('sub0'), S(sym('c1')), any_initializer(I)('sub2'), any_initializer(I)('sub3')]
                return I.LstmOptInit(*subs)(tuple(S(s) for s in shape)), subs

        def post(x):
            r, subs = x
            for o in shaped('', r, shape):
                yield o
            seen = []
            for q in range(4):
                a = free_index(0, n4)
                rest = [free_index(0, s) for s in shape[1:]]
                got = r.get([a + q * n4] + rest)
                if isinstance(subs[q], S):
                    yield 'block %d: the constant' % q, got, P(subs[q]), [a] + rest
                    continue
                yield 'block %d: its initialiser is asked for a quarter' % q, len(subs[q].shapes) == 1 and [P(s) for s in subs[q].shapes[0]] == [n4] + list(shape[1:])
                d = [z for z in arrays_in(got) if z in UNIFORM]
                seen += d
                yield 'block %d: the values of its initialiser' % q, got, rd(d[0], a, *rest) if len(d) == 1 else sym('not one draw'), [a] + rest
            yield 'different numbers in every block', len(set(seen)) == 3
        contract(rec, 'LstmOptInit[rank %d]' % len(shape), ['LstmOptInit.__call__', 'evaluate_initializer'], POS, run, post, dims=DIMS, items=[dict(kind='structure')])
    for rest in (1, 2, 3):
        refusal(rec, 'LstmOptInit of 4 n + %d rows' % rest, lambda: I.LstmOptInit(), (4 * n4 + rest, K), 'LstmOptInit.__call__')


def evaluate(rec):
    """evaluate_initializer and ArrayInitializer"""
    import brainstorm.initializers as I
    from brainstorm.utils import InitializationError
    c = sym('c')
    for shape in ((M,), (M, K), (M, K, Q)):
        def run():
            return I.evaluate_initializer(S(c), tuple(S(s) for s in shape))

        def post(r):
            for o in shaped('', r, shape):
                yield o
            idx = [free_index(0, s) for s in shape]
            yield 'constant', entry(r, idx), c, idx
        contract(rec, 'evaluate_initializer[number, rank %d]' % len(shape), 'evaluate_initializer', POS, run, post, dims=DIMS, items=[dict(kind='structure')])

        def run():
            a = input_array('given', list(shape))
            return I.ArrayInitializer(a)(tuple(S(s) for s in shape))

        def post(r):
            for o in shaped('', r, shape):
                yield o
            idx = [free_index(0, s) for s in shape]
            yield 'the array itself', entry(r, idx), rd('given', *idx), idx
        contract(rec, 'ArrayInitializer[rank %d]' % len(shape), ['ArrayInitializer.__init__', 'ArrayInitializer.__call__'], POS, run, post, dims=DIMS, items=[dict(kind='structure')])
    refusal(rec, 'ArrayInitializer of another shape', lambda: I.ArrayInitializer(input_array('given', [M, K])), (M, K + 1), 'ArrayInitializer.__call__')
    refusal(rec, 'ArrayInitializer of another number of axes', lambda: I.ArrayInitializer(input_array('given', [M, K])), (M,), 'ArrayInitializer.__call__')

    class Fails(I.Initializer):
        def __call__(self, shape):
            raise InitializationError('no')

    def run():
        with ghostly():
            s = S(isym('seed'))
            fb = any_initializer(I)('fb')
            a = I.evaluate_initializer(Fails(), (S(M), S(K)), fb, s)
            b = any_initializer(I)('other')
            r = I.evaluate_initializer(b, (S(M), S(K)), fb, s)
            try:
                I.evaluate_initializer(Fails(), (S(M), S(K)), None, s)
                raised = False
            except InitializationError:
                raised = True
            try:
                I.evaluate_initializer('text', (S(M), S(K)))
                typed = False
            except TypeError:
                typed = True
            return a, r, fb, b, raised, typed

    def post(x):
        a, r, fb, b, raised, typed = x
        i = [free_index(0, M), free_index(0, K)]
        yield 'the fallback is used exactly when the initialiser refuses', len(fb.shapes) == 1 and len(b.shapes) == 1
        yield 'with the same seed', entry(a, i), entry(r, i), i
        yield 'refusal without fallback', raised
        yield 'other types are refused', typed
    contract(rec, 'evaluate_initializer[fallback]', 'evaluate_initializer', POS + [(2 - M, 'le'), (2 - K, 'le')], run, post, dims=DIMS, items=[dict(kind='structure'), dict(kind='seeds')])


def seeds(rec):
    """same seed, same values, whatever ran before"""
    import brainstorm.initializers as I
    conn = isym('conn')
    sq = (M, M)
    makers = dict(Gaussian=lambda: I.Gaussian(), Uniform=lambda: I.Uniform(S(sym('hi'))), DenseSqrtFanIn=lambda: I.DenseSqrtFanIn(), DenseSqrtFanInOut=lambda: I.DenseSqrtFanInOut(), Identity=lambda: I.Identity(), RandomWalk=lambda: I.RandomWalk(),
                  SparseInputs=lambda: I.SparseInputs(I.Gaussian(), S(conn)), SparseOutputs=lambda: I.SparseOutputs(I.Uniform(S(sym('hi'))), S(conn)),
                  LstmOptInit=lambda: I.LstmOptInit(I.Gaussian(), I.Uniform(S(sym('hi'))), I.SparseInputs(I.Gaussian(), 1), S(sym('c'))),
                  deep=lambda: I.SparseInputs(I.SparseOutputs(I.LstmOptInit(I.Gaussian(), I.Gaussian(), I.Gaussian(), I.Uniform(S(sym('hi')))), 1), 1))
    for nm, make in sorted(makers.items()):
        shape = (4 * n4, 4 * n4) if nm in ('LstmOptInit', 'deep') else sq

        def run():
            s = S(isym('seed'))
            out = []
            with ghostly() as R:
                for k in range(2):
                    i = make()
                    if k:                           # a history: other draws from every source, another object
                        R.global_rnd.rand(3)
                        stack = [i]
                        while stack:
                            j = stack.pop()
                            j.rnd.set_state(('any history of', id(j)))
                            stack += [v for v in vars(j).values() if isinstance(v, I.Initializer)]
                    out.append(I.evaluate_initializer(i, tuple(S(x) for x in shape), seed=s))
                    g = R.global_rnd.state
                out.append(I.evaluate_initializer(i, tuple(S(x) for x in shape), seed=s))   # the same object again
            return out

        def post(out):
            i = [free_index(0, shape[0]), free_index(0, shape[1])]
            yield 'another object after any history gives the same values', entry(out[0], i), entry(out[1], i), i
            yield 'the same object again gives the same values', entry(out[0], i), entry(out[2], i), i
        contract(rec, 'same seed: ' + nm, ['evaluate_initializer'], POS + [(2 - M, 'le'), (1 - conn, 'le'), (conn - M, 'le'), (-sym('hi'), 'lt')], run, post, dims=DIMS, items=[dict(kind='seeds')], lohi=dict(hi=(0.1, 1.)))


def random_state(rec):
    s, s2 = S(isym('seed')), S(isym('seed2'))

    def run():
        with ghostly() as R:
            out = []
            r = R.RandomState(s)
            fresh = r.state
            out.append(('get_seed gives the seed', P(r.get_seed()) == P(s)))
            r.rand(3); r.generate_seed()
            r.reset()
            out.append(('reset goes back to the start', r.state == fresh))
            for f in ('set_seed', 'seed'):
                r.state = ('any history',)
                getattr(r, f)(s2)
                out.append(('%s: the state is that of a new one with the seed, whatever was drawn' % f, r.state == R.RandomState(s2).state and P(r.get_seed()) == P(s2)))
                r.rand(2); r.reset()
                out.append(('%s: and reset goes back to it' % f, r.state == R.RandomState(s2).state))
            r.state = ('any history',)
            q = r.create_random_state(s)
            out.append(('create_random_state with a seed is independent of the history', q.state == fresh and r.state == ('any history',) and P(q.get_seed()) == P(s)))
            q = r.create_random_state()
            t = R.RandomState(s); t.state = ('any history',)
            out.append(('without a seed it is a function of the state', q.state == t.create_random_state().state and q.state != r.state))
            r.state = ('any history',)
            cls, args, st = r.__reduce__()[:3]
            c = cls(*args); c.__setstate__(st)
            out.append(('pickling keeps class, seed and state', cls is R.RandomState and c.state == r.state and P(c.get_seed()) == P(r.get_seed())))
            g = R.global_rnd.state
            R.RandomState(s)
            out.append(('making one with a seed leaves the global one alone', R.global_rnd.state == g))
            n = R.RandomState()
            out.append(('without a seed it is seeded by the global one', R.global_rnd.state != g and n.get_seed() is not None and n.state == R.RandomState(n.get_seed()).state))
            x = R.Seedable(s)
            out.append(('Seedable has a state with that seed', x.rnd.state == fresh))
            return out
    contract(rec, 'RandomState', ['RandomState.__init__', 'RandomState.seed', 'RandomState.set_seed', 'RandomState.get_seed', 'RandomState.reset', 'RandomState.generate_seed', 'RandomState.create_random_state', 'RandomState.__reduce__', 'RandomState.__setstate__', 'Seedable.__init__'],
             [], run, lambda o: o, items=[dict(kind='random_state')])


def network(rec):
    """Network.initialize: which initialiser fills which view with which seed"""
    import brainstorm.initializers as I
    import brainstorm.structure.network as Nt
    from brainstorm.structure.buffer_views import BufferView
    from collections import OrderedDict

    def build(order, R, mk_init):
        views = dict(A=OrderedDict((k, input_array('A' + k, [M, K])) for k in order(['W', 'R', 'b'])), B=OrderedDict((k, input_array('B' + k, [K])) for k in order(['b', 'W'])), C=OrderedDict())
        layers = OrderedDict((l, BufferView(['parameters'], [BufferView(list(views[l]), list(views[l].values()))])) for l in order(['A', 'B', 'C']))
        net = Nt.Network.__new__(Nt.Network)
        net.__dict__.update(rnd=R.RandomState(S(isym('netseed'))), buffer=layers, log=[])
        net.rnd.state = ('any history', len(order('ab')), id(net))

        class H(object):
            def set_from_numpy(self, view, value):
                net.log.append((view, value))
        net.handler = H()
        return net, views

    def run():
        out = []
        with ghostly() as R:
            for order in (list, lambda x: list(reversed(x))):
                Any = any_initializer(I)
                a, b, c = Any('a'), Any('b'), Any('c')
                for x in (a, b, c):
                    x.rnd.state = ('history', id(x))
                net, views = build(order, R, None)
                saved = net.rnd.state
                g = Nt.get_description
                Nt.get_description = lambda x: None
                try:
                    net.initialize({'A': {'W': a, 'R': b, 'b': 0.25}, 'B': c}, seed=S(isym('seed')))
                finally:
                    Nt.get_description = g
                out.append((net, views, dict(a=a, b=b, c=c), saved))
        return out

    def post(out):
        per = []
        for net, views, inits, saved in out:
            ids = {id(v): (l, k) for l in views for k, v in views[l].items()}
            yield 'every parameter array is filled exactly once', sorted(ids.get(id(v), '?') for v, _ in net.log) == sorted(ids.values())
            yield 'random state of the network unchanged when a seed is given', net.rnd.state == saved
            yield 'asked once for the shape of the array', [P(s) for s in inits['a'].shapes[0]] == [M, K] and len(inits['a'].shapes) == 1 and len(inits['b'].shapes) == 1 and len(inits['c'].shapes) == 2
            per.append({ids[id(v)]: r for v, r in net.log if id(v) in ids})
        used = []
        for key in sorted(per[0]):
            x, y = per[0][key], per[1][key]
            sh = [P(s) for s in x.shape]
            i = [free_index(0, s) for s in sh]
            yield '%s.%s: same seed, same values, whatever the history and the order of the layers' % key, entry(x, i), entry(y, i), i
            used += [z for z in arrays_in(entry(x, i)) if z in UNIFORM]
        yield 'independent draws for every array', len(used) == len(set(used)) == 4
    contract(rec, 'Network.initialize', ['Network.initialize', 'evaluate_initializer'], POS + [(2 - M, 'le'), (2 - K, 'le')], run, post, dims=DIMS, items=[dict(kind='seeds')])


def tasks(tier):
    for f in (uniforms, matrices, nested, evaluate, seeds, random_state, network):
        yield f.__name__, f
