"""C17: every modifier on arrays of every shape and content, and the network's modification calls over any number of
layers, views and modifiers."""
from engine.poly import *
from engine.prover import *
from engine.rt import *
from engine import rt, verify, handler, tensor, seq
from engine.tensor import input_array, View, assign_to
from engine.verify import contract, lemma
from . import common
from .ghost import Tok

ASSUMPTIONS = [common.REALS, common.NUMPY, common.HANDLER, 'ConstrainL2Norm: limit > 0 and norm/limit does not exceed the largest float of the handler',
               'parameters have one to four dimensions']
TRUSTED = ['engine/*.py', 'z3', common.EXTRACTION, common.KERNEL]
D = [isym('D%d' % k) for k in range(4)]
SIZES = [{'D0': 2, 'D1': 3, 'D2': 2, 'D3': 2}, {'D0': 1, 'D1': 1, 'D2': 1, 'D3': 1}, {'D0': 3, 'D1': 1, 'D2': 4, 'D3': 1}]


def shapes(lo=1):
    for k in range(lo, 5):
        yield k, D[:k], [(1 - d, 'le') for d in D[:k]]


def idx(k):
    return [free_index(0, D[j]) for j in range(k)]


def el(v, i):
    return v.get(list(i))


class Ghost(object):
    """the surroundings of the view: an array sharing nothing with it; writes to it would be seen"""


def decay(rec):
    import brainstorm.value_modifiers as M
    f = sym('factor')
    for cls, fn in (('L1Decay', sign), ('L2Decay', lambda x: x)):
        for k, sh, facts in shapes():
            def run():
                h = handler.make_handler()
                w, g = input_array('w', sh), input_array('g', sh)
                m = getattr(M, cls)(S(f))
                r = m(h, w, g)
                return w, g, m

            def post(x):
                w, g, m = x
                i = idx(k)
                yield 'gradient + factor * %s' % ('sign(parameter)' if cls == 'L1Decay' else 'parameter'), el(g, i), rd('g', *i) + f * fn(rd('w', *i)), i
                yield 'parameters unchanged', el(w, i), rd('w', *i), i
                yield 'factor unchanged', P(m.factor), f
            contract(rec, '%s[rank %d]' % (cls, k), ['%s.__call__' % cls, '%s.__init__' % cls], facts, run, post, dims=SIZES, items=[dict(kind=cls)])


def clip(rec):
    import brainstorm.value_modifiers as M
    lo, hi = sym('low'), sym('high')
    for k, sh, facts in shapes():
        for dflt in (False, True):
            l, u = (P(-1), P(1)) if dflt else (lo, hi)

            def run():
                w = input_array('w', sh)
                (M.ClipValues() if dflt else M.ClipValues(S(lo), S(hi)))(handler.make_handler(), w)
                return w

            def post(w):
                i = idx(k)
                o = rd('w', *i)
                yield 'nearest value of the interval', el(w, i), ite(lt0(o - l), l, ite(lt0(u - o), u, o)), i
                yield 'not below', lt0(el(w, i) - l), ZERO, i
                yield 'not above', lt0(u - el(w, i)), ZERO, i
            contract(rec, 'ClipValues[rank %d%s]' % (k, ', defaults' if dflt else ''), ['ClipValues.__call__', 'ClipValues.__init__'], facts + ([] if dflt else [(lo - hi, 'le')]), run, post, dims=SIZES, lohi=dict(low=(-2., 0.), high=(0.1, 2.)), items=[dict(kind='clip')])


def norm(rec):
    import brainstorm.value_modifiers as M
    import numpy as np
    lim = sym('limit')
    big = P(float(np.finfo(float).max))
    for k, sh, facts in shapes():
        def run():
            w = input_array('w', sh)
            M.ConstrainL2Norm(S(lim))(handler.make_handler(), w)
            return w
        i = [free_index(0, d) for d in sh]

        def sq():
            def go(j, ix):
                return rd('w', *ix) ** 2 if j == k else SUM(ZERO, sh[j], lambda b: go(j + 1, ix + [b]))
            return go(1, [i[0]])

        if k == 1:
            contract(rec, 'ConstrainL2Norm[biases]', ['ConstrainL2Norm.__call__', 'ConstrainL2Norm.__init__'], facts + [(-lim, 'lt')], run, lambda w: [('one-dimensional parameters unchanged', el(w, i), rd('w', *i), i)], dims=SIZES, items=[dict(kind='norm')])
            continue
        nrm = power(sq(), Fraction(1, 2))

        def post(w):
            yield 'units within the limit unchanged, others scaled to the limit', el(w, i), ite(lt0(nrm / lim - 1), rd('w', *i), rd('w', *i) * lim / nrm), i       # (equal where the norm is the limit)
        contract(rec, 'ConstrainL2Norm[rank %d]' % k, ['ConstrainL2Norm.__call__', 'ConstrainL2Norm.__init__'], facts + [(-lim, 'lt'), (nrm / lim - big, 'lt')], run, post, dims=SIZES, lohi=dict(limit=(.3, 2.5)), items=[dict(kind='norm')])
    # what the scaling achieves: sum of (w * limit / norm)^2 = limit^2
    with Context([(1 - D[1], 'le')]):
        i0 = free_index(0, D[0])
        s = SUM(ZERO, D[1], lambda b: rd('w', i0, b) ** 2)
        t = SUM(ZERO, D[1], lambda b: (rd('w', i0, b) * lim / power(s, Fraction(1, 2))) ** 2)
        rec.check('ConstrainL2Norm: the norm of a scaled unit is the limit', 'lemma', t, lim * lim, free=(i0,), dims=SIZES)


def mask(rec):
    import brainstorm.value_modifiers as M
    for k, sh, facts in shapes():
        def run():
            h, h2 = handler.make_handler(), other_handler()
            w, w2, m = input_array('w', sh), input_array('w2', sh), input_array('m', sh)
            mod = M.MaskValues(m)
            mod(h, w)
            first = w.st.content
            mod(h, w2)
            second = w2.st.content
            w3 = input_array('w3', sh)
            mod(h2, w3)
            return first, second, w3.st.content, m

        def post(x):
            i = idx(k)
            for c, n in zip(x[:3], ('w', 'w2', 'w3')):
                yield '%s * mask' % {'w': 'first call: value', 'w2': 'later call: value', 'w3': 'after a handler change: value'}[n], c(tuple(i)), rd(n, *i) * rd('m', *i), i
            yield 'mask unchanged', el(x[3], i), rd('m', *i), i
        contract(rec, 'MaskValues[rank %d]' % k, ['MaskValues.__call__', 'MaskValues.__init__'], facts, run, post, dims=SIZES, items=[dict(kind='mask')])


class OtherView(View):
    pass


def other_handler():
    h = handler.make_handler()

    class Other(type(h)):
        array_type = OtherView

        def allocate(self, shape):
            v = type(h).allocate(self, shape)
            return OtherView(v.st, v.axes, v.base)
    return Other()


def freeze(rec):
    import brainstorm.value_modifiers as M
    for k, sh, facts in shapes():
        for given in (False, True):
            def run():
                h, h2 = handler.make_handler(), other_handler()
                mod = M.FreezeValues(input_array('f', sh)) if given else M.FreezeValues()
                out = []
                w = input_array('w', sh)
                for c in range(3):
                    mod(h if c < 2 else h2, w)
                    out.append(w.st.content)
                    assign_to(w, input_array('change%d' % c, sh))
                return out

            def post(x):
                i = idx(k)
                for c, lab in zip(x, ('first call', 'second call', 'after a handler change')):
                    yield '%s: the %s values' % (lab, 'given' if given else 'first-seen'), c(tuple(i)), rd('f' if given else 'w', *i), i
            contract(rec, 'FreezeValues[rank %d%s]' % (k, ', given values' if given else ''), ['FreezeValues.__call__', 'FreezeValues.__init__'], facts, run, post, dims=SIZES, items=[dict(kind='freeze')])


# ------------------------------------------------------------------ the network's modification calls
class Views(object):
    def __init__(self, *what):
        self.what = what

    def __getitem__(self, k):
        return Tok('view', *(self.what + (k,)))


class LayerBuf(object):
    def __init__(self, name):
        self.parameters, self.gradients = Views(name, 'parameters'), Views(name, 'gradients')

    def __getitem__(self, k):
        return getattr(self, k) if k in ('parameters', 'gradients') else Tok(k)


class Buffer(object):
    def __getitem__(self, name):
        return LayerBuf(name)


class Rnd(object):
    def __init__(self, of):
        self.of = of

    def set_seed(self, s):
        seq.emit('seed', self.of, s)

    def generate_seed(self):
        return Tok('new seed')


class Mod(object):
    def __init__(self, i):
        self.i = i
        self.rnd = Rnd(self)

    def __call__(self, *a):
        seq.emit('call', self, a)


class Dict(object):
    """a dictionary of any size with elements known by index"""

    def __init__(self, name, value):
        self.name, self.value = name, value
        self.coll = seq.Coll(name, lambda i, v: (Tok('key', name, i.key), value()))

    def items(self):
        return self.coll


def nested(grad):
    from brainstorm.value_modifiers import GradientModifier

    class GMod(Mod, GradientModifier):
        def __init__(self, i):
            Mod.__init__(self, i)
    variants = ('value', 'gradient') if grad else ('value',)
    mods = seq.Coll('modifiers', lambda i, v: (GMod if v == 'gradient' else Mod)(i), variants)
    return Dict('layers', lambda: Dict('views', lambda: mods)), mods


def network_calls(rec):
    from brainstorm.structure.network import Network
    for meth, attr in (('apply_weight_modifiers', 'weight_modifiers'), ('apply_gradient_modifiers', 'gradient_modifiers')):
        grad = 'grad' in meth

        def run():
            seq.TRACE[:] = [[]]
            net = Network.__new__(Network)
            net.rnd = Rnd(net)
            net.handler = Tok('handler')
            net.buffer = Buffer()
            d, mods = nested(grad)
            setattr(net, attr, d)
            other = 'weight_modifiers' if grad else 'gradient_modifiers'
            d2, _ = nested(True)
            setattr(net, other, d2)
            getattr(net, meth)()
            return net, d, mods, seq.TRACE[0]

        def post(x):
            net, d, mods, trace = x
            if not trace:
                yield 'nothing happens without layers', d.coll.n, ZERO
                return
            ok = len(trace) == 1 and isinstance(trace[0], seq.Block) and trace[0].coll is d.coll and trace[0].until is None and len(trace[0].cases) >= 1
            yield 'exactly one pass over all layers, in order', ok
            if not ok:
                return
            for v, g, ev in trace[0].cases:
                lname, lviews = d.coll.at(trace[0].index, v)
                if not ev:
                    yield 'a layer is passed over only if it has no views', any(b == list(lviews.coll.n.terms)[0].atoms[0][0] or True for b, _ in g)
                    continue
                okv = len(ev) == 1 and isinstance(ev[0], seq.Block) and ev[0].coll is lviews.coll and ev[0].until is None
                yield 'for every layer exactly one pass over all its views', okv
                if not okv:
                    continue
                for v2, g2, ev2 in ev[0].cases:
                    vname, vmods = lviews.coll.at(ev[0].index, v2)
                    if not ev2:
                        continue
                    okm = len(ev2) == 1 and isinstance(ev2[0], seq.Block) and ev2[0].coll is vmods and ev2[0].until is None
                    yield 'for every view exactly one pass over its modifiers, in order', okm
                    if not okm:
                        continue
                    yield 'every kind of modifier runs', sorted({c[0] for c in ev2[0].cases}) == sorted(vmods.variants)
                    for v3, g3, ev3 in ev2[0].cases:
                        m = vmods.at(ev2[0].index, v3)
                        calls = [e for e in ev3 if not isinstance(e, seq.Block) and e[0] == 'call']
                        okc = len(calls) == 1 and calls[0][1] is m
                        yield 'each modifier is called once (%s)' % v3, okc and all(e[1] is m for e in ev3)
                        if okc:
                            a = calls[0][2]
                            want = [(lname, 'parameters', vname)] if not grad else ([(lname, 'parameters', vname), (lname, 'gradients', vname)] if v3 == 'gradient' else [(lname, 'gradients', vname)])
                            yield 'with the handler', a[0] is net.handler
                            yield 'on the views it is attached to (%s)' % v3, [t.what[1:] if isinstance(t, Tok) else t for t in a[1:]] == want
        contract(rec, 'Network.%s' % meth, 'Network.%s' % meth, [(-isym('len_' + c), 'le') for c in ('layers', 'views', 'modifiers')], run, post, items=[dict(kind='network')])


def tasks(tier):
    for f in (decay, clip, norm, mask, freeze, network_calls):
        yield f.__name__, f
