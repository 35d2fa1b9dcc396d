"""C04: layout of buffers for networks with any layer sizes, any sequence length and batch size.
The graph structure is enumerated (bounded), everything else is symbolic."""
import random
from collections import OrderedDict, namedtuple
from engine.poly import *
from engine.prover import *
from engine.rt import *
from engine import rt, verify, prover, tensor, seq
from engine.strided import Arr, allocate, disjoint, nonneg, eq, equal, touches, instances, value
from engine.tensor import input_array, bigmax
from engine.verify import contract, lemma
from . import common

ASSUMPTIONS = ['numpy view semantics: slicing and reshaping of contiguous axes give views with the offset, shape and strides of engine/strided.py', 'sizes are mathematical integers',
               'connection graphs: the generated ones (bounded); layer sizes, sequence length and batch size are unbounded']
TRUSTED = ['engine/*.py', 'z3', common.EXTRACTION, common.KERNEL]
T, B = isym('T'), isym('B')
Con = namedtuple('Con', 'start_layer output_name end_layer input_name')


class GLayer(object):
    """a layer as far as the layout depends on it"""

    def __init__(self):
        self.in_shapes, self.out_shapes, self.parameter_shapes, self.internal_shapes, self.outgoing = OrderedDict(), OrderedDict(), OrderedDict(), OrderedDict(), []


class Sizes(object):
    def __init__(self):
        self.names = []

    def __call__(self):
        n = 'n%d' % len(self.names)
        self.names.append(n)
        return S(isym(n))


def make_layers(seed, BS, cls=GLayer, contexts=(0, 0, 1, 2), first=None):
    """a random network of layers; all sizes are symbols"""
    from brainstorm.structure.buffer_structure import combine_buffer_structures
    r = random.Random(seed)
    size = Sizes()
    common_dim = size()
    layers = OrderedDict()
    outs = []
    names = ['in', 'hid', 'a', 'rec', 'out', 'z9'][:r.randint(1, 6)]
    if r.random() < 0.5:
        r.shuffle(names)
    if first:
        names = [first] + [n for n in names if n != 'in']
    for k, n in enumerate(names):
        l = cls()
        layers[n] = l
        if k:
            for inp in ['default', 'aux', 'b'][:r.choice([1, 1, 1, 2, 3])]:
                kind = r.choice(outs)[2]
                pool = [o for o in outs if o[2] == kind]
                srcs = r.sample(pool, min(len(pool), r.choice([1, 1, 2, 2, 3])))
                l.in_shapes[inp] = combine_buffer_structures([layers[m].out_shapes[o] for m, o, _ in sorted(srcs)])
                for m, o, _ in srcs:
                    layers[m].outgoing.append(Con(m, o, n, inp))
        for o in ['default', 'second', 'x'][:r.choice([1, 1, 2, 3])]:
            kind = r.choice(['TB', 'TB', 'TB', 'TBc', 'B', 'P'] if r.random() < 0.5 else ['TB'])
            if n == first:
                kind = 'TB'
            ctx = r.choice(contexts) if kind in ('TB', 'TBc') and n != first else 0
            dims = dict(TB=('T', 'B', size()), TBc=('T', 'B', common_dim, size()), B=('B', size()), P=(size(),))[kind]
            l.out_shapes[o] = BS(*dims, context_size=ctx)
            outs.append((n, o, kind))
        for p in ['W', 'b', 'R'][:r.randint(0, 3)]:
            l.parameter_shapes[p] = BS(*[size() for _ in range(r.choice([1, 2, 2, 4]))])
        for q in range(r.randint(0, 2)):
            dims = r.choice([('T', 'B', size()), ('B', size()), (size(), size()), ('T', 'B', size(), size())])
            ctx = r.choice([0, 1]) if dims[0] == 'T' else 0
            l.internal_shapes['H%d' % q] = BS(*dims, context_size=ctx)
            l.internal_shapes['dH%d' % q] = BS(*dims, context_size=ctx, is_backward_only=True)
    return layers, size.names


def largest_group(layers):
    """number of outputs that have to be laid out together (all permutations of them may be tried)"""
    cons = [c for l in layers.values() for c in l.outgoing]
    group = {(c.start_layer, c.output_name): {(c.start_layer, c.output_name)} for c in cons}
    for c in cons:
        for d in cons:
            a, b = group[c.start_layer, c.output_name], group[d.start_layer, d.output_name]
            if (c.end_layer, c.input_name) == (d.end_layer, d.input_name) and a is not b:
                a |= b
                for k in b:
                    group[k] = a
    return max([len(g) for g in group.values()] or [0])


class GHandler(object):
    def __init__(self):
        self.log = []

    def allocate(self, shape):
        a = allocate(shape)
        self.log.append(('allocate', a))
        return a

    def zeros(self, shape):
        return self.allocate(shape)

    def get_numpy_copy(self, view):
        self.log.append(('copy', view))
        return ('copy of', view)

    def set_from_numpy(self, view, value):
        self.log.append(('set', view, value))

    def copy_to(self, src, dest):
        self.log.append(('copy_to', src, dest))

    def fill(self, view, value):
        self.log.append(('fill', view, value))


def same(a, b):
    """the same memory, shape and strides"""
    if not (isinstance(a, Arr) and isinstance(b, Arr)) or a.buf is not b.buf or len(a.sizes) != len(b.sizes):
        return False
    return all(equal(p, q) for p, q in zip([a.off] + a.sizes, [b.off] + b.sizes)) and all(equal(p, q) for p, q, n in zip(a.strides, b.strides, a.sizes) if n != ONE)



def shape_is(a, dims):
    return len(a.sizes) == len(dims) and all(equal(p, P(q)) for p, q in zip(a.sizes, dims))


def at_least(p):
    if nonneg(p, True):
        return True
    if any(value(p, env) < 0 for env in instances([p])):
        return False
    raise Unsupported('whether %s >= 0' % show(p, 100))


def dims_of(s, t, b):
    lead = [P(t) + s.context_size, P(b)][2 - s.buffer_type:]
    return lead + [P(x) for x in s.feature_shape]


def flat(a, lead):
    """the trailing axes of the view as one axis of stride one"""
    w = ONE
    for n in a.sizes[lead:]:
        w = w * n
    ok = True
    acc = ONE
    for n, s in reversed(list(zip(a.sizes[lead:], a.strides[lead:]))):
        ok = ok and (n == ONE or s == acc)
        acc = acc * n
    return w, ok


def judge(views, layers, t, b, total):
    """the statement of C04 for the views made for sequence length t and batch size b"""
    src = []
    for n, l in layers.items():
        for group, shapes in (('outputs', l.out_shapes), ('output_deltas', l.out_shapes), ('internals', l.internal_shapes), ('parameters', l.parameter_shapes), ('gradients', l.parameter_shapes)):
            for k, s in shapes.items():
                v = views[n][group][k]
                src.append(('%s.%s.%s' % (n, group, k), v))
                yield '%s.%s.%s has its shape' % (n, group, k), shape_is(v, dims_of(s, t, b))
    yield 'inside the allocated memory', all(at_least(total - v.end()) and at_least(v.off) for _, v in src)
    bad = [(x[0], y[0]) for i, x in enumerate(src) for y in src[:i] if touches(x[1], y[1])]
    yield 'no two arrays overlap' + (': %s' % (bad[:2],) if bad else ''), not bad
    for n, l in layers.items():
        for inp, s in l.in_shapes.items():
            cons = [(m, c.output_name) for m, k in layers.items() for c in k.outgoing if c.end_layer == n and c.input_name == inp]
            for ig, og in (('inputs', 'outputs'), ('input_deltas', 'output_deltas')):
                v = views[n][ig][inp]
                lead = s.buffer_type
                name = '%s.%s.%s' % (n, ig, inp)
                yield name + ' has its shape', shape_is(v, dims_of(s, t, b))
                w, ok = flat(v, lead)
                at, left, good = ZERO, set(cons), ok
                while left and good:
                    nxt = None
                    for m, o in sorted(left):
                        q = views[m][og][o]
                        wq, okq = flat(q, lead)
                        if q.buf is v.buf and q.off == v.off + at and okq and all(p == z for p, z in zip(q.strides[:lead], v.strides[:lead])):
                            nxt = (m, o), wq
                            break
                    if nxt is None:
                        good = False
                        break
                    left.discard(nxt[0])
                    at = at + nxt[1]
                yield '%s is the concatenation of the arrays connected to it, sharing their memory' % name, good and at == w
    order = {}
    for g in ('parameters', 'gradients'):
        v = views[g]
        left = [(n, k) for n, l in layers.items() for k in l.parameter_shapes]
        at, seq_ = ZERO, []
        while left:
            nxt = None
            for n, k in left:
                q = views[n][g][k]
                if q.buf is v.buf and q.off == v.off + at and flat(q, 0)[1]:
                    nxt = (n, k), flat(q, 0)[0]
                    break
            if nxt is None:
                break
            left.remove(nxt[0])
            seq_.append(nxt[0])
            at = at + nxt[1]
        order[g] = seq_
        yield 'the flat vector of %s consists of exactly the %s of all layers' % (g, g), not left and len(v.sizes) == 1 and v.sizes[0] == at
    yield 'parameters and gradients in the same order', order['parameters'] == order['gradients']
    yield 'flat vectors do not overlap other arrays', not any(touches(views[g], v) for g in ('parameters', 'gradients') for n, v in src if '.%s.' % g not in n)


FUNCS = ['create_layout', 'Hub.create', 'Hub.get_shape', 'Hub.set_up_connection_table', 'Hub.permute_rows', 'Hub.can_be_connected_with_single_buffer', 'Hub.get_indices', 'layout_hubs', 'get_all_sources', 'get_forced_orders', 'create_layout_stub',
         'get_layout_stub_for_layer', 'gather_array_nodes', 'get_backward_connection', 'get_connections', 'get_parameter_order', 'get_gradient_order', 'merge_connections', 'group_into_hubs', 'get_forward_closure',
         'create_buffer_views_from_layout', 'get_total_size_slices_and_shapes', 'BufferManager.__init__', 'BufferManager.resize', 'BufferStructure.create_from_buffer_hub', 'BufferStructure.get_shape', 'combine_buffer_structures', 'BufferView.__init__', 'BufferView.adjust']


def build(seed):
    from brainstorm.structure.layout import create_layout
    from brainstorm.structure.buffer_structure import BufferStructure
    layers, names = make_layers(seed, BufferStructure)
    hubs, layout = create_layout(layers)
    return layers, hubs, layout, names


def size_facts(n=60):
    return [(1 - isym('n%d' % k), 'le') for k in range(n)] + [(1 - T, 'le'), (1 - B, 'le')]


def networks(lo, hi):
    def go(rec):
        from brainstorm.structure.buffers import BufferManager, get_total_size_slices_and_shapes
        from brainstorm.utils import NetworkValidationError
        from brainstorm.structure.buffer_structure import BufferStructure
        for seed in range(lo, hi):
            with Context(size_facts()):
                layers, names = make_layers(seed, BufferStructure)
            count = len(names)
            if largest_group(layers) > 6:
                continue

            def run():
                try:
                    layers, hubs, layout, names = build(seed)
                except NetworkValidationError:
                    return None
                m = BufferManager(layout, hubs, GHandler())
                # any history before: the memory held so far has any size
                cap = isym('cap')
                m.full_buffer, m.size = allocate((S(cap),), 'old'), S(cap)
                views = m.views
                out = m.resize(S(T), S(B))
                return layers, m, out, views

            def post(x):
                if x is None:
                    return
                layers, m, out, views = x
                yield 'the views handed out are the manager\'s, adjusted in place', out is m.views and out is views
                total, slices, shapes = get_total_size_slices_and_shapes(m.hubs, S(T), S(B))
                yield 'memory held is enough for all hubs', b01(m.size >= total), ONE
                yield 'and is the memory of the views', m.full_buffer.buf.size, P(m.size)
                for o in judge(out, layers, T, B, P(total)):
                    yield o
            contract(rec, 'network %d' % seed, FUNCS, size_facts(count) + [(-isym('cap'), 'le')], run, post, items=[dict(kind='structure', seed=seed)])
    return go


def parts(rec):
    """functions of the layout on their own, for any sizes"""
    from brainstorm.structure.layout import Hub
    # a table can be laid out in one buffer exactly if no column has a gap between its ones
    N, M = isym('N'), isym('M')

    def run():
        ct = input_array('ct', [N, M])
        return Hub.can_be_connected_with_single_buffer(ct)

    def changes(c):
        row = lambda i: le0(1 - i, True) * lt0(i - N - 1, True) * rd('ct', i - 1, c)
        return SUM(ZERO, N + 1, lambda i: absval(row(i + 1) - row(i)))

    def post(r):
        c = free_index(0, M)
        return []
    # 0/1 sequences p with p(0) = p(n + 1) = 0 and c(i) the number of changes up to i
    p, c = z3.Function('p', z3.IntSort(), z3.IntSort()), z3.Function('c', z3.IntSort(), z3.IntSort())
    x, y, n, a, b, d, i = z3.Ints('x y n a b d i')
    step = z3.ForAll([i], z3.Implies(i >= 0, c(i + 1) == c(i) + z3.If(p(i) != p(i + 1), 1, 0)), patterns=[c(i + 1)])
    lemma(rec, 'changes grow where the value changed: step of the induction over y', 'lemma', [c(y + 1) == c(y) + z3.If(p(y) != p(y + 1), 1, 0), x >= 0, x <= y, c(y) >= c(x), z3.Implies(p(y) != p(x), c(y) >= c(x) + 1)],
          z3.And(c(y + 1) >= c(x), z3.Implies(p(y + 1) != p(x), c(y + 1) >= c(x) + 1)))
    grow = lambda s, t: z3.Implies(s <= t, z3.And(c(t) >= c(s), z3.Implies(p(t) != p(s), c(t) >= c(s) + 1)))
    lemma(rec, 'a gap between two ones makes more than two changes', 'lemma', [c(0) == 0, p(0) == 0, p(n + 1) == 0, 0 < a, a < b, b < d, d < n + 1, p(a) == 1, p(b) == 0, p(d) == 1] + [grow(s, t) for s, t in ((0, a), (a, b), (b, d), (d, n + 1))], c(n + 1) > 2)
    D, q1, q2, f1, f2 = z3.Ints('D q1 q2 f1 f2')
    k = z3.Int('k')
    lemma(rec, 'different columns of one table never share an address', 'lemma', [D >= 1, f1 >= 0, f1 < f2, f2 < D, z3.Or(q1 == q2, q1 >= q2 + 1, q2 >= q1 + 1), z3.Implies(q1 >= q2 + 1, (q1 - q2) * D >= D), z3.Implies(q2 >= q1 + 1, (q2 - q1) * D >= D)], q1 * D + f1 != q2 * D + f2)


def structures(rec):
    """one array in the memory of its hub"""
    from brainstorm.structure.buffer_structure import BufferStructure
    from brainstorm.structure.layout import Hub
    s, D, x, y = isym('s'), isym('D'), isym('x'), isym('y')
    for btype in (0, 1, 2):
        for hctx in ((0,) if btype < 2 else (0, 1, 2, 'any')):
            for cut in ((0,) if btype < 2 else ('none', 'some')):
                for feat in ((x,), (x, y)):
                    hc = isym('hctx') if hctx == 'any' else P(hctx)
                    own = hc if cut == 'none' else (isym('own') if cut == 'some' else ZERO)
                    if cut == 'some' and hctx == 0:
                        continue

                    def run():
                        h = Hub([], [], [], btype, S(hc) if not hc.is_const() else int(hc.const()))
                        h.size = S(D)
                        st = BufferStructure(*((('T', 'B')[2 - btype:] if btype else ()) + tuple(S(f) for f in feat)), context_size=(S(own) if not own.is_const() else int(own.const())) if btype == 2 else 0)
                        buf = allocate(h.get_shape(S(T), S(B)))
                        w = feat[0] if len(feat) == 1 else feat[0] * feat[1]
                        return st.create_from_buffer_hub(buf, h, slice(S(s), S(s + w))), buf

                    def post(r):
                        v, buf = r
                        lead = [T + own, B][2 - btype:]
                        yield 'shape', shape_is(v, lead + list(feat))
                        yield 'shares the memory of the hub', v.buf is buf.buf
                        if v.buf is buf.buf and len(v.sizes) == len(lead) + len(feat):
                            idx = [free_index(0, n) for n in lead + list(feat)]
                            f = idx[btype] if len(feat) == 1 else idx[btype] * y + idx[btype + 1]
                            yield 'element of row t, sequence b and feature f', v.addr(idx), buf.addr(idx[:btype] + [s + f]), idx
                    w = x if len(feat) == 1 else x * y
                    contract(rec, 'array of type %d in a hub with context %s, own context %s, %d feature axes' % (btype, hctx, cut, len(feat)), ['BufferStructure.create_from_buffer_hub', 'BufferStructure.get_shape', 'BufferStructure.__init__', 'BufferStructure.validate', 'Hub.get_shape'],
                             [(1 - T, 'le'), (1 - B, 'le'), (1 - x, 'le'), (1 - y, 'le'), (-s, 'le'), (s + w - D, 'le'), (-hc, 'le'), (-own, 'le'), ((own - hc) if cut == 'none' or hctx == 0 else own - hc, 'le')], run, post, items=[dict(kind='structure', seed=0)])


def tasks(tier):
    yield 'parts', parts
    yield 'structures', structures
    n = 160 if tier == 'quick' else 2400
    step = 5 if tier == 'quick' else 100
    for k in range(0, n, step):
        yield 'networks%d' % k, networks(k, k + step)
