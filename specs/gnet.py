"""A real Network and BufferManager over ghost layers and ghost memory: sizes, sequence length and batch size are symbols,
every access of the handler is recorded, so the content of any array after any sequence of calls can be asked for."""
import random
from engine.poly import *
from engine.prover import *
from engine.rt import *
from engine import rt
from engine.strided import Arr, allocate, disjoint, eq, nonneg, width
from . import c04
from .c04 import same


class Memory(object):
    """history of all writes"""

    def __init__(self):
        self.ops = []      # (destination, value, what)

    def write(self, dst, value, what=''):
        self.ops.append((dst, value, what))

    def now(self):
        return len(self.ops)

    def content(self, view, time=None, depth=0):
        """where the content of the view (all of it) comes from: ('initial', view, 0), ('fill', x), ('data', token), ('fresh',) ; Unsupported if mixed or unknown"""
        time = len(self.ops) if time is None else time
        for k in range(time - 1, -1, -1):
            dst, value, what = self.ops[k]
            if disjoint(dst, view):
                continue
            if identical(dst, view):
                src = value[1] if value[0] == 'of' else None
            else:
                place = part_of(dst, view)
                if place is None or value[0] in ('data', 'layer'):
                    raise Unsupported('content of %s' % view)
                src = part(value[1], place, view) if value[0] == 'of' else None
                if value[0] == 'of' and src is None:
                    raise Unsupported('content of %s' % view)
            if value[0] == 'of':
                return self.content(src, value[2], depth + 1)
            return value
        if getattr(view.buf, 'fresh', False):
            return ('fresh',)
        return ('initial', view)


def identical(a, b):
    return a.buf is b.buf and len(a.sizes) == len(b.sizes) and all(eq(p, q) for p, q in zip([a.off] + a.sizes, [b.off] + b.sizes)) and all(eq(p, q) for p, q, n in zip(a.strides, b.strides, a.sizes) if n != ONE)


def part_of(dst, view):
    """(row, offset within the row) of a view that lies within one row of dst and whose first axis runs along the second axis of dst"""
    if dst.buf is not view.buf or len(dst.sizes) < 2 or not view.sizes:
        return None
    n = dst.sizes[0]
    for r in [P(k) for k in range(3)] + [n - 1 - k for k in range(2)]:
        row = dst[mk(r)]
        d = view.off - row.off
        if eq(row.sizes[0], view.sizes[0]) and eq(row.strides[0], view.strides[0]) and nonneg(d) and nonneg(row.strides[0] - d - width(view, 1)):
            return r, d
    return None


def part(src, place, view):
    """the corresponding part of another array"""
    r, d = place
    row = src[mk(r)]
    if not (row.sizes and eq(row.sizes[0], view.sizes[0]) and eq(row.strides[0], view.strides[0]) and eq(row.strides[-1], ONE)):
        return None
    return Arr(row.buf, row.off + d, view.sizes, view.strides)


def fresh(shape, name='mem'):
    a = allocate(shape, name)
    a.buf.fresh = True
    return a


class NpCopy(object):
    """a numpy copy of a view"""
    __array_ufunc__ = None

    def __init__(self, view, time):
        self.view, self.time = view, time
        self.shape = view.shape

    def __getattr__(self, n):
        raise Unsupported('%s of a numpy copy' % n)


class Data(object):
    __array_ufunc__ = None

    def __init__(self, name, shape):
        self.name, self.shape = name, tuple(shape)

    def __getattr__(self, n):
        raise Unsupported('%s of the data' % n)


class GHandler(object):
    array_type = Arr

    def __init__(self, mem):
        self.mem = mem

    def allocate(self, shape):
        return fresh(shape)

    def zeros(self, shape):
        a = fresh(shape)
        self.mem.write(a, ('fill', 0), 'zeros')
        return a

    def ones(self, shape):
        a = fresh(shape)
        self.mem.write(a, ('fill', 1), 'ones')
        return a

    def get_numpy_copy(self, view):
        return NpCopy(view, self.mem.now())

    def create_from_numpy(self, arr):
        a = fresh(arr.shape)
        self.set_from_numpy(a, arr)
        return a

    def set_from_numpy(self, view, value):
        if isinstance(value, NpCopy):
            v = ('of', value.view, value.time)
        elif isinstance(value, Data):
            v = ('data', value)
        else:
            raise Unsupported('set_from_numpy of %s' % type(value).__name__)
        self.mem.write(view, v, 'set_from_numpy')

    def copy_to(self, src, dest):
        # the real handler refuses different shapes
        if len(src.sizes) != len(dest.sizes) or not all(eq(a, b) for a, b in zip(src.sizes, dest.sizes)):
            ds = [P(a) - P(b) for a, b in zip(src.sizes, dest.sizes)]
            if len(src.sizes) != len(dest.sizes) or any((d.is_const() and d.terms) or prove_int(d, 'eq') is False for d in ds):
                raise AssertionError('copy_to of different shapes %s %s' % (src.shape, dest.shape))
            raise Unsupported('copy_to of %s into %s' % (src.shape, dest.shape))
        self.mem.write(dest, ('of', src, self.mem.now()), 'copy_to')

    def fill(self, view, value):
        self.mem.write(view, ('fill', value), 'fill')

    def __getattr__(self, n):
        raise Unsupported('handler.%s' % n)


class GLayer(c04.GLayer):
    """frame contracts of the passes, as established by C01 and C02: forward writes outputs and internals but no context row,
    backward writes deltas, gradients and internals; parameters are only read"""

    def __init__(self):
        c04.GLayer.__init__(self)
        self.handler, self.calls = None, []

    def set_handler(self, h):
        self.handler = h

    def forward_pass(self, buffers, training_pass=False):
        self.calls.append(('forward', buffers, training_pass, self.handler.mem.now()))
        for g, shapes in (('outputs', self.out_shapes), ('internals', self.internal_shapes)):
            for k, v in buffers[g].items():
                c = shapes[k].context_size
                self.handler.mem.write(v[:mk(v.sizes[0] - c)] if c else v, ('layer',), 'forward')

    def backward_pass(self, buffers):
        self.calls.append(('backward', buffers, None, self.handler.mem.now()))
        for g in ('internals', 'input_deltas', 'output_deltas', 'gradients'):
            for v in buffers[g].values():
                self.handler.mem.write(v, ('layer',), 'backward')


def make_net(seed, mem, contexts=(0, 0, 1)):
    """None if the generated network cannot be laid out"""
    from brainstorm.structure.layout import create_layout
    from brainstorm.structure.buffer_structure import BufferStructure
    from brainstorm.structure.buffers import BufferManager
    from brainstorm.structure.network import Network
    layers, names = layers_for(seed, BufferStructure, contexts)
    hubs, layout = create_layout(layers)
    m = BufferManager(layout, hubs, GHandler(mem))
    net = Network(layers, m, {}, seed=1, handler=GHandler(mem))
    return layers, net


def layers_for(seed, BS, contexts=(0, 0, 1)):
    return c04.make_layers(seed, BS, GLayer, contexts, 'Input')


def usable(seed):
    from brainstorm.structure.buffer_structure import BufferStructure
    with Context(c04.size_facts()):
        layers, names = layers_for(seed, BufferStructure)
    return c04.largest_group(layers) <= 5, len(names)


def arrays(net, layers):
    """all arrays by name"""
    for n, l in layers.items():
        for g, shapes in (('inputs', l.in_shapes), ('outputs', l.out_shapes), ('internals', l.internal_shapes), ('parameters', l.parameter_shapes), ('gradients', l.parameter_shapes),
                          ('input_deltas', l.in_shapes), ('output_deltas', l.out_shapes)):
            for k, s in shapes.items():
                yield (n, g, k), s, net.buffer[n][g][k]
