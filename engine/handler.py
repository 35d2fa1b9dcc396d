"""Contracts of the numeric back end, used in two ways: layers, steppers and modifiers are executed against them (the
caller sees the contract, not the body), and specs/c07.py proves every body of NumpyHandler against the same contract."""
from .poly import *
from .prover import *
from .rt import *
from . import rt, tensor, npx
from .tensor import *
from .tensor import View, ShapeError


class PreconditionError(AssertionError):
    pass


def same_shape(*vs):
    vs = [as_view(v) for v in vs]
    for v in vs[1:]:
        if len(v.axes) != len(vs[0].axes) or any(sizeprod(a) != sizeprod(b) for a, b in zip(v.axes, vs[0].axes)):
            raise PreconditionError('arguments of different shape: %r %r' % (vs[0], v))


def need(c, msg):
    if not c:
        raise PreconditionError(msg)


def rank2(*vs):
    for v in vs:
        need(len(v.axes) == 2, 'not two-dimensional: %r' % (v,))


def row_or_col(m, v, full=False):
    rank2(m, v)
    sm, sv = [sizeprod(a) for a in m.axes], [sizeprod(a) for a in v.axes]
    need(sv == [sm[0], ONE] or sv == [ONE, sm[1]] or (full and sv == sm), 'vector does not fit the matrix: %r %r' % (m, v))


def el_fn(x):
    return ite(lt0(x), exp(x) - 1, x)


def rel_fn(x):
    return x * lt0(-x)


def sigmoid_def(x):
    return 1 / (1 + exp(-x))


# the meaning of the activation symbols; a contract of the form dx = dy * f'(x, f(x)) is stated with f and f' opaque,
# that f' is the derivative of f and that the bodies compute them is proved separately (specs/c07.py)
MEANING = {
    'rel': lambda x: rel_fn(x), 'el': lambda x: el_fn(x), 'sigmoid': lambda x: sigmoid_def(x),
    'tanh': lambda x: (exp(x) - exp(-x)) / (exp(x) + exp(-x)),
    'rel_d': lambda y: lt0(-y), 'el_d': lambda y: ite(lt0(y), y + 1, 1),
}


def meaning(p, names=('rel', 'el', 'rel_d', 'el_d')):
    def f(a):
        if a.kind == 'f' and a.args[0] in names:
            return MEANING[a.args[0]](*[meaning(x, names) for x in a.args[1]])
    return map_atoms(p, f)


FUN = dict(
    rel=(lambda x: func('rel', x), lambda x, y, dy: dy * func('rel_d', y)),
    sigmoid=(lambda x: func('sigmoid', x), lambda x, y, dy: dy * (func('sigmoid_d', y) if OPAQUE[0] else y * (1 - y))),
    tanh=(lambda x: func('tanh', x), lambda x, y, dy: dy * (func('tanh_d', y) if OPAQUE[0] else 1 - y * y)),
    el=(lambda x: func('el', x), lambda x, y, dy: dy * func('el_d', y)),
    linear=(lambda x: x, lambda x, y, dy: dy),
)


def unary(f):
    def op(self, a, out):
        same_shape(a, out)
        assign_to(out, ewise(f, a))
    return op


def binary(f):
    def op(self, a, b, out):
        same_shape(a, b, out)
        assign_to(out, ewise(f, a, b))
    return op


def mv(f, acc=False, full=False):
    def op(self, m, v, out):
        row_or_col(m, v, full)
        same_shape(m, out)
        if acc:
            assign_to(out, ewise(lambda o, a, b: o + f(a, b), out, m, v))
        else:
            assign_to(out, ewise(f, m, v))
    return op


def st(f, acc=False):
    def op(self, s, t, out):
        same_shape(t, out)
        need(not isinstance(s, View) or not s.axes, 'scalar expected')
        if acc:
            assign_to(out, ewise(lambda o, a, b: o + f(a, b), out, s, t))
        else:
            assign_to(out, ewise(f, s, t))
    return op


def act(name):
    f = FUN[name][0]

    def op(self, x, y):
        same_shape(x, y)
        assign_to(y, ewise(f, x))
    return op


def act_d(name):
    f = FUN[name][1]

    def op(self, x, y, dy, dx):
        same_shape(x, y, dy, dx)
        assign_to(dx, ewise(f, x, y, dy))
    return op


def _mm(a, b, out, transa, transb):
    rank2(a, b, out)
    x = a.T if transa else a
    y = b.T if transb else b
    need(sizeprod(x.axes[1]) == sizeprod(y.axes[0]), 'inner dimensions differ: %r %r' % (x, y))
    need(sizeprod(x.axes[0]) == sizeprod(out.axes[0]) and sizeprod(y.axes[1]) == sizeprod(out.axes[1]), 'result shape differs: %r %r %r' % (x, y, out))
    return dot(x, y)


class Contracts(object):
    """mixin with the contract of every operation; the concrete class also inherits the repository's Handler"""
    context = 'contract'
    masks = 0

    abs_t = unary(absval)
    sign_t = unary(sign)
    sqrt_t = unary(lambda a: power(a, Fraction(1, 2)))
    log_t = unary(log)
    add_tt = binary(lambda a, b: a + b)
    subtract_tt = binary(lambda a, b: a - b)
    mult_tt = binary(lambda a, b: a * b)
    divide_tt = binary(lambda a, b: a / b)
    modulo_tt = binary(lambda a, b: func('fmod', a, b))
    add_mv = mv(lambda m, v: m + v)
    subtract_mv = mv(lambda m, v: m - v)
    mult_mv = mv(lambda m, v: m * v, full=True)
    divide_mv = mv(lambda m, v: m / v)
    mult_add_mv = mv(lambda m, v: m * v, True)
    add_st = st(lambda s, t: s + t)
    mult_st = st(lambda s, t: s * t)
    mult_add_st = st(lambda s, t: s * t, True)
    rel, rel_deriv = act('rel'), act_d('rel')
    sigmoid, sigmoid_deriv = act('sigmoid'), act_d('sigmoid')
    tanh, tanh_deriv = act('tanh'), act_d('tanh')
    el, el_deriv = act('el'), act_d('el')

    def mult_add_tt(self, a, b, out):
        same_shape(a, b, out)
        assign_to(out, ewise(lambda o, x, y: o + x * y, out, a, b))

    # ---- allocation, copy, fill
    def allocate(self, shape):
        return const_array(shape, 0, 'alloc')

    def zeros(self, shape):
        return const_array(shape, 0, 'zeros')

    def ones(self, shape):
        return const_array(shape, 1, 'ones')

    def copy_to(self, src, dest):
        same_shape(src, dest)
        assign_to(dest, src)

    def fill(self, mem, val):
        assign_to(mem, val)

    def get_numpy_copy(self, arr):
        return materialise(arr)

    def set_from_numpy(self, mem, arr):
        same_shape(mem, arr)
        assign_to(mem, arr)

    def create_from_numpy(self, arr):
        return materialise(arr) if isinstance(arr, View) else arr

    def is_fully_finite(self, a):
        return True

    # ---- conditional
    def copy_to_if(self, src, dest, cond):
        same_shape(src, dest, cond)
        assign_to(dest, ewise(lambda d, s, c: ite(eq0(c), d, s), dest, src, cond))

    def add_into_if(self, a, out, cond):
        same_shape(a, out, cond)
        assign_to(out, ewise(lambda o, x, c: ite(eq0(c), o, o + x), out, a, cond))

    def fill_if(self, mem, val, cond):
        same_shape(mem, cond)
        assign_to(mem, ewise(lambda o, x, c: ite(eq0(c), o, x), mem, val, cond))

    # ---- matrix products and shapes
    def dot_mm(self, a, b, out, transa=False, transb=False):
        assign_to(out, _mm(a, b, out, transa, transb))

    def dot_add_mm(self, a, b, out, transa=False, transb=False):
        r = _mm(a, b, out, transa, transb)
        assign_to(out, ewise(lambda o, x: o + x, out, r))

    def sum_t(self, a, axis, out):
        if axis is None:
            need(isinstance(out, View) and all(sizeprod(x) == ONE for x in out.axes), 'sum over all axes needs a scalar array')
            r = reduce_sum(a, None)
        else:
            r = reduce_sum(a, axis, keepdims=len(out.axes) == len(a.axes))
            same_shape(r, out)
        assign_to(out, r)

    def broadcast_t(self, a, axis, out):
        need(len(a.axes) == len(out.axes), 'broadcast keeps the rank')
        for k, (x, y) in enumerate(zip(a.axes, out.axes)):
            need(sizeprod(x) == ONE if k == axis else sizeprod(x) == sizeprod(y), 'broadcast shape')
        assign_to(out, a)

    def clip_t(self, a, a_min, a_max, out):
        same_shape(a, out)
        assign_to(out, ewise(lambda x, l, h: rmin(rmax(x, l), h), a, a_min, a_max))

    def binarize_v(self, v, out):
        rank2(v, out)
        need(sizeprod(v.axes[1]) == ONE and sizeprod(v.axes[0]) == sizeprod(out.axes[0]), 'binarize shape')
        gv = freeze(v)
        na = len(v.flat())

        def val(idx):
            rows = idx[:len([c for c in out.axes[0] if c.size != ONE])]
            col = idx[len(rows):]
            k, full = 0, []
            for c in v.flat():
                if c.size == ONE:
                    full.append(ZERO)
                else:
                    full.append(rows[k]); k += 1
            return eq0(gv(full) - (col[0] if col else ZERO))
        common = [[c for c in a if c.size != ONE] for a in out.axes]
        assign_to(out, from_elements(common, val))

    def index_m_by_v(self, m, v, out):
        rank2(m, v, out)
        need(sizeprod(v.axes[1]) == ONE and sizeprod(out.axes[1]) == ONE and sizeprod(v.axes[0]) == sizeprod(m.axes[0]) == sizeprod(out.axes[0]), 'index_m_by_v shape')
        gv, gm = freeze(v), freeze(m)

        def val(idx):
            def exp_(comps):
                k, full = 0, []
                for c in comps:
                    if c.size == ONE:
                        full.append(ZERO)
                    else:
                        full.append(idx[k]); k += 1
                return full
            return gm(exp_(m.axes[0]) + [gv(exp_(v.flat()))])
        common = [[c for c in a if c.size != ONE] for a in out.axes]
        assign_to(out, from_elements(common, val))

    def merge_tt(self, a, b, out):
        need(sizeprod(a.axes[-1]) + sizeprod(b.axes[-1]) == sizeprod(out.axes[-1]), 'merge sizes')
        sa = a.shape[-1]
        assign_to(out[..., :sa], a)
        assign_to(out[..., sa:], b)

    def split_add_tt(self, x, out_a, out_b):
        need(sizeprod(out_a.axes[-1]) + sizeprod(out_b.axes[-1]) == sizeprod(x.axes[-1]), 'split sizes')
        sa = out_a.shape[-1]
        assign_to(out_a, ewise(lambda o, v: o + v, out_a, x[..., :sa]))
        assign_to(out_b, ewise(lambda o, v: o + v, out_b, x[..., sa:]))

    def softmax_m(self, m, out):
        rank2(m, out)
        same_shape(m, out)
        e = ewise(exp, m)
        s = reduce_sum(e, 1, keepdims=True)
        assign_to(out, ewise(lambda a, b: a / b, e, s))

    # ---- randomness: an arbitrary outcome
    def generate_probability_mask(self, mask, probability):
        Contracts.masks += 1
        nm = 'rndmask%d' % Contracts.masks
        v = like_input(nm, mask)
        assign_to(mask, v)

    def fill_gaussian(self, mean, std, out):
        Contracts.masks += 1
        v = like_input('normal%d' % Contracts.masks, out)
        assign_to(out, ewise(lambda z, s, m: s * z + m, v, std, mean))


ZERO_ONE = set()


def like_input(name, v):
    comps = [[c for c in a if c.size != ONE] for a in v.axes]
    return from_elements(comps, lambda idx: rd(name, *idx))


_cls = {}


def make_handler():
    if 'c' not in _cls:
        from brainstorm.handlers.base_handler import Handler

        class ContractHandler(Contracts, Handler):
            def __init__(self):
                Handler.__init__(self)
                self.dtype = float

            array_type = View
        names = getattr(Handler, '__abstractmethods__', ())
        for n in list(names):
            if getattr(getattr(ContractHandler, n, None), '__isabstractmethod__', False):
                def missing(self, *a, _n=n, **k):
                    raise Unsupported('operation %s has no contract' % _n)
                setattr(ContractHandler, n, missing)
        ContractHandler.__abstractmethods__ = frozenset()
        _cls['c'] = ContractHandler
    return _cls['c']()
