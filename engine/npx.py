"""numpy as seen by the code under verification: symbolic arrays are handled here, everything else is numpy's."""
import numpy as _np
from .poly import *
from .rt import S, SB, is_sym, mk, mkb
from . import rt, tensor
from .tensor import *


def anysym(args):
    for x in args:
        if isinstance(x, (View, S, SB, MaskedRead)):
            return True
        if isinstance(x, (tuple, list)) and anysym(x):
            return True
        if getattr(x, '__symiter__', False):
            return True
    return False


def _out(r, out):
    if out is not None:
        if isinstance(out, tuple):
            out = out[0]
        assign_to(out, r)
        return out
    return r


def binary_cond(f):
    def g(a, b):
        if not isinstance(a, View) and not isinstance(b, View):
            return mkb(f(P(a) if not isinstance(a, SB) else a.p, P(b) if not isinstance(b, SB) else b.p))
        r = ewise(f, a, b)
        r.is_cond = True
        return r
    return g


def as_list_view(a):
    """a list of numbers (or of pairs of numbers) of symbolic length as an array"""
    if isinstance(a, View):
        return a
    from . import seq
    if isinstance(a, seq.SymList):
        n = P(a.__symlen__())
        x = a.at(sym('probe!'))
        if isinstance(x, (tuple, list)):
            v = alloc((n, len(x)), None)

            def content(c):
                t = a.at(c[0])
                r = ZERO
                for k, y in enumerate(t):
                    r = r + eq0(c[1] - k, True) * P(y)
                return r
            v.st.content = content
            return v
        v = alloc((n,), None)
        v.st.content = lambda c: P(a.at(c[0]))
        return v
    raise Unsupported('array of %r' % (a,))


def unary(f):
    def g(x, out=None, **k):
        if isinstance(x, MaskedRead):
            return x.map(f)
        if isinstance(x, (S, SB)):
            return mk(f(P(x)))
        return _out(ewise(f, x), out)
    return g


def binary(f):
    def g(a, b, out=None, **k):
        if not isinstance(a, View) and not isinstance(b, View) and out is None:
            return mk(f(P(a), P(b)))
        return _out(ewise(f, a, b), out)
    return g


def sigmoid_poly(x):
    return func('sigmoid', x)


def _sqrt(x):
    return power(x, Fraction(1, 2))


def _fmod(a, b):
    """C fmod; for a >= 0, b > 0 it is the remainder"""
    return func('fmod', a, b)


def mean(a, axis=None, dtype=None, out=None, keepdims=False):
    s = reduce_sum(a, axis, keepdims)
    n = ONE
    axes = range(len(a.axes)) if axis is None else ([axis % len(a.axes)] if not isinstance(axis, tuple) else [x % len(a.axes) for x in axis])
    for k in axes:
        n = n * sizeprod(a.axes[k])
    return s / S(n) if not isinstance(s, View) else ewise(lambda x: x / n, s)


def _sum(a, axis=None, dtype=None, out=None, keepdims=False):
    if isinstance(a, (list, tuple)):
        return rt.sum_(a)
    return _out(reduce_sum(a, axis, keepdims), out)


def _prod(x, *a, **k):
    r = 1
    for v in x:
        r = r * v
    return r


def _cumsum(a, axis=None, **k):
    if not isinstance(a, (list, tuple)):
        raise Unsupported('cumsum')
    out, r = [], 0
    for x in a:
        r = r + x
        out.append(r)
    return out


def _zeros(shape, dtype=None, **k):
    return const_array(shape, 0)


def _ones(shape, dtype=None, **k):
    return const_array(shape, 1)


def _full(shape, v, dtype=None, **k):
    return const_array(shape, v)


def _eye(n, m=None, dtype=None, **k):
    if k:
        raise Unsupported('eye')
    v = alloc((n, n if m is None else m), None)
    v.st.content = lambda c: eq0(c[0] - c[1], True)
    return v


def _arange(n, *a, **k):
    if a:
        raise Unsupported('arange')
    v = alloc((n,), None)
    sizes = [c.size for c in v.axes[0]]

    def content(coord):
        r = ZERO
        for c, s in zip(coord, sizes):
            r = r * s + c
        return r
    v.st.content = content
    v.arange_comps = True
    return v


def _copyto(dst, src, **k):
    assign_to(dst, src)


def _clip(a, lo, hi, out=None):
    return _out(ewise(lambda x, l, h: rmin(rmax(x, l), h), a, lo, hi), out)


def _where(c, a, b):
    return ewise(lambda c, a, b: c * a + (1 - c) * b, c, a, b)


def _amin(a, axis=None, keepdims=False, out=None):
    if getattr(a, '__symiter__', False) and axis is None:
        return rt.min_(a)
    if isinstance(a, (list, tuple)):
        return rt.min_(a)
    return _out(-reduce_max(-a, axis, keepdims), out)


def _amax(a, axis=None, keepdims=False, out=None):
    if getattr(a, '__symiter__', False) and axis is None:
        return rt.max_(a)
    if isinstance(a, (list, tuple)) and not any(isinstance(x, View) for x in a):
        r = P(a[0])
        for x in a[1:]:
            r = rmax(r, P(x))
        return mk(r)
    return _out(reduce_max(a, axis, keepdims), out)


def nonfinite(x):
    """indicator of values that are not finite (their only trace in the real model)"""
    return func('nonfinite', x)


def _isfinite(a):
    if isinstance(a, (S, SB)):
        return mkb(eq0(nonfinite(P(a))))
    r = ewise(lambda x: eq0(nonfinite(x)), as_list_view(a))
    r.is_cond = True
    return r


def _all(a, axis=None, **k):
    if isinstance(a, SB):
        return a
    if axis is not None or not isinstance(a, View):
        raise Unsupported('numpy.all')
    return mkb(eq0(P(reduce_sum(ewise(lambda x: 1 - x, a), None, False))))


def _any(a, axis=None, **k):
    if isinstance(a, SB):
        return a
    if axis is not None or not isinstance(a, View):
        raise Unsupported('numpy.any')
    return mkb(1 - eq0(P(reduce_sum(a, None, False))))


def _dot(a, b, out=None):
    return _out(dot(a, b), out)


def _same_like(v):
    def f(a, dtype=None, **k):
        return const_array(a.shape, v)
    return f


def _expand_dims(a, axis):
    ax = list(a.axes)
    ax.insert(axis % (len(ax) + 1), [])
    return View(a.st, ax, a.base)


def _reshape(a, shape):
    return a.reshape(shape)


def _array(a, *r, **k):
    if isinstance(a, View):
        return a.copy()
    if getattr(a, '__symiter__', False):
        return as_list_view(a)
    return a


def truth(x):
    return 1 - eq0(x)


def _xor(a, b):
    a, b = truth(a), truth(b)
    return a + b - 2 * a * b


TABLE = dict(
    isfinite=_isfinite, all=_all, any=_any, min=lambda a, **k: _amin(a, **k), amin=lambda a, **k: _amin(a, **k),
    logical_xor=lambda a, b, **k: binary_cond(_xor)(a, b), logical_and=lambda a, b, **k: binary_cond(lambda x, y: truth(x) * truth(y))(a, b),
    logical_or=lambda a, b, **k: binary_cond(lambda x, y: truth(x) + truth(y) - truth(x) * truth(y))(a, b),
    argmax=lambda a, axis=None, **k: reduce_arg(as_list_view(a), axis), argmin=lambda a, axis=None, **k: reduce_arg(-as_list_view(a), axis),
    abs=unary(absval), absolute=unary(absval), sign=unary(sign), exp=unary(exp), log=unary(log), sqrt=unary(_sqrt),
    tanh=unary(lambda x: func('tanh', x)), square=unary(lambda x: x * x), negative=unary(lambda x: -x),
    multiply=binary(lambda a, b: a * b), add=binary(lambda a, b: a + b), subtract=binary(lambda a, b: a - b),
    divide=binary(lambda a, b: a / b), true_divide=binary(lambda a, b: a / b),
    fmod=binary(_fmod), mod=binary(rt.modulo), remainder=binary(rt.modulo), maximum=binary(rmax), minimum=binary(rmin),
    sum=_sum, mean=mean, prod=_prod, cumsum=_cumsum, zeros=_zeros, ones=_ones, empty=_zeros, full=_full, eye=_eye, arange=_arange, copyto=_copyto,
    clip=_clip, where=_where, amax=_amax, max=_amax, dot=_dot, zeros_like=_same_like(0), ones_like=_same_like(1), expand_dims=_expand_dims,
    array=_array, asarray=lambda a, *r, **k: a, reshape=_reshape, ravel=lambda a: a.ravel(), squeeze=lambda a, axis=None: a.squeeze(axis),
    isscalar=lambda a: not isinstance(a, View), transpose=lambda a: a.T, outer=lambda a, b: a.reshape((-1, 1)) * b.reshape((1, -1)),
    matmul=_dot, logical_not=lambda a: ~a,
)


class _NDMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (_np.ndarray, View))

    def __call__(cls, *a, **k):
        return _np.ndarray(*a, **k)


class NDArray(metaclass=_NDMeta):
    pass


class Proxy(object):
    def __getattr__(self, name):
        if name == 'ndarray':
            return NDArray
        real = getattr(_np, name)
        f = TABLE.get(name)
        if f is None:
            if callable(real) and not isinstance(real, type):
                def g(*a, **k):
                    if anysym(a) or anysym(k.values()):
                        raise Unsupported('numpy.%s on symbolic values' % name)
                    return real(*a, **k)
                return g
            return real

        def h(*a, **k):
            if anysym(a) or anysym(list(k.values())):
                return f(*a, **k)
            return real(*a, **k)
        return h


proxy = Proxy()
