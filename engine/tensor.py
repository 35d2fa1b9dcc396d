"""Symbolic arrays.  A Storage is a function from index tuples to polynomials; a View is a window on it whose axes are
lists of components (so that merging axes by reshape keeps track of the parts).  A storage axis marked `ctx` has size
n+1 where row n (reached as -1) is written as coordinate -1: the context row of sequence buffers."""
from .poly import *
from .prover import *
from .rt import *
from . import rt

WRITES = []          # log of (storage, fixed) entries while a loop body runs; fixed: list per axis of Poly or None
HEAP = []            # all storages, for snapshots


class Storage(object):
    count = 0

    def __init__(self, dims, content, name='tmp', ctx=(), dtype=None):
        self.dims = [P(d) for d in dims]
        self.content = content
        self.name = name
        self.ctx = ctx              # axes with a context row
        self.dtype = dtype
        Storage.count += 1
        self.id = Storage.count
        HEAP.append(self)

    def n_ctx(self, ax):
        return self.dims[ax] - 1

    def read(self, idx):
        return self.content(tuple(idx))


class Comp(object):
    """one factor of a view axis: size and the storage axis it walks along (None: broadcast)"""
    __slots__ = ('size', 'ax', 'wrap')

    def __init__(self, size, ax, wrap=False):
        self.size, self.ax, self.wrap = P(size), ax, wrap


def _pos(x):
    return prove_int(P(x), 'lt') is True


def sizeprod(comps):
    r = ONE
    for c in comps:
        r = r * c.size
    return r


class View(object):
    __array_priority__ = 1000

    def __init__(self, st, axes, base):
        self.st = st
        self.axes = axes            # list of lists of Comp
        self.base = base            # per storage axis: offset Poly

    # -- shape ---------------------------------------------------------------
    @property
    def shape(self):
        out = []
        for a in self.axes:
            p = sizeprod(a)
            if p.is_const():
                out.append(int(p.const()))
            else:
                out.append(S(p, factors=tuple((c.size, c.wrap) for c in a) if len(a) != 1 else None, ctx=len(a) == 1 and a[0].wrap))
        return tuple(out)

    @property
    def ndim(self):
        return len(self.axes)

    @property
    def size(self):
        r = 1
        for s in self.shape:
            r = r * s
        return r

    @property
    def dtype(self):
        import numpy as np
        return self.st.dtype or np.dtype('float64')

    @property
    def T(self):
        return View(self.st, self.axes[::-1], self.base)

    def transpose(self, *order):
        return View(self.st, [self.axes[i] for i in order], self.base)

    def __symlen__(self):
        return self.shape[0]

    def __len__(self):
        r = self.shape[0]
        if isinstance(r, int):
            return r
        raise Unsupported('len of symbolic array')

    # -- element access --------------------------------------------------------
    def flat(self):
        return [c for a in self.axes for c in a]

    def get(self, idx):
        """idx: list of Polys, one per flattened component"""
        comps = self.flat()
        assert len(comps) == len(idx)
        return self._get(comps, list(idx), list(self.base), 0)

    def _get(self, comps, idx, coord, k):
        while k < len(comps):
            c, i = comps[k], idx[k]
            if c.ax is not None:
                if c.wrap:
                    n = self.st.n_ctx(c.ax)
                    d = prove_int(i - n, 'lt')
                    if d is True:
                        coord[c.ax] = i
                    elif d is False:
                        coord[c.ax] = P(-1)
                    else:
                        c1, c2 = list(coord), list(coord)
                        c1[c.ax] = i; c2[c.ax] = P(-1)
                        g = lt0(i - n, True)
                        return g * self._get(comps, idx, c1, k + 1) + (1 - g) * self._get(comps, idx, c2, k + 1)
                else:
                    coord[c.ax] = coord[c.ax] + i
            k += 1
        return self.st.read(coord)

    def put(self, f, cond=None):
        """assign element function f(flat idx) (already evaluated on a snapshot: f must not read self lazily)"""
        st, old = self.st, self.st.content
        comps = self.flat()
        base = list(self.base)
        walk = {}
        for k, c in enumerate(comps):
            if c.ax is not None:
                walk[c.ax] = k
        fixed = [None if ax in walk else base[ax] for ax in range(len(st.dims))]
        WRITES.append((st, fixed))
        for k, c in enumerate(comps):
            if c.ax is None and c.size != ONE:
                raise Unsupported('write to a broadcast view')

        def content(coord):
            g = ONE
            idx = [None] * len(comps)
            for ax in range(len(st.dims)):
                if ax in walk:
                    c = comps[walk[ax]]
                    if c.wrap:
                        x = coord[ax]
                        d = prove_int(x, 'lt')
                        if d is True:
                            idx[walk[ax]] = st.n_ctx(ax)
                        elif d is False:
                            idx[walk[ax]] = x
                        else:
                            idx[walk[ax]] = ('mix', x, st.n_ctx(ax))
                    else:
                        x = coord[ax] - base[ax]
                        full = base[ax] == ZERO and c.size == st.dims[ax] and ax not in st.ctx
                        if not full:
                            g = g * (1 - lt0(x, True)) * lt0(x - c.size, True)
                        idx[walk[ax]] = x
                else:
                    g = g * eq0(coord[ax] - base[ax], True)
                if not g.terms:
                    return old(coord)

            def val(i):
                for k, v in enumerate(i):
                    if isinstance(v, tuple):
                        _, x, n = v
                        a, b = list(i), list(i)
                        a[k], b[k] = n, x
                        h = lt0(x, True)
                        return h * val(a) + (1 - h) * val(b)
                return f(i)
            if g == ONE:
                return val(idx)
            with_facts = _bracket_facts(g)
            if with_facts:
                Ctx.cur.push(*with_facts)
                try:
                    v = val(idx)
                finally:
                    Ctx.cur.pop()
            else:
                v = val(idx)
            return g * v + (1 - g) * old(coord)
        st.content = memo(content)

    # -- indexing -----------------------------------------------------------------
    def __getitem__(self, key):
        if isinstance(key, View):
            return MaskedRead(self, key) if key.dtype == bool or getattr(key, 'is_cond', False) else fancy(self, (key,))
        if not isinstance(key, tuple):
            key = (key,)
        if any(k is None for k in key):
            return self._newaxis(key)
        if any(isinstance(k, View) for k in key):
            return fancy(self, key)
        if any(k is Ellipsis for k in key):
            n = sum(1 for k in key if k is not Ellipsis)
            out = []
            for k in key:
                out += [slice(None)] * (len(self.axes) - n) if k is Ellipsis else [k]
            key = tuple(out)
        for i, k in enumerate(key):
            if isinstance(k, slice) and k.step == -1 and k.start is None and k.stop is None:
                # numpy gives a view; reading it before the source changes is the same as reading a copy
                return reverse(self[tuple(slice(None) if j == i else q for j, q in enumerate(key))],
                               sum(1 for q in key[:i] if isinstance(q, slice)))
        axes, base = [], list(self.base)
        for i, a in enumerate(self.axes):
            k = key[i] if i < len(key) else slice(None)
            if isinstance(k, slice):
                if k.step not in (None, 1):
                    raise Unsupported('slice step')
                if k.start is None and k.stop is None:
                    axes.append(a)
                    continue
                if len(a) != 1:
                    part = _subaxis(a, k)
                    if part is not None:
                        digits, tail = part
                        for c, q in zip(a, digits):
                            if c.ax is not None:
                                base[c.ax] = base[c.ax] + q
                        axes.append(tail)
                        continue
                    lo, hi, n = _slice(k, sizeprod(a))
                    if lo == ZERO and hi == n:
                        axes.append(a); continue
                    raise Unsupported('slice of a merged axis')
                c = a[0]
                lo, hi, n = _slice(k, c.size)
                if c.wrap:
                    if lo == ZERO and hi == n:
                        axes.append(a); continue
                    if prove_int(hi - n, 'lt') is not True:
                        raise Unsupported('slice across the context row')
                    base[c.ax] = lo
                    axes.append([Comp(hi - lo, c.ax)])
                else:
                    if c.ax is not None:
                        base[c.ax] = base[c.ax] + lo
                    axes.append([Comp(hi - lo, c.ax)])
            else:
                p = P(k)
                if len(a) == 0:
                    continue
                if len(a) != 1:
                    parts = split_index(p, [c.size for c in a])
                    for c, q in zip(a, parts):
                        if c.ax is not None:
                            base[c.ax] = base[c.ax] + q
                    continue
                c = a[0]
                if c.wrap:
                    n = self.st.n_ctx(c.ax)
                    if p.is_const() and p.const() < 0:
                        base[c.ax] = P(-1) if p.const() == -1 else n + 1 + p
                    else:
                        # physical row n is coordinate -1; coordinate -1 is also how index -1 reads
                        if prove_int(p - n, 'lt') is not True and not decide(lt0(p - n, True)):
                            base[c.ax] = P(-1)
                        else:
                            if prove_int(-2 - p, 'lt') is not True:
                                raise Unsupported('row index may be below -1')
                            base[c.ax] = p
                elif STRICT[0] and not GUESSING[0]:
                    # the element access of a kernel compiled without bounds checks
                    if prove_int(p, 'lt') is not False or prove_int(p - c.size, 'lt') is not True:
                        raise Unsupported('index %s not shown to lie in [0, %s)' % (show(p, 200), show(c.size, 60)))
                    NACCESS[0] += 1
                    if c.ax is not None:
                        base[c.ax] = base[c.ax] + p
                else:
                    neg = prove_int(p, 'lt')
                    if neg is True:
                        p = p + c.size
                    elif neg is None and not decide(1 - lt0(p, True)):
                        p = p + c.size
                    if c.ax is not None:
                        base[c.ax] = base[c.ax] + p
        v = View(self.st, axes, base)
        if not axes and len(key) == len(self.axes):
            return mk(v.get([]))
        return v

    def _newaxis(self, key):
        axes, j = [], 0
        v = self
        for k in key:
            if k is None:
                axes.append([])
            elif k == slice(None):
                axes.append(self.axes[j]); j += 1
            else:
                raise Unsupported('newaxis with other indices')
        axes += self.axes[j:]
        return View(self.st, axes, self.base)

    def __setitem__(self, key, val):
        if isinstance(key, View):
            return masked_write(self, key, val)
        if isinstance(val, MaskedRead):
            raise Unsupported('masked value in a plain assignment')
        tgt = self if (isinstance(key, slice) and key == slice(None)) or key is Ellipsis else self._view(key)
        assign_to(tgt, val)

    def _view(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        # force a view even for full integer indices
        n = len([k for k in key if k is not Ellipsis])
        if n == len(self.axes) and not any(isinstance(k, slice) or k is Ellipsis for k in key):
            if any(isinstance(k, View) for k in key):
                raise Unsupported('fancy assignment')
            v = View(self.st, self.axes + [[]], self.base)
            return v[key]
        return self[key]

    # -- reshaping ------------------------------------------------------------------
    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        if len(shape) == len(self.axes) and all(P(s) == sizeprod(a) or (not P(s).is_const() and prove_int(P(s) - sizeprod(a), 'eq') is True) for s, a in zip(shape, self.axes)):
            return View(self.st, self.axes, self.base)
        comps = [c for c in self.flat() if c.size != ONE]
        axes = regroup(comps, shape)
        if any(c.ax is None for c in comps):
            return materialise(View(self.st, axes, self.base))
        if not self._order_ok(comps):
            return materialise(View(self.st, axes, self.base))
        return View(self.st, axes, self.base)

    def _order_ok(self, comps):
        return True

    def squeeze(self, axis=None):
        return View(self.st, [a for a in self.axes if sizeprod(a) != ONE], self.base)

    def ravel(self):
        return self.reshape((self.size,))
    flatten = ravel

    def copy(self):
        return materialise(self)

    def astype(self, dt, *a, **k):
        import numpy as np
        if np.dtype(dt).kind in 'iu':
            return ewise(lambda x: x if x.is_int() else func('floor', x), self)
        return materialise(self)

    def fill(self, v):
        assign_to(self, v)

    # -- arithmetic -----------------------------------------------------------------
    def __add__(self, o): return ewise(lambda a, b: a + b, self, o)
    def __radd__(self, o): return ewise(lambda a, b: b + a, self, o)
    def __sub__(self, o): return ewise(lambda a, b: a - b, self, o)
    def __rsub__(self, o): return ewise(lambda a, b: b - a, self, o)
    def __mul__(self, o): return ewise(lambda a, b: a * b, self, o)
    def __rmul__(self, o): return ewise(lambda a, b: b * a, self, o)
    def __truediv__(self, o): return ewise(lambda a, b: a / b, self, o)
    def __rtruediv__(self, o): return ewise(lambda a, b: b / a, self, o)
    def __neg__(self): return ewise(lambda a: -a, self)
    def __pow__(self, e): return ewise(lambda a, b: power(a, P(b).const()), self, e)
    def __abs__(self): return ewise(absval, self)
    def __mod__(self, o): return ewise(lambda a, b: rt.modulo(a, b), self, o)
    def __lt__(self, o): return _cond(ewise(lambda a, b: lt0(a - b), self, o))
    def __gt__(self, o): return _cond(ewise(lambda a, b: lt0(b - a), self, o))
    def __le__(self, o): return _cond(ewise(lambda a, b: le0(a - b), self, o))
    def __ge__(self, o): return _cond(ewise(lambda a, b: le0(b - a), self, o))
    def __eq__(self, o): return _cond(ewise(lambda a, b: eq0(a - b), self, o)) if not isinstance(o, (str, type(None))) else False
    def __ne__(self, o): return _cond(ewise(lambda a, b: 1 - eq0(a - b), self, o)) if not isinstance(o, (str, type(None))) else True
    __hash__ = None

    def __invert__(self):
        return _cond(ewise(lambda a: 1 - a, self))

    def __and__(self, o): return _cond(ewise(lambda a, b: a * b, self, o))
    def __or__(self, o): return _cond(ewise(lambda a, b: a + b - a * b, self, o))

    def _iop(self, o, f):
        assign_to(self, ewise(f, self, o))
        return self

    def __iadd__(self, o): return self._iop(o, lambda a, b: a + b)
    def __isub__(self, o): return self._iop(o, lambda a, b: a - b)
    def __imul__(self, o): return self._iop(o, lambda a, b: a * b)
    def __itruediv__(self, o): return self._iop(o, lambda a, b: a / b)

    def dot(self, o):
        return dot(self, o)

    def sum(self, axis=None, keepdims=False, **k):
        return reduce_sum(self, axis, keepdims)

    def max(self, axis=None, out=None, keepdims=False):
        return reduce_max(self, axis, keepdims)

    def min(self, axis=None, out=None, keepdims=False):
        return -reduce_max(-self, axis, keepdims)

    def argmax(self, axis=None, out=None):
        return reduce_arg(self, axis)

    def argmin(self, axis=None, out=None):
        return reduce_arg(-self, axis)

    def mean(self, axis=None, keepdims=False):
        from . import npx
        return npx.mean(self, axis, keepdims=keepdims)

    def __bool__(self):
        if all(sizeprod(a) == ONE for a in self.axes):
            return decide(1 - eq0(self.get([])))
        raise Unsupported('truth value of an array')

    def __float__(self):
        raise Unsupported('float() of an array')

    def __array__(self, *a, **k):
        raise Unsupported('symbolic array given to numpy')

    __array_ufunc__ = None

    def __repr__(self):
        return 'View(%s %s)' % (self.st.name, [show(sizeprod(a), 60) for a in self.axes])


def _cond(v):
    v.is_cond = True
    return v


def _bracket_facts(g):
    """facts implied by g == 1 for a product of brackets / complements"""
    if len(g.terms) == 1:
        (m, c), = g.terms.items()
        if c == 1 and not m.sums:
            return [(a.args[0], a.kind) for a, e in m.atoms if a.kind in ('lt', 'eq')]
    return []


def memo(f):
    cache = {}

    def g(coord):
        ctx = Ctx.cur
        k = (tuple(c.key for c in coord), ctx.version())
        r = cache.get(k)
        if r is None:
            r = cache[k] = f(coord)
        return r
    return g


def _slice(k, n):
    def norm(x, d):
        if x is None:
            return d
        p = P(x)
        if p.is_const() and p.const() < 0:
            return n + p
        s = prove_int(p, 'lt')
        if s is True:
            return n + p
        if s is None and not decide(1 - lt0(p, True)):
            return n + p
        return p
    lo, hi = norm(k.start, ZERO), norm(k.stop, n)
    # clipping to the array
    if prove_int(n - hi, 'lt') is not False:
        if not decide(le0(hi - n, True)):
            hi = n
    if prove_int(hi - lo, 'lt') is not False:
        if not decide(le0(lo - hi, True)):
            lo = hi
    return lo, hi, n


def _subaxis(a, k):
    """slice start:start+n of a merged axis where n is the size of its trailing components: leading digits, tail"""
    if k.start is None or k.stop is None or any(c.wrap for c in a):
        return None
    lo, n = P(k.start), P(k.stop) - P(k.start)
    for j in range(1, len(a)):
        tail = a[j:]
        if sizeprod(tail) == n:
            if GUESSING[0]:
                return [free_index(0, c.size) for c in a[:j]], tail
            q = {}
            for m, c in lo.terms.items():
                t = Poly({m: c}) / n
                if not t.is_int():
                    return None
                for mm, cc in t.terms.items():
                    q[mm] = q.get(mm, F0) + cc
            q = Poly({m: c for m, c in q.items() if c})
            return (split_index(q, [c.size for c in a[:j]]) if j > 1 else [q] if prove_int(-q - 1, 'lt') is True and prove_int(q - a[0].size, 'lt') is True else _no()), tail
    return None


STRICT = [False]        # every integer index has to be in range
NACCESS = [0]
GUESSING = [False]      # heuristic run of a loop body: positions do not matter


def _no():
    raise Unsupported('slice start out of range')


def split_index(p, sizes):
    """mixed-radix digits of index p for component sizes (row-major); digits are checked to be in range"""
    digits = []
    rest = p
    for k in range(len(sizes)):
        stride = ONE
        for s in sizes[k + 1:]:
            stride = stride * s
        if stride == ONE:
            digits.append(rest); rest = ZERO
            continue
        q, r = {}, {}
        for m, c in rest.terms.items():
            t = Poly({m: c}) / stride
            ok = len(t.terms) == 1 and all(e > 0 and e.denominator == 1 for mm in t.terms for _, e in mm.atoms) and all(cc.denominator == 1 for cc in t.terms.values())
            if ok:
                for mm, cc in t.terms.items():
                    q[mm] = q.get(mm, F0) + cc
            else:
                r[m] = c
        digits.append(Poly({m: c for m, c in q.items() if c})); rest = Poly(r)
    if GUESSING[0]:
        return [free_index(0, s) for s in sizes]
    for d, s in zip(digits, sizes):
        if not (prove_int(-d - 1, 'lt') is True and prove_int(d - s, 'lt') is True):
            raise Unsupported('cannot split index %s over %s' % (show(p, 200), [show(s, 50) for s in sizes]))
    return digits


def regroup(comps, shape):
    comps = list(comps)
    axes = []
    neg = None
    i = 0
    shape = list(shape)
    for si, s in enumerate(shape):
        if isinstance(s, int) and s == -1:
            # the remaining product: take until the later axes can be matched from the right
            tail = regroup_right(comps[i:], shape[si + 1:])
            n = len(comps) - i - sum(len(t) for t in tail)
            axes.append(comps[i:i + n])
            axes.extend(tail)
            return axes
        p = P(s)
        cur, prod_ = [], ONE
        while prod_ != p:
            if i >= len(comps):
                raise Unsupported('cannot reshape: %s not a product of %s' % (show(p, 100), [show(c.size, 60) for c in comps]))
            cur.append(comps[i]); prod_ = prod_ * comps[i].size; i += 1
            if len(cur) > 12:
                raise Unsupported('reshape')
        axes.append(cur)
    if i != len(comps):
        raise Unsupported('reshape leaves components over')
    return axes


def regroup_right(comps, shape):
    comps = list(comps)
    axes = []
    for s in reversed(shape):
        p = P(s)
        cur, prod_ = [], ONE
        while prod_ != p:
            if not comps:
                raise Unsupported('cannot reshape from the right')
            c = comps.pop()
            cur.insert(0, c); prod_ = prod_ * c.size
        axes.insert(0, cur)
    return axes


# ------------------------------------------------------------------ creation
def alloc(shape, content, name='tmp', dtype=None):
    if not isinstance(shape, (tuple, list)):
        shape = (shape,)
    dims, axes, ctx = [], [], []
    for s in shape:
        fs = facs(s) if isinstance(s, S) else (((P(s), False),) if P(s) != ONE else ())
        comps = []
        for p, cx in fs:
            if p == ONE:
                continue
            ax = len(dims)
            dims.append(p)
            if cx:
                ctx.append(ax)
            comps.append(Comp(p, ax, wrap=cx))
        axes.append(comps)
    st = Storage(dims, content, name, tuple(ctx), dtype)
    return View(st, axes, [ZERO] * len(dims))


def const_array(shape, v, name='tmp'):
    p = P(v)
    return alloc(shape, lambda coord: p, name)


def input_array(name, shape, ctx_axes=(), const_ctx=None, is_int=False):
    """array symbol; shape: list of Poly/int/tuples of Poly (merged axes are not used for inputs);
    ctx axes have size n+1, context row is coordinate -1"""
    dims, axes = [], []
    for k, s in enumerate(shape):
        s = P(s)
        if s == ONE:
            axes.append([])
            continue
        ax = len(dims)
        dims.append(s)
        axes.append([Comp(s, ax, wrap=k in ctx_axes)])
    if is_int:
        INT_ARRAYS.add(name)
    cx = tuple(a[0].ax for k, a in enumerate(axes) if k in ctx_axes)

    def content(coord):
        if const_ctx is not None and cx:
            c = coord[cx[0]]
            if prove_int(c, 'lt') is True:
                return P(const_ctx)
        return rd(name, *coord)
    st = Storage(dims, content, name, cx)
    return View(st, axes, [ZERO] * len(dims))


# ------------------------------------------------------------------ elementwise
def as_view(x):
    if isinstance(x, View):
        return x
    if isinstance(x, MaskedRead):
        raise Unsupported('masked read in an array expression')
    import numpy as np
    if isinstance(x, np.ndarray) and x.shape == ():
        x = x.item()
    if isinstance(x, np.ndarray):
        arr = x

        def content(coord):
            r = ZERO
            if all(c.is_const() for c in coord):
                return P(arr[tuple(int(c.const()) for c in coord)].item())
            for idx in np.ndindex(*arr.shape):
                g = ONE
                for c, i in zip(coord, idx):
                    g = g * eq0(c - i, True)
                r = r + g * P(arr[idx].item())
            return r
        dims = [P(n) for n in arr.shape]
        st = Storage(dims, content, 'const')
        return View(st, [[Comp(d, k)] for k, d in enumerate(dims)], [ZERO] * len(dims))
    p = P(x)
    st = Storage([], lambda coord: p, 'scalar')
    return View(st, [], [])


def align(views):
    """common axes (list of lists of component sizes) and, per view, a map from common flat index to its own"""
    n = max(len(v.axes) for v in views)
    common = []
    plans = [[] for _ in views]          # per view: list of (start, count or None)
    pos = 0
    for k in range(n):
        best = None
        for v in views:
            j = k - (n - len(v.axes))
            if j >= 0:
                a = v.axes[j]
                if sizeprod(a) != ONE and (best is None or len([c for c in a if c.size != ONE]) > len([c for c in best if c.size != ONE])):
                    best = a
        best = [c for c in best if c.size != ONE] if best is not None else []
        for vi, v in enumerate(views):
            j = k - (n - len(v.axes))
            if j < 0:
                continue
            a = v.axes[j]
            sp = sizeprod(a)
            if sp == ONE:
                for c in a:
                    plans[vi].append(None)
            else:
                mine = [c for c in a if c.size != ONE]
                if sp != sizeprod(best):
                    raise ShapeError('shapes do not match: %s vs %s' % (show(sp, 100), show(sizeprod(best), 100)))
                if [c.size.key for c in mine] != [c.size.key for c in best]:
                    raise Unsupported('axis factorisations differ: %s vs %s' % ([show(c.size, 50) for c in mine], [show(c.size, 50) for c in best]))
                q = 0
                for c in a:
                    if c.size == ONE:
                        plans[vi].append(None)
                    else:
                        plans[vi].append(pos + q); q += 1
        common.append(best)
        pos += len(best)
    return common, plans


class ShapeError(ValueError):
    pass


def pick(plan, idx):
    return [ZERO if k is None else idx[k] for k in plan]


def freeze(v):
    """element function of v on its present content"""
    st = v.st
    c = st.content
    fz = Storage.__new__(Storage)
    fz.dims, fz.content, fz.name, fz.ctx, fz.dtype, fz.id = st.dims, c, st.name, st.ctx, st.dtype, -1
    w = View(fz, v.axes, list(v.base))
    return w.get


def ewise(f, *args):
    views = [as_view(a) for a in args]
    common, plans = align(views)
    gets = [freeze(v) for v in views]

    def val(idx):
        return f(*[P(g(pick(p, idx))) for g, p in zip(gets, plans)])
    return from_elements(common, val)


def from_elements(common, val):
    """fresh array with the given component structure; broadcasting comps keep their wrap flag"""
    dims, axes, ctx = [], [], []
    for a in common:
        comps = []
        for c in a:
            ax = len(dims)
            dims.append(c.size)
            if c.wrap:
                ctx.append(ax)
            comps.append(Comp(c.size, ax, wrap=c.wrap))
        axes.append(comps)

    def content(coord):
        # physical index of a context row
        idx = []
        for k, c in enumerate(coord):
            if k in ctx:
                d = prove_int(c, 'lt')
                if d is True:
                    idx.append(dims[k] - 1)
                elif d is False:
                    idx.append(c)
                else:
                    h = lt0(c, True)
                    a, b = list(coord), list(coord)
                    a[k] = P(-1)
                    Ctx.cur.push((-c, 'le'))
                    try:
                        r2 = content(tuple(b))
                    finally:
                        Ctx.cur.pop()
                    return h * content(tuple(a)) + (1 - h) * r2
            else:
                idx.append(c)
        return val(idx)
    st = Storage(dims, memo(content), 'expr', tuple(ctx))
    return View(st, axes, [ZERO] * len(dims))


def materialise(v):
    return ewise(lambda a: a, v)


def assign_to(tgt, val):
    v = as_view(val)
    # numpy: the value is broadcast to the target
    while len(v.axes) > len(tgt.axes):
        if sizeprod(v.axes[0]) != ONE:
            raise ShapeError('could not broadcast')
        v = View(v.st, v.axes[1:], v.base)
    common, plans = align([tgt, v])
    for a, b in zip(common, tgt.axes):
        if sizeprod(a) != sizeprod(b):
            raise ShapeError('could not broadcast input array into shape')
    g = freeze(v)
    # target flat comps -> common positions
    tflat = tgt.flat()
    pos, m = 0, []
    for a in tgt.axes:
        for c in a:
            if c.size == ONE:
                m.append(None)
            else:
                m.append(pos); pos += 1

    def f(idx):
        ci = [None] * pos
        for k, q in enumerate(m):
            if q is not None:
                ci[q] = idx[k]
        return g(pick(plans[1], ci))
    tgt.put(f)


class MaskedRead(object):
    """a[cond]: only usable elementwise together with assignments under the same condition"""
    __array_ufunc__ = None

    def __init__(self, src, cond, fn=None):
        self.src, self.cond, self.fn = src, cond, fn
        self.val = materialise(src) if not isinstance(src, MaskedRead) else src.val

    def _bin(self, o, f):
        if isinstance(o, MaskedRead):
            if not same_cond(self.cond, o.cond):
                raise Unsupported('different masks')
            o = o.val
        r = MaskedRead.__new__(MaskedRead)
        r.cond = self.cond
        r.src = None
        # elements outside the mask are not evaluated; give them as is (they are never used)
        r.val = ewise(f, self.val, o)
        return r

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __truediv__(self, o): return self._bin(o, lambda a, b: a / b)
    def __rtruediv__(self, o): return self._bin(o, lambda a, b: b / a)
    def __neg__(self): return self._bin(0, lambda a, b: -a)
    def map(self, f):
        return self._bin(0, lambda a, b: f(a))


def same_cond(a, b):
    if a is b:
        return True
    ca, pa = align([a, b])
    idx = [free_index(0, c.size) for x in ca for c in x]
    return a.get(pick(pa[0], idx)) == b.get(pick(pa[1], idx))


def masked_write(tgt, cond, val):
    if isinstance(val, MaskedRead):
        if not same_cond(cond, val.cond):
            raise Unsupported('different masks')
        val = val.val
    r = ewise(lambda t, c, v: c * v + (1 - c) * t, tgt, cond, val)
    assign_to(tgt, r)


def fancy(v, key):
    """m[arange(n), idx] and eye[idx]"""
    import numpy as np
    key = tuple(as_view(k) if isinstance(k, np.ndarray) else k for k in key)
    if len(key) == 1 and len(v.axes) == 2:
        i = key[0]
        g, gi = freeze(v), freeze(i)
        rows = [c for a in i.axes for c in a if c.size != ONE]
        cols = [c for c in v.axes[1] if c.size != ONE]
        common = [[c for c in a if c.size != ONE] for a in i.axes] + [cols]
        n = len(i.flat())
        pad = [c.size == ONE for c in i.flat()]

        def val(idx):
            k = 0
            ii = []
            for one in pad:
                ii.append(ZERO if one else idx[k])
                if not one:
                    k += 1
            return g([gi(ii)] + idx[k:])
        return from_elements(common, val)
    if len(key) == 2 and len(v.axes) == 2 and all(isinstance(k, View) for k in key):
        a, b = key
        common, plans = align([a, b])
        g, ga, gb = freeze(v), freeze(a), freeze(b)

        def val(idx):
            rowp = ga(pick(plans[0], idx))
            comps = v.axes[0]
            if len(comps) == 1:
                rows = [rowp]
            elif hasattr(a, 'arange_comps'):
                rows = pick(plans[0], idx)
            else:
                rows = split_index(rowp, [c.size for c in comps])
            return g(rows + [gb(pick(plans[1], idx))])
        return from_elements(common, val)
    raise Unsupported('fancy indexing')


# ------------------------------------------------------------------ reductions
def dot(a, b):
    a, b = as_view(a), as_view(b)
    if len(a.axes) == 0 or len(b.axes) == 0:
        return ewise(lambda x, y: x * y, a, b)
    if len(b.axes) == 1:
        ba, bn = b.axes[0], []
    elif len(b.axes) == 2:
        ba, bn = b.axes[0], b.axes[1]
    else:
        raise Unsupported('dot of rank %d' % len(b.axes))
    am, ak = a.axes[:-1], a.axes[-1]
    ck = [c for c in ak if c.size != ONE]
    cb = [c for c in ba if c.size != ONE]
    if sizeprod(ck) != sizeprod(cb):
        raise ShapeError('dot: shapes not aligned')
    if [c.size.key for c in ck] != [c.size.key for c in cb]:
        raise Unsupported('dot: factorisations differ')
    ga, gb = freeze(a), freeze(b)
    common = [[c for c in x if c.size != ONE] for x in am] + ([[c for c in bn if c.size != ONE]] if len(b.axes) == 2 else [])
    na = sum(len(x) for x in common[:len(am)])

    def expand(axes, idx):
        out, k = [], 0
        for x in axes:
            for c in x:
                if c.size == ONE:
                    out.append(ZERO)
                else:
                    out.append(idx[k]); k += 1
        return out

    def val(idx):
        def body(ks):
            return ga(expand(a.axes, list(idx[:na]) + ks)) * gb(expand(b.axes, ks + list(idx[na:])))
        return nest_sum([c.size for c in ck], body)
    r = from_elements(common, val)
    return r if common else mk(r.get([]))


def nest_sum(sizes, body, acc=()):
    if len(acc) == len(sizes):
        return body(list(acc))
    return SUMR(0, sizes[len(acc)], lambda i: nest_sum(sizes, body, acc + (i,)))


def reduce_sum(a, axis=None, keepdims=False, f=None):
    a = as_view(a)
    n = len(a.axes)
    if axis is None:
        red = set(range(n))
    elif isinstance(axis, tuple):
        red = {x % n for x in axis}
    else:
        red = {axis % n}
    g = freeze(a)
    common = []
    for k in range(n):
        if k in red:
            if keepdims:
                common.append([])
        else:
            common.append([c for c in a.axes[k] if c.size != ONE])
    sizes = [c.size for k in range(n) if k in red for c in a.axes[k] if c.size != ONE]

    def val(idx):
        def body(ks):
            out, i, j = [], 0, 0
            for k in range(n):
                for c in a.axes[k]:
                    if c.size == ONE:
                        out.append(ZERO)
                    elif k in red:
                        out.append(ks[j]); j += 1
                    else:
                        out.append(idx[i]); i += 1
            return g(out)
        return nest_sum(sizes, body)
    r = from_elements(common, val)
    return r if common else mk(r.get([]))


def reduce_max(a, axis, keepdims=False, op='MAX'):
    a = as_view(a)
    n = len(a.axes)
    if axis is None:
        if n != 1:
            raise Unsupported('max over all axes')
        axis = 0
    ax = axis % n
    red = [c for c in a.axes[ax] if c.size != ONE]
    if not red:
        return materialise(a if keepdims else View(a.st, a.axes[:ax] + a.axes[ax + 1:], a.base))
    if len(red) != 1:
        raise Unsupported('max over a merged axis')
    g = freeze(a)
    common = []
    for k in range(n):
        if k == ax:
            if keepdims:
                common.append([])
        else:
            common.append([c for c in a.axes[k] if c.size != ONE])

    def val(idx):
        def body(j):
            out, i = [], 0
            for k in range(n):
                for c in a.axes[k]:
                    if c.size == ONE:
                        out.append(ZERO)
                    elif k == ax:
                        out.append(j)
                    else:
                        out.append(idx[i]); i += 1
            return g(out)
        return bigmax(0, red[0].size, body, op)
    r = from_elements(common, val)
    return r if common else mk(r.get([]))


def reduce_arg(a, axis):
    """position of the first maximum along an axis"""
    from . import fastloop
    a = as_view(a)
    n = len(a.axes)
    if axis is None:
        if n != 1:
            raise Unsupported('argmax over all axes')
        axis = 0
    ax = axis % n
    red = [c for c in a.axes[ax] if c.size != ONE]
    common = [[c for c in a.axes[k] if c.size != ONE] for k in range(n) if k != ax]
    if len(red) > 1:
        raise Unsupported('argmax over a merged axis')
    g = freeze(a)
    INT_FUNCS.add('amp0')

    def val(idx):
        def at(j):
            out, i = [], 0
            for k in range(n):
                for c in a.axes[k]:
                    if c.size == ONE:
                        out.append(ZERO)
                    elif k == ax:
                        out.append(j)
                    else:
                        out.append(idx[i]); i += 1
            return g(out)
        if not red:
            return ZERO
        return func('amp0', at(ZERO) - 1, P(-1), fastloop.spec_list([(ZERO, red[0].size)], lambda q: (at(q[0]), q[0])))
    r = from_elements(common, val)
    return r if common else mk(r.get([]))


def reverse(a, ax):
    """a copy with one axis reversed"""
    g = freeze(a)
    common = [[c for c in x if c.size != ONE] for x in a.axes]

    def val(idx):
        out, i = [], 0
        for k, x in enumerate(a.axes):
            for c in x:
                if c.size == ONE:
                    out.append(ZERO)
                else:
                    out.append(c.size - 1 - idx[i] if k == ax else idx[i]); i += 1
        return g(out)
    r = from_elements(common, val)
    r.is_cond = getattr(a, 'is_cond', False)
    return r
