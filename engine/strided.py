"""Arrays as memory: a view is a buffer, an offset, a shape and strides (numpy's view semantics), all symbolic.
Used where a property is about which memory a name refers to, not about contents."""
from .poly import *
from .prover import *
from .prover import symbols
from .rt import *
from . import tensor


def eq(p, q):
    d = P(p) - P(q)
    if not d.terms:
        return True
    if d.is_const():
        return False
    # different polynomials are equal only by an equation among the facts
    if symbols(d) is not None and not any(isinstance(f, tuple) and isinstance(f[0], Poly) and (f[1] == 'eq' or f[0].is_const() or symbols(f[0]) is None) for f in Ctx.cur.facts):
        return False
    return prove_int(d, 'eq') is True


class Buf(object):
    def __init__(self, name, size):
        self.name, self.size = name, P(size)


class Arr(object):
    __array_ufunc__ = None

    def __init__(self, buf, off, sizes, strides):
        self.buf, self.off, self.sizes, self.strides = buf, P(off), [P(s) for s in sizes], [P(s) for s in strides]

    @property
    def shape(self):
        return tuple(mk(s) for s in self.sizes)

    @property
    def ndim(self):
        return len(self.sizes)

    @property
    def size(self):
        r = ONE
        for s in self.sizes:
            r = r * s
        return mk(r)

    def __symlen__(self):
        return mk(self.sizes[0])

    def __getitem__(self, key):
        key = key if isinstance(key, tuple) else (key,)
        if any(k is Ellipsis for k in key):
            n = sum(1 for k in key if k is not Ellipsis)
            out = []
            for k in key:
                out += [slice(None)] * (len(self.sizes) - n) if k is Ellipsis else [k]
            key = tuple(out)
        off, sizes, strides = self.off, [], []
        for i, (n, st) in enumerate(zip(self.sizes, self.strides)):
            k = key[i] if i < len(key) else slice(None)
            if isinstance(k, slice):
                if k.step not in (None, 1):
                    raise Unsupported('slice step')
                lo, hi, _ = tensor._slice(k, n)
                off = off + lo * st
                sizes.append(hi - lo)
                strides.append(st)
            else:
                p = P(k)
                if prove_int(p, 'lt') is True:
                    p = n + p
                off = off + p * st
        return Arr(self.buf, off, sizes, strides)

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        new = [P(s) for s in shape]
        total = ONE
        for x in new:
            total = total * x
        if not total.terms and not P(self.size).terms:      # no elements: any shape, any strides
            st, acc = [], ONE
            for x in reversed(new):
                st.insert(0, acc)
                acc = acc * x
            return Arr(self.buf, self.off, new, st)
        d = total - P(self.size)
        if not eq(d, ZERO):
            if (d.is_const() and d.const() != 0) or prove_int(d, 'eq') is False:
                raise ValueError('cannot reshape array of size %s into shape %s' % (self.size, shape))
            raise Unsupported('reshape of %s into %s' % ([show(s, 60) for s in self.sizes], [show(s, 60) for s in new]))
        # merge neighbouring axes that are contiguous, then split them as wanted
        old = [(n, st) for n, st in zip(self.sizes, self.strides) if n != ONE]
        sizes, strides = [], []
        i = 0
        while i < len(new):
            if new[i] == ONE and not (old and old[0][0] == ONE):
                sizes.append(ONE); strides.append(ONE)
                i += 1
                continue
            if not old:
                raise ValueError('cannot reshape %s into %s' % (self.shape, shape))
            n, st = old.pop(0)
            if eq(new[i], n):
                sizes.append(n); strides.append(st)
                i += 1
                continue
            # a run of new axes making up this (possibly merged) old axis
            done = False
            while True:
                prod, j = ONE, i
                while j < len(new):
                    prod = prod * new[j]
                    j += 1
                    if eq(prod, n):
                        # following axes of size one belong to nobody
                        done = True
                        break
                if done:
                    rest = [ONE]
                    for s in reversed(new[i + 1:j]):
                        rest.insert(0, rest[0] * s)
                    for s, r in zip(new[i:j], rest):
                        sizes.append(s); strides.append(st * r)
                    i = j
                    break
                if not old:
                    raise Unsupported('reshape of %s into %s' % ([show(s, 60) for s in self.sizes], [show(s, 60) for s in new]))
                n2, st2 = old.pop(0)
                if not eq(st, n2 * st2):
                    return allocate(new, 'copy')        # numpy copies: other memory
                n, st = n * n2, st2
        if old:
            raise ValueError('cannot reshape %s into %s' % (self.shape, shape))
        return Arr(self.buf, self.off, sizes, strides)

    def addr(self, idx):
        r = self.off
        for i, s in zip(idx, self.strides):
            r = r + P(i) * s
        return r

    def end(self):
        """one more than the address of the last element"""
        r = self.off + 1
        for n, s in zip(self.sizes, self.strides):
            r = r + (n - 1) * s
        return r

    def __repr__(self):
        return 'Arr(%s, %s, %s)' % (self.buf.name, show(self.off, 80), [show(s, 60) for s in self.sizes])


_k = [0]


def allocate(shape, name='mem'):
    sizes = [P(s) for s in (shape if isinstance(shape, (tuple, list)) else (shape,))]
    _k[0] += 1
    total, st = ONE, []
    for s in reversed(sizes):
        st.insert(0, total)
        total = total * s
    return Arr(Buf('%s%d' % (name, _k[0]), total), ZERO, sizes, st)


def nonneg(p, hard=False):
    """p >= 0, from the signs of its terms (all symbols are sizes) or by the solver"""
    p = P(p)
    if p.is_const():
        return p.const() >= 0
    lo = Ctx.cur.lower(p)
    if lo is not None and lo >= 0:
        return True
    return hard and prove_int(-p - 1, 'lt') is True


def disjoint(x, y):
    """no element of x has the address of an element of y"""
    if x.buf is not y.buf:
        return True
    return _disjoint(x, y, False) or _disjoint(x, y, True)


def _disjoint(x, y, hard):
    if nonneg(y.off - x.end(), hard) or nonneg(x.off - y.end(), hard):
        return True
    # rows of the same table: addresses modulo the row width D are those of the columns, if both lie within one row
    tried = []
    for D in list(x.strides) + list(y.strides):
        if D == ONE or any(D == q for q in tried):
            continue
        tried.append(D)
        lx, ly = rows_along(x, D), rows_along(y, D)
        if lx is None or ly is None:
            continue
        wx, wy = width(x, lx), width(y, ly)
        for d in residues(y.off - x.off, D):
            for a, b, dd in ((wx, wy, d), (wy, wx, -d)):
                if nonneg(dd - a, hard) and nonneg(D - dd - b, hard):
                    return True
    return False


def residues(d, D):
    """d and forms of it with a multiple of D taken away"""
    out = [d]
    for m, c in D.terms.items():
        if m.sums or c != 1 or len(m.atoms) != 1 or m.atoms[0][1] != 1:
            continue
        v = m.atoms[0][0]
        if any(m2 is not m and any(a == v for a, e in m2.atoms) for m2 in D.terms if m2 != m):
            continue
        q = ZERO
        for m2, c2 in d.terms.items():
            if any(a == v and e == 1 for a, e in m2.atoms):
                r = P(c2)
                for a, e in m2.atoms:
                    if a != v:
                        r = r * power(atom(a), e)
                q = q + r
        if q.terms:
            out.append(d - q * D)
    return out


def rows_along(a, D):
    """number of leading axes that step by multiples of D, if they are all those that do; None if unknown"""
    for k, s in enumerate(a.strides):
        if eq(s, D):
            if all(eq(a.strides[i], a.sizes[i + 1] * a.strides[i + 1]) for i in range(k)):
                return k + 1
            return None
    return 0


def width(a, lead):
    r = ONE
    for n, s in zip(a.sizes[lead:], a.strides[lead:]):
        r = r + (n - 1) * s
    return r


# ------------------------------------------------------------------ refutation at concrete sizes
def _syms(polys):
    out = set()

    def f(a):
        if a.kind == 'i':
            out.add(a.args[0])
        return None
    for p in polys:
        map_atoms(p, f)
    return sorted(out)


def instances(polys, n=60, seed=0):
    """concrete sizes that satisfy the facts of the current path"""
    import random
    r = random.Random(seed)
    facts = [f for f in Ctx.cur.facts if isinstance(f, tuple) and isinstance(f[0], Poly)]
    names = _syms(list(polys) + [f[0] for f in facts])
    for k in range(n):
        env = {x: r.choice([1, 1, 2, 2, 3, 4]) for x in names}
        if k % 3 == 2:
            for x in r.sample(names, min(len(names), 2)):
                env[x] = r.choice([0, 5, 9, 200])
        try:
            ok = all({'le': v <= 0, 'lt': v < 0, 'eq': v == 0, 'ne': v != 0}[kind] for v, kind in ((value(p, env), kind) for p, kind in facts))
        except ArithmeticError:
            continue
        if ok:
            yield env


def value(p, env):
    v = ev(P(p), env)
    return int(round(v))


def equal(p, q):
    """True: proved equal, False: different at some sizes; otherwise Unsupported"""
    if eq(p, q):
        return True
    d = P(p) - P(q)
    for env in instances([d]):
        if value(d, env) != 0:
            return False
    raise Unsupported('equality of %s and %s' % (show(P(p), 100), show(P(q), 100)))


def touches(x, y):
    """False: proved disjoint, True: a common element at some sizes; otherwise Unsupported"""
    if disjoint(x, y):
        return False
    import itertools
    for env in instances([x.off, y.off] + x.sizes + y.sizes + x.strides + y.strides):
        def addrs(a):
            ns, ss = [value(s, env) for s in a.sizes], [value(s, env) for s in a.strides]
            t = 1
            for n in ns:
                t *= max(n, 0)
            if t > 200000:
                return None
            o = value(a.off, env)
            return set(o + sum(i * s for i, s in zip(idx, ss)) for idx in itertools.product(*[range(n) for n in ns]))
        p, q = addrs(x), addrs(y)
        if p and q and p & q:
            return True
    raise Unsupported('whether %s and %s overlap' % (x, y))
