"""Normal form for the arithmetic of obligations.

A value is a polynomial: a sum of   coeff * SUM_{bound integer variables in ranges} PRODUCT atom^exponent .
Atoms: scalar symbols, array reads at index polynomials, Iverson brackets [P<0] / [P==0], exp(monomial),
opaque functions, non-monomial powers, binder functions (max over an axis).
Every constructor returns the normal form, so two values are equal when their forms coincide; `Prover.zero` adds case
splitting over brackets (feasibility by z3) and the arithmetic of summation ranges.
All arithmetic is over the reals / mathematical integers."""
from fractions import Fraction
from itertools import permutations, count
import math

F0, F1 = Fraction(0), Fraction(1)
_fresh = count(1)


class Unsupported(Exception):
    pass


class Poly(object):
    __slots__ = ('terms', '_key', '_free', '_int')

    def __init__(self, terms):
        self.terms = terms
        self._key = None
        self._free = None
        self._int = None

    @property
    def key(self):
        if self._key is None:
            self._key = '+'.join('%s*%s' % (c, m.key) for m, c in sorted(self.terms.items(), key=lambda mc: mc[0].key)) or '0'
        return self._key

    def __eq__(self, o):
        return isinstance(o, Poly) and self.key == o.key

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return show(self)

    # arithmetic -----------------------------------------------------------
    def __add__(self, o):
        o = P(o)
        if not o.terms:
            return self
        if not self.terms:
            return o
        d = dict(self.terms)
        for m, c in o.terms.items():
            n = d.get(m, F0) + c
            if n:
                d[m] = n
            else:
                d.pop(m, None)
        return Poly(d)
    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.terms.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) + (-self)

    def __mul__(self, o):
        o = P(o)
        if not self.terms or not o.terms:
            return ZERO
        if o.is_const():
            k = o.const()
            return self if k == 1 else Poly({m: c * k for m, c in self.terms.items()})
        if self.is_const():
            return o * self
        out = {}
        for m1, c1 in self.terms.items():
            for m2, c2 in o.terms.items():
                for m, c in mono_mul(m1, m2).terms.items():
                    n = out.get(m, F0) + c * c1 * c2
                    if n:
                        out[m] = n
                    else:
                        out.pop(m, None)
        return Poly(out)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * power(P(o), Fraction(-1))

    def __rtruediv__(self, o):
        return P(o) * power(self, Fraction(-1))

    def __pow__(self, e):
        return power(self, Fraction(e))

    # queries ---------------------------------------------------------------
    def is_const(self):
        return not self.terms or (len(self.terms) == 1 and ONE_M in self.terms)

    def const(self):
        return self.terms.get(ONE_M, F0)

    def free(self):
        """bound-variable ids occurring free"""
        if self._free is None:
            s = set()
            for m in self.terms:
                s |= m.free()
            self._free = frozenset(s)
        return self._free

    def is_int(self):
        if self._int is None:
            self._int = all(c.denominator == 1 and m.is_int() for m, c in self.terms.items())
        return self._int


class Mono(object):
    """sums: tuple of (bid, lo, hi);  atoms: tuple of (atom, exponent) sorted by atom key"""
    __slots__ = ('sums', 'atoms', '_key', '_free', 'level')

    def __init__(self, sums, atoms):
        self.sums = sums
        self.atoms = atoms
        self._key = None
        self._free = None
        self.level = max([a.level for a, _ in atoms] + [s[0] for s in sums if s[0] < TEMP] + [lv(p) for s in sums for p in s[1:]] + [0])

    @property
    def key(self):
        if self._key is None:
            k = '.'.join(a.key if e == 1 else '%s^%s' % (a.key, e) for a, e in self.atoms)
            if self.sums:
                k = 'S{' + ','.join('b%d:%s:%s' % (b, lo.key, hi.key) for b, lo, hi in self.sums) + '}' + k
            self._key = '<' + k + '>'
        return self._key

    def __eq__(self, o):
        return isinstance(o, Mono) and self.key == o.key

    def __hash__(self):
        return hash(self.key)

    def free(self):
        if self._free is None:
            s = set()
            for a, _ in self.atoms:
                s |= a.free()
            for b, lo, hi in self.sums:
                s |= lo.free() | hi.free()
            for b, lo, hi in self.sums:
                s.discard(b)
            self._free = frozenset(s)
        return self._free

    def is_int(self):
        return all(e.denominator == 1 and e > 0 and a.is_int() for a, e in self.atoms)


TEMP = 10 ** 6      # ids >= TEMP are temporaries / free index variables handed out by fresh_b


class Atom(object):
    __slots__ = ('kind', 'args', '_key', '_free', 'level')

    def __init__(self, kind, *args):
        self.kind = kind
        self.args = args
        self._key = None
        self._free = None
        self.level = max([lv(x) for x in self._polys()] + [args[3] if kind == 'g' else 0, 0])

    def _polys(self):
        k, a = self.kind, self.args
        if k in ('s', 'i', 'b'):
            return ()
        if k in ('r', 'f'):
            return a[1]
        if k in ('p', 'e'):
            return (a[0],)
        if k in ('lt', 'eq'):
            return (a[0],)
        if k == 'g':          # op, lo, hi, bid, body
            return (a[1], a[2], a[4])
        raise AssertionError(k)

    @property
    def key(self):
        if self._key is None:
            k, a = self.kind, self.args
            if k in ('s', 'i'):
                self._key = '%s' % a[0]
            elif k == 'b':
                self._key = 'b%d' % a[0]
            elif k in ('r', 'f'):
                self._key = '%s%s(%s)' % ('' if k == 'r' else '@', a[0], ';'.join(p.key for p in a[1]))
            elif k in ('p', 'e'):
                self._key = '%s(%s)' % ('POW' if k == 'p' else 'EXP', a[0].key)
            elif k in ('lt', 'eq'):
                self._key = '[%s%s0]' % (a[0].key, '<' if k == 'lt' else '=')
            else:
                self._key = '%s{b%d:%s:%s}(%s)' % (a[0], a[3], a[1].key, a[2].key, a[4].key)
        return self._key

    def __eq__(self, o):
        return isinstance(o, Atom) and self.kind == o.kind and self.key == o.key

    def __hash__(self):
        return hash(self.key)

    def free(self):
        if self._free is None:
            if self.kind == 'b':
                self._free = frozenset([self.args[0]])
            else:
                s = set()
                for p in self._polys():
                    s |= p.free()
                if self.kind == 'g':
                    s.discard(self.args[3])
                self._free = frozenset(s)
        return self._free

    def is_int(self):
        if self.kind in ('i', 'b', 'lt', 'eq'):
            return True
        if self.kind == 'r':
            return self.args[0] in INT_ARRAYS
        if self.kind == 'f':
            return self.args[0] in INT_FUNCS
        if self.kind == 'g' and self.args[0] == 'MAX':
            return self.args[4].is_int()
        return False


INT_ARRAYS = set()
INT_FUNCS = {'floordiv', 'mod', 'imin', 'imax', 'floor'}


def lv(p):
    return max([m.level for m in p.terms] + [0])


ONE_M = Mono((), ())
ZERO = Poly({})
ONE = Poly({ONE_M: F1})


def P(x):
    if isinstance(x, Poly):
        return x
    if hasattr(x, 'poly'):
        return x.poly
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, int):
        return Poly({ONE_M: Fraction(x)}) if x else ZERO
    if isinstance(x, Fraction):
        return Poly({ONE_M: x}) if x else ZERO
    if isinstance(x, float):
        if not math.isfinite(x):
            return sym('inf') if x > 0 else -sym('inf')
        # decimal literals such as 0.1 stand for the decimal number they print as
        fr = Fraction(repr(x))
        return Poly({ONE_M: fr}) if fr else ZERO
    try:
        import numpy as np
        if isinstance(x, np.generic) or (isinstance(x, np.ndarray) and x.shape == ()):
            return P(x.item())
    except ImportError:
        pass
    raise Unsupported('not a number: %r' % (x,))


def atom(a, e=F1):
    return Poly({Mono((), ((a, Fraction(e)),)): F1})


def sym(name):
    return atom(Atom('s', name))


def isym(name):
    return atom(Atom('i', name))


def bvar(k):
    return atom(Atom('b', k))


def fresh_b():
    return TEMP + next(_fresh)


def rd(name, *idx):
    return atom(Atom('r', name, tuple(P(i) for i in idx)))


# ------------------------------------------------------------------ monomials
def _norm_atoms(pairs):
    """pairs: iterable of (atom, exp) -> (list sorted merged) or None if zero"""
    d = {}
    for a, e in pairs:
        if a.kind in ('lt', 'eq'):
            d[a] = F1
        else:
            d[a] = d.get(a, F0) + e
    out = [(a, e) for a, e in d.items() if e]
    ks = {}
    for a, e in out:
        if a.kind in ('lt', 'eq'):
            ks.setdefault(a.args[0].key, set()).add(a.kind)
    for v in ks.values():
        if len(v) > 1:
            return None
    out.sort(key=lambda ae: ae[0].key)
    return tuple(out)


def mono_mul(m1, m2):
    if m1 is ONE_M or not (m1.sums or m1.atoms):
        return Poly({m2: F1})
    if not (m2.sums or m2.atoms):
        return Poly({m1: F1})
    if not m1.sums and not m2.sums:
        return finish((), m1.atoms + m2.atoms)
    s1, a1 = open_mono(m1)
    s2, a2 = open_mono(m2)
    return close_sums(s1 + s2, finish((), a1 + a2))


def finish(sums, atoms):
    """product of atoms, merging and re-expanding positive integer powers of POW atoms"""
    at = _norm_atoms(atoms)
    if at is None:
        return ZERO
    exp = [(a, e) for a, e in at if a.kind == 'p' and e.denominator == 1 and e > 0]
    if exp:
        rest = tuple((a, e) for a, e in at if not (a.kind == 'p' and e.denominator == 1 and e > 0))
        r = Poly({Mono(sums, rest): F1})
        for a, e in exp:
            for _ in range(int(e)):
                r = r * a.args[0]
        return r
    return Poly({Mono(sums, at): F1})


def open_mono(m):
    """rename the bound variables of m to fresh temporaries"""
    if not m.sums:
        return (), m.atoms
    sub = {}
    for b, lo, hi in m.sums:
        sub[b] = bvar(fresh_b())
    sums = tuple((_bid(sub[b]), substitute(lo, sub), substitute(hi, sub)) for b, lo, hi in m.sums)
    atoms = _rename_atoms(m.atoms, sub)
    return sums, atoms


def _bid(p):
    (m,) = p.terms
    return m.atoms[0][0].args[0]


def _rename_atoms(atoms, sub):
    """substitution of variables by variables keeps every atom an atom"""
    out = []
    for a, e in atoms:
        p = subst_atom(a, sub)
        (m,), (c,) = zip(*p.terms.items()) if len(p.terms) == 1 else ((None,), (None,))
        if m is None or c != 1 or m.sums or len(m.atoms) != 1 or m.atoms[0][1] != 1:
            raise Unsupported('rename changed the shape of an atom: %s -> %s' % (a.key, p.key))
        out.append((m.atoms[0][0], e))
    return tuple(out)


def close_sums(sums, body):
    """SUM over the variables (temporaries) of a polynomial body"""
    r = body
    for b, lo, hi in reversed(sums):
        r = sum_over(b, lo, hi, r)
    return r


class Ctx(object):
    """facts about the integer symbols, used to simplify brackets; installed with `with ctx:`"""
    cur = None


def prove_int(cond_poly, kind, extra=()):
    c = Ctx.cur
    if c is None:
        return None
    return c.decide(cond_poly, kind, extra)


def _lin_in(p, b):
    """p = k*b + rest with k constant and rest free of b -> (k, rest) or None"""
    k, rest = F0, {}
    for m, c in p.terms.items():
        if b not in m.free():
            rest[m] = c
        elif not m.sums and len(m.atoms) == 1 and m.atoms[0][0].kind == 'b' and m.atoms[0][1] == 1:
            k += c
        else:
            return None
    return k, Poly(rest)


def _offsets(atoms, b):
    """constant offsets c with which b occurs as b + c (+ other index symbols free of b) in reads"""
    offs = []

    def visit(p):
        l = _lin_in(p, b)
        if l is not None and l[0] == 1:
            offs.append(l[1].const() if l[1].is_const() else None)
            return
        for m in p.terms:
            for a, e in m.atoms:
                if b in a.free():
                    if a.kind == 'b':
                        offs.append(None)
                    else:
                        for q in a._polys():
                            if b in q.free():
                                visit(q)
            for _, lo, hi in m.sums:
                for q in (lo, hi):
                    if b in q.free():
                        visit(q)
    for a, e in atoms:
        if a.kind == 'b':
            if a.args[0] == b:
                offs.append(F0)
        elif a.kind in ('lt', 'eq'):
            continue
        else:
            for q in a._polys():
                if b in q.free():
                    visit(q)
    return offs


MAX_UNROLL = 6


def sum_over(b, lo, hi, body):
    lo, hi = P(lo), P(hi)
    out = ZERO
    rng = ((b, lo, hi),)
    d = hi - lo
    for q in (lo, hi):
        br = _some_bracket(q)
        if br is not None:
            k = atom(br)
            return (k * sum_over(b, assign(lo, br, 1), assign(hi, br, 1), assign(body, br, 1))
                    + (1 - k) * sum_over(b, assign(lo, br, 0), assign(hi, br, 0), assign(body, br, 0)))
    if d.is_const() and d.const() <= MAX_UNROLL:
        for k in range(int(max(0, d.const()))):
            out = out + substitute(body, {b: lo + k})
        return out
    for m, c in body.terms.items():
        out = out + _sum_mono(b, lo, hi, m) * c
    return out


def _count(lo, hi):
    """number of elements of [lo, hi)"""
    d = hi - lo
    if prove_int(d, 'lt') is False:
        return d
    return d * (1 - lt0(d, True))


def _sum_mono(b, lo, hi, m):
    if b not in m.free():
        return Poly({m: F1}) * _count(lo, hi)
    sums, atoms = open_mono(m)
    # Kronecker brackets
    for i, (a, e) in enumerate(atoms):
        if a.kind == 'eq' and b in a.free():
            l = _lin_in(a.args[0], b)
            if l is not None and abs(l[0]) == 1:
                val = l[1] * (-1 / l[0])
                bs = {s[0] for s in sums}
                if val.free() & bs:
                    continue
                rest = atoms[:i] + atoms[i + 1:]
                r = close_sums(tuple((s, substitute(x, {b: val}), substitute(y, {b: val})) for s, x, y in sums),
                               substitute(finish((), rest), {b: val}))
                return r * lt0(lo - val - 1, True) * lt0(val - hi, True)
    # range guards
    for i, (a, e) in enumerate(atoms):
        if a.kind == 'lt' and b in a.free() and a.args[0].is_int():
            l = _lin_in(a.args[0], b)
            if l is None or abs(l[0]) != 1:
                continue
            rest_p = l[1]
            bs = {s[0] for s in sums}
            if rest_p.free() & bs:
                continue
            rest = atoms[:i] + atoms[i + 1:]
            if l[0] == 1:        # b < -rest
                h2 = -rest_p
                d = prove_int(h2 - hi, 'lt')          # h2 < hi ?
                e_ = prove_int(lo - h2 - 1, 'lt')     # lo <= h2 ?
                if d is True and e_ is True:
                    return sum_over(b, lo, h2, close_sums(sums, finish((), rest)))
                if prove_int(hi - h2 - 1, 'lt') is True:      # guard implied
                    return sum_over(b, lo, hi, close_sums(sums, finish((), rest)))
            else:                # -b + rest < 0: b > rest : b >= rest+1
                l2 = rest_p + 1
                if prove_int(l2 - lo - 1, 'lt') is True:
                    return sum_over(b, lo, hi, close_sums(sums, finish((), rest)))
                if prove_int(lo - l2 - 1, 'lt') is True and prove_int(l2 - hi - 1, 'lt') is True:
                    return sum_over(b, l2, hi, close_sums(sums, finish((), rest)))
    # align the variable: smallest constant offset becomes 0
    offs = _offsets(atoms, b)
    if offs and None not in offs:
        k = min(offs)
        if k != 0 and k.denominator == 1:
            body = substitute(close_sums(sums, finish((), atoms)), {b: bvar(b) - k})
            r = ZERO
            for mm, cc in body.terms.items():
                r = r + _sum_mono2(b, lo + k, hi + k, mm) * cc
            return r
    return _canon(sums + ((b, lo, hi),), atoms)


def _sum_mono2(b, lo, hi, m):
    if b not in m.free():
        return Poly({m: F1}) * _count(lo, hi)
    sums, atoms = open_mono(m)
    return _canon(sums + ((b, lo, hi),), atoms)


def _canon(sums, atoms):
    """canonical names and order of the bound variables of one monomial"""
    at = _norm_atoms(atoms)
    if at is None:
        return ZERO
    base = max([a.level for a, _ in at] + [lv(x) for s in sums for x in s[1:]] + [0])
    n = len(sums)
    if n == 1:
        perms = [(0,)]
    else:
        # dependencies: a range may mention another bound variable, which has to come first
        ids = [s[0] for s in sums]
        sig = []
        for s in sums:
            occ = sorted((_skel(a, s[0]), str(e)) for a, e in at if s[0] in a.free())
            sig.append((repr(occ), s[1].key if not (s[1].free() & set(ids)) else '?', s[2].key if not (s[2].free() & set(ids)) else '?'))
        order = sorted(range(n), key=lambda i: sig[i])
        groups, cur = [], [order[0]]
        for i in order[1:]:
            if sig[i] == sig[cur[0]]:
                cur.append(i)
            else:
                groups.append(cur); cur = [i]
        groups.append(cur)
        perms = [()]
        for g in groups:
            perms = [p + q for p in perms for q in permutations(g)]
        if len(perms) > 800:
            raise Unsupported('too many bound variables')

        def ok(p):
            seen = set()
            for i in p:
                for x in sums[i][1:]:
                    if (x.free() & set(ids)) - seen:
                        return False
                seen.add(ids[i])
            return True
        good = [p for p in perms if ok(p)]
        if not good:
            good = [p for p in permutations(range(n)) if ok(p)]
        perms = good
    best = None
    for p in perms:
        sub = {sums[i][0]: bvar(base + 1 + j) for j, i in enumerate(p)}
        ns = tuple((base + 1 + j, substitute(sums[i][1], sub), substitute(sums[i][2], sub)) for j, i in enumerate(p))
        body = ONE
        na = []
        ok_ = True
        for a, e in at:
            q = subst_atom(a, sub)
            if len(q.terms) == 1:
                (mm, cc), = q.terms.items()
                if cc == 1 and not mm.sums and len(mm.atoms) == 1 and mm.atoms[0][1] == 1:
                    na.append((mm.atoms[0][0], e)); continue
            raise Unsupported('canonical renaming changed an atom: %s' % a.key)
        at2 = _norm_atoms(na)
        if at2 is None:
            return ZERO
        m = Mono(ns, at2)
        if best is None or m.key < best.key:
            best = m
    return Poly({best: F1})


def _skel(a, b):
    """shape of an atom with the variable b marked and other bound temporaries blanked"""
    import re
    return re.sub(r'\bb(\d+)\b', lambda m: 'X' if int(m.group(1)) == b else '_', a.key)


def SUM(lo, hi, f):
    b = fresh_b()
    return sum_over(b, P(lo), P(hi), P(f(bvar(b))))


# ------------------------------------------------------------------ functions
def content(p):
    """common factor (monomial without sums, coefficient) of all terms"""
    first = True
    com = {}
    for m in p.terms:
        d = {a: e for a, e in m.atoms if a.kind not in ('lt', 'eq') and not (a.free() & {s[0] for s in m.sums})}
        if first:
            com = d; first = False
        else:
            com = {a: min(com[a], d[a]) if com[a] * d[a] > 0 else F0 for a in com if a in d}
            com = {a: e for a, e in com.items() if e}
    cs = sorted(p.terms.items(), key=lambda mc: mc[0].key)
    c = cs[0][1]
    return com, c


def power(p, e):
    if e == 1:
        return p
    if e == 0:
        return ONE
    br = _some_bracket(p)
    if br is not None and not (e.denominator == 1 and e > 0):
        return shannon(br, p, lambda q: power(q, e))
    if not p.terms:
        if e > 0:
            return ZERO
        raise Unsupported('division by zero')
    if len(p.terms) == 1:
        (m, c), = p.terms.items()
        if not m.sums:
            if c == 1 or e.denominator == 1:
                return finish((), [(a, x * e) for a, x in m.atoms]) * (c ** int(e) if e.denominator == 1 else 1)
    if e.denominator == 1 and 0 < e <= 8:
        r = p
        for _ in range(int(e) - 1):
            r = r * p
        return r
    com, c = content(p)
    if e.denominator != 1:
        # only positive factors may be pulled out of a root
        com = {a: x for a, x in com.items() if a.kind == 'e'}
        sgn = 1
        k = abs(c)
        rt = None
        q = p
        for a, x in com.items():
            q = q * atom(a, -x)
        out = atom(Atom('p', q), e)
        for a, x in com.items():
            out = out * atom(a, x * e)
        return out
    q = p * (1 / c)
    for a, x in com.items():
        q = q * atom(a, -x)
    out = atom(Atom('p', q), e) if not q.is_const() else P(q.const() ** int(e))
    for a, x in com.items():
        out = out * atom(a, x * e)
    return out * (c ** int(e))


def _some_bracket(p, bound=False):
    """a bracket atom occurring in p, not mentioning variables bound inside p"""
    for m in sorted(p.terms, key=lambda m: m.key):
        bs = {s[0] for s in m.sums}
        for a, e in m.atoms:
            if a.kind in ('lt', 'eq') and not (a.free() & bs):
                return a
    return None


def _deep_bracket(p, bs=frozenset()):
    """as _some_bracket but also inside function arguments"""
    for m in sorted(p.terms, key=lambda m: m.key):
        b2 = bs | {s[0] for s in m.sums}
        for a, e in m.atoms:
            if a.kind in ('lt', 'eq') and not (a.free() & b2):
                return a
            for q in a._polys():
                r = _deep_bracket(q, b2 | ({a.args[3]} if a.kind == 'g' else set()))
                if r is not None:
                    return r
    return None


def assign(p, br, val):
    """p with the bracket br replaced by 0/1 (and its exclusive partner by 0 when br=1)"""
    def f(a):
        if a.kind in ('lt', 'eq') and a.args[0] == br.args[0]:
            if a.kind == br.kind:
                return ONE if val else ZERO
            if val:
                return ZERO
        return None
    return map_atoms(p, f)


def shannon(br, p, f):
    k = atom(br)
    return k * f(assign(p, br, 1)) + (1 - k) * f(assign(p, br, 0))


def exp(p):
    p = P(p)
    br = _some_bracket(p)
    if br is not None:
        return shannon(br, p, exp)
    r = ONE
    for m, c in p.terms.items():
        if m is ONE_M or m == ONE_M:
            r = r * atom(Atom('e', ONE), c)
        else:
            r = r * atom(Atom('e', Poly({m: F1})), c)
    return r


def log(p):
    p = P(p)
    br = _some_bracket(p)
    if br is not None:
        return shannon(br, p, log)
    if p == ONE:
        return ZERO
    if len(p.terms) == 1:
        (m, c), = p.terms.items()
        if not m.sums and c > 0:
            ex = [(a, e) for a, e in m.atoms if a.kind == 'e']
            rest = tuple((a, e) for a, e in m.atoms if a.kind != 'e')
            if ex:
                r = log(Poly({Mono((), rest): c}))
                for a, e in ex:
                    r = r + a.args[0] * e
                return r
            if len(m.atoms) == 1 and c == 1 and m.atoms[0][0].kind == 'p' and e_odd(m.atoms[0][1]):
                return log(m.atoms[0][0].args[0]) * m.atoms[0][1]
    return atom(Atom('f', 'log', (p,)))


def e_odd(e):
    return e.denominator == 1 and e.numerator % 2 and e != 1


def func(name, *args):
    """opaque function, case-split on brackets in its arguments"""
    args = tuple(P(a) for a in args)
    if name == 'imax':
        return imax(*args)
    if name == 'imin':
        return imin(*args)
    for i, p in enumerate(args):
        br = _some_bracket(p)
        if br is not None:
            k = atom(br)
            return (k * func(name, *[assign(q, br, 1) for q in args]) + (1 - k) * func(name, *[assign(q, br, 0) for q in args]))
    if all(a.is_const() for a in args):
        v = _const_fn(name, [a.const() for a in args])
        if v is not None:
            return P(v)
    if name == 'fmod' and not args[0].terms:
        return ZERO
    if name in ('floordiv', 'mod') and args[1] == ONE:
        return args[0] if name == 'floordiv' else ZERO
    return atom(Atom('f', name, args))


def _const_fn(name, v):
    if name in ('floordiv', 'mod') and all(x.denominator == 1 for x in v) and v[1] != 0:
        return int(v[0]) // int(v[1]) if name == 'floordiv' else int(v[0]) % int(v[1])
    if name == 'floor':
        return v[0].numerator // v[0].denominator
    if name in ('tanh', 'rel', 'el') and v[0] == 0:
        return 0
    if name == 'sigmoid' and v[0] == 0:
        return Fraction(1, 2)
    return None


def bigmax(lo, hi, f, op='MAX'):
    b = fresh_b()
    body = P(f(bvar(b)))
    return _mk_big(op, P(lo), P(hi), b, body)


def _mk_big(op, lo, hi, b, body):
    d = hi - lo
    if d == ONE:
        return substitute(body, {b: lo})
    if op in ('MAX', 'MIN') and b not in body.free() and prove_int(-d, 'lt') is True:
        return body
    base = max(lv(body), lv(lo), lv(hi))
    nb = base + 1
    return atom(Atom('g', op, lo, hi, nb, substitute(body, {b: bvar(nb)})))


# ------------------------------------------------------------------ brackets
def lt0(p, is_int=None):
    """[p < 0]"""
    p = P(p)
    if is_int is None:
        is_int = p.is_int()
    if p.is_const():
        return ONE if p.const() < 0 else ZERO
    br = _deep_bracket(p)
    if br is not None:
        return shannon(br, p, lambda q: lt0(q, is_int))
    q = _monotone(p)
    if q is not None:
        return lt0(q, False)
    if is_int:
        d = prove_int(p, 'lt')
        if d is True:
            return ONE
        if d is False:
            return ZERO
    lead = _lead(p)
    if is_int:
        if lead < 0:
            # p<0  <=>  not (p>=0)  <=> not (-p-1 < 0)
            return ONE - atom(Atom('lt', -p - 1))
        return atom(Atom('lt', p))
    s = 1 / abs(lead)
    if s != 1:
        p = p * s
    if lead < 0:
        q = -p
        return ONE - atom(Atom('lt', q)) - atom(Atom('eq', q))
    return atom(Atom('lt', p))


def eq0(p, is_int=None):
    p = P(p)
    if is_int is None:
        is_int = p.is_int()
    if p.is_const():
        return ONE if p.const() == 0 else ZERO
    br = _deep_bracket(p)
    if br is not None:
        return shannon(br, p, lambda q: eq0(q, is_int))
    q = _monotone(p)
    if q is not None:
        return eq0(q, False)
    if is_int:
        d = prove_int(p, 'eq')
        if d is True:
            return ONE
        if d is False:
            return ZERO
    lead = _lead(p)
    p = p * (1 / lead) if not is_int else (p if lead > 0 else -p)
    return atom(Atom('eq', p))


def _lead(p):
    ms = sorted((m for m in p.terms if m != ONE_M), key=lambda m: m.key)
    return p.terms[ms[0]]


def _monotone(p):
    """c*exp(Q) - c compared with 0 is Q compared with 0 (up to the sign of c); a sum of positives is positive"""
    if len(p.terms) == 2 and ONE_M in p.terms:
        (m, c), = [(m, c) for m, c in p.terms.items() if m != ONE_M]
        if not m.sums and all(a.kind == 'e' for a, e in m.atoms) and c == -p.terms[ONE_M]:
            q = ZERO
            for a, e in m.atoms:
                q = q + a.args[0] * e
            return q if c > 0 else -q
    return None


def le0(p, is_int=None):
    p = P(p)
    if is_int is None:
        is_int = p.is_int()
    if is_int:
        return lt0(p - 1, True)
    return lt0(p, False) + eq0(p, False)


def ite(cond01, a, b):
    return cond01 * P(a) + (1 - cond01) * P(b)


def rmax(a, b):
    a, b = P(a), P(b)
    if (a - b).is_const():
        return a if (a - b).const() >= 0 else b
    return ite(lt0(a - b), b, a)


def rmin(a, b):
    a, b = P(a), P(b)
    if (a - b).is_const():
        return a if (a - b).const() <= 0 else b
    return ite(lt0(b - a), b, a)


def imax(a, b):
    """maximum of integers, kept as one atom when open"""
    return _ext('imax', P(a), P(b))


def imin(a, b):
    return _ext('imin', P(a), P(b))


def _ext(name, a, b):
    d = a - b
    if d.is_const():
        ge = d.const() >= 0
    else:
        r = prove_int(d, 'lt')
        if r is None and prove_int(-d, 'lt') is True:
            r = False
        if r is None:
            x, y = sorted((a, b), key=lambda q: q.key)
            return atom(Atom('f', name, (x, y)))
        ge = not r
    return a if ge == (name == 'imax') else b


def absval(p):
    p = P(p)
    return p * (ONE - 2 * lt0(p))


def sign(p):
    p = P(p)
    return ONE - 2 * lt0(p) - eq0(p)


# ------------------------------------------------------------------ substitution
_scache = {}


def substitute(p, sub):
    """sub: bound id -> Poly"""
    if not sub or not (p.free() & set(sub)):
        return p
    ck = (p.key, tuple(sorted((k, v.key) for k, v in sub.items())), Ctx.cur.version() if Ctx.cur else 0)
    r = _scache.get(ck)
    if r is not None:
        return r
    out = ZERO
    for m, c in p.terms.items():
        out = out + subst_mono(m, sub) * c
    _scache[ck] = out
    if len(_scache) > 400000:
        _scache.clear()
    return out


def subst_mono(m, sub):
    sub = {k: v for k, v in sub.items() if k in m.free()}
    if not sub:
        return Poly({m: F1})
    if m.sums:
        sums, atoms = open_mono(m)
        sums = tuple((b, substitute(lo, sub), substitute(hi, sub)) for b, lo, hi in sums)
    else:
        sums, atoms = (), m.atoms
    r = ONE
    keep = []
    for a, e in atoms:
        if a.free() & set(sub):
            q = subst_atom(a, sub)
            r = r * (q if e == 1 else power(q, e))
        else:
            keep.append((a, e))
    r = r * finish((), keep)
    return close_sums(sums, r)


def subst_atom(a, sub):
    if not (a.free() & set(sub)):
        return atom(a)
    return rebuild(a, lambda q: substitute(q, sub), sub)


def rebuild(a, f, sub=None):
    k, g = a.kind, a.args
    if k == 'b':
        return (sub or {}).get(g[0], atom(a))
    if k in ('s', 'i'):
        return atom(a)
    if k == 'r':
        return atom(Atom('r', g[0], tuple(f(p) for p in g[1])))
    if k == 'f':
        if g[0] == 'log':
            return log(f(g[1][0]))
        return func(g[0], *[f(p) for p in g[1]])
    if k == 'p':
        q = f(g[0])
        return q if q.is_const() or len(q.terms) == 1 else atom(Atom('p', q))
    if k == 'e':
        return exp(f(g[0]))
    if k == 'lt':
        return lt0(f(g[0]), g[0].is_int())
    if k == 'eq':
        return eq0(f(g[0]), g[0].is_int())
    if k == 'g':
        b = fresh_b()
        body = substitute(g[4], {g[3]: bvar(b)})
        if g[0] == 'LIST':
            from . import fastloop
            return fastloop._big('LIST', f(g[1]), f(g[2]), b, f(body))
        return _mk_big(g[0], f(g[1]), f(g[2]), b, f(body))
    raise AssertionError(k)


def map_atoms(p, f):
    """replace atoms bottom-up: f(atom) -> Poly or None (keep, with rebuilt arguments)"""
    out = ZERO
    for m, c in p.terms.items():
        sums, atoms = open_mono(m)
        r = P(c)
        for a, e in atoms:
            q = f(a)
            if q is None:
                q = rebuild(a, lambda x: map_atoms(x, f)) if a._polys() else atom(a)
            r = r * (q if e == 1 else power(q, e))
            if not r.terms:
                break
        if sums and r.terms:
            sums = tuple((b, map_atoms(lo, f), map_atoms(hi, f)) for b, lo, hi in sums)
            r = close_sums(sums, r)
        out = out + r
    return out


def replace_reads(p, name_map):
    """name_map: array -> function(idx tuple) -> Poly"""
    def f(a):
        if a.kind == 'r' and a.args[0] in name_map:
            return P(name_map[a.args[0]](*[replace_reads(i, name_map) for i in a.args[1]]))
        return None
    return map_atoms(p, f)


def replace_syms(p, smap):
    """smap: symbol name -> Poly (scalar / integer symbols)"""
    def f(a):
        if a.kind in ('s', 'i') and a.args[0] in smap:
            return P(smap[a.args[0]])
        return None
    return map_atoms(p, f)


def arrays_in(p, acc=None):
    acc = set() if acc is None else acc
    for m in p.terms:
        for a, e in m.atoms:
            if a.kind == 'r':
                acc.add(a.args[0])
            for q in a._polys():
                arrays_in(q, acc)
        for b, lo, hi in m.sums:
            arrays_in(lo, acc); arrays_in(hi, acc)
    return acc


def syms_in(p, acc=None):
    acc = set() if acc is None else acc
    for m in p.terms:
        for a, e in m.atoms:
            if a.kind in ('s', 'i'):
                acc.add(a.args[0])
            for q in a._polys():
                syms_in(q, acc)
        for b, lo, hi in m.sums:
            syms_in(lo, acc); syms_in(hi, acc)
    return acc


# ------------------------------------------------------------------ derivative
OPAQUE = [False]        # derivatives of tanh and sigmoid kept as symbols f'(x, f(x))
DERIV = {
    'tanh': lambda x, v: func('tanh_d', v) if OPAQUE[0] else 1 - v * v,
    'sigmoid': lambda x, v: func('sigmoid_d', v) if OPAQUE[0] else v * (1 - v),
    'rel': lambda x, v: func('rel_d', v),
    'el': lambda x, v: func('el_d', v),
    'log': lambda x, v: power(x, Fraction(-1)),
}


def diff(p, arr, idx):
    """derivative of p with respect to the element arr(idx); brackets are locally constant (a.e. derivative)"""
    out = ZERO
    for m, c in p.terms.items():
        sums, atoms = open_mono(m)
        for i, (a, e) in enumerate(atoms):
            if arr not in arrays_in(atom(a)):
                continue
            da = diff_atom(a, arr, idx)
            if not da.terms:
                continue
            rest = finish((), atoms[:i] + atoms[i + 1:] + ((a, e - 1),)) * e
            out = out + close_sums(sums, rest * da) * c
    return out


def diff_atom(a, arr, idx):
    k, g = a.kind, a.args
    if k == 'r':
        if g[0] != arr:
            return ZERO
        r = ONE
        for x, y in zip(g[1], idx):
            r = r * eq0(x - P(y), True)
        return r
    if k in ('lt', 'eq'):
        return ZERO
    if k == 'e':
        return atom(a) * diff(g[0], arr, idx)
    if k == 'p':
        return diff(g[0], arr, idx)
    if k == 'f':
        x = g[1][0]
        d = DERIV.get(g[0])
        if d is None or len(g[1]) != 1:
            raise Unsupported('derivative of %s' % g[0])
        return d(x, atom(a)) * diff(x, arr, idx)
    raise Unsupported('derivative of %s' % k)


# ------------------------------------------------------------------ printing
def show(p, n=1200):
    s = p.key
    s = s.replace('1*<', '<')
    return s if len(s) <= n else s[:n] + '...'
