"""Decision procedures over poly.py: z3 for brackets and integer facts, normal-form equality with case splits,
summation-range arithmetic, numeric evaluation (for refutation and as a cross-check of every accepted equality)."""
import math, random, time, hashlib
from fractions import Fraction
import z3
from . import poly as P_
from .poly import *

STATS = dict(z3_calls=0, z3_seconds=0.0, normal_form=0, case_splits=0, numeric_crosschecks=0)
ARRANGE = {}         # integer array -> (lo, hi): every element e has lo <= e <= hi (a precondition)
BRANGE = {}          # bound/temporary id -> (lo, hi)


def free_index(lo, hi, name=None):
    """a fresh index variable with a range"""
    b = fresh_b()
    BRANGE[b] = (P(lo), P(hi))
    return bvar(b)


_orig_open = P_.open_mono


def _open(m):
    sums, atoms = _orig_open(m)
    for b, lo, hi in sums:
        BRANGE[b] = (lo, hi)
    return sums, atoms


P_.open_mono = _open


def SUMR(lo, hi, f):
    b = fresh_b()
    BRANGE[b] = (P(lo), P(hi))
    return sum_over(b, P(lo), P(hi), P(f(bvar(b))))


# ------------------------------------------------------------------ z3 conversion
_zc = {}


def z_atom(a):
    k, g = a.kind, a.args
    if k == 's':
        return z3.Real('s_' + g[0])
    if k == 'i':
        return z3.Int('i_' + g[0])
    if k == 'b':
        return z3.Int('b_%d' % g[0])
    if k in ('lt', 'eq'):
        z = z_poly(g[0])
        return z3.If(z < 0 if k == 'lt' else z == 0, z3.IntVal(1), z3.IntVal(0))
    if k == 'r':
        args = [z_poly(x) for x in g[1]]
        rng = z3.IntSort() if g[0] in INT_ARRAYS else z3.RealSort()
        if not args:
            return z3.Const('r_' + g[0], rng)
        f = z3.Function('r_%s_%d' % (g[0], len(args)), *([x.sort() for x in args] + [rng]))
        return f(*args)
    if k == 'f':
        if g[0] in ('imax', 'imin'):
            x, y = z_poly(g[1][0]), z_poly(g[1][1])
            return z3.If(x >= y, x, y) if g[0] == 'imax' else z3.If(x <= y, x, y)
        if g[0] in ('floordiv', 'mod') and g[1][0].is_int() and g[1][1].is_int():
            x, y = z_poly(g[1][0]), z_poly(g[1][1])
            # z3: Euclidean; equals floor for positive divisors, adjusted otherwise
            if g[1][1].is_const() and g[1][1].const() > 0:
                return x / y if g[0] == 'floordiv' else x % y
            q = z3.If(y > 0, x / y, (-x) / (-y))
            return q if g[0] == 'floordiv' else x - y * q
        args = [z3.ToReal(x) if x.sort() == z3.IntSort() else x for x in map(z_poly, g[1])]
        rng = z3.IntSort() if g[0] in INT_FUNCS else z3.RealSort()
        f = z3.Function('f_%s_%d' % (g[0], len(args)), *([z3.RealSort()] * len(args) + [rng]))
        if g[0] == 'fmod':
            return z3.If(args[0] == 0, z3.RealVal(0), f(*args))
        return f(*args)
    if k == 'p' and len(g[0].terms) <= 3 and not any(m.sums for m in g[0].terms):
        z = z_poly(g[0])
        return z3.ToReal(z) if z.sort() == z3.IntSort() else z
    if k == 'g' or k == 'e' or k == 'p':
        # opaque; exponentials are positive, distinguished by its canonical key and free variables
        fr = sorted(a.free())
        args = [z3.Int('b_%d' % x) for x in fr]
        nm = 'o_' + hashlib.md5(_alpha(a.key, fr).encode()).hexdigest()
        so = z3.IntSort() if a.is_int() else z3.RealSort()
        z = z3.Const(nm, so) if not args else z3.Function(nm, *([z3.IntSort()] * len(args) + [so]))(*args)
        return z3.If(z > 0, z, z3.RealVal(1)) if k == 'e' else z
    raise AssertionError(k)


def _alpha(key, fr):
    import re
    d = {x: i for i, x in enumerate(fr)}
    return re.sub(r'\bb(\d+)\b', lambda m: 'v%d' % d[int(m.group(1))] if int(m.group(1)) in d else m.group(0), key)


def z_poly(p):
    r = _zc.get(p.key)
    if r is not None:
        return r
    ints = p.is_int()
    tot = None
    for m, c in sorted(p.terms.items(), key=lambda mc: mc[0].key):
        t = None
        if m.sums:
            fr = sorted(m.free())
            args = [z3.Int('b_%d' % x) for x in fr]
            nm = 'm_' + hashlib.md5(_alpha(m.key, fr).encode()).hexdigest()
            t = z3.Real(nm) if not args else z3.Function(nm, *([z3.IntSort()] * len(args) + [z3.RealSort()]))(*args)
        else:
            for a, e in m.atoms:
                z = z_atom(a)
                if e.denominator == 1 and 0 < e <= 6:
                    f = z
                    for _ in range(int(e) - 1):
                        f = f * z
                elif e.denominator == 1 and -6 <= e < 0:
                    f = z
                    for _ in range(int(-e) - 1):
                        f = f * z
                    f = 1 / (z3.ToReal(f) if f.sort() == z3.IntSort() else f)
                else:
                    f = z3.Function('pw_%s' % str(e).replace('/', '_').replace('-', 'm'), z3.RealSort(), z3.RealSort())(z3.ToReal(z) if z.sort() == z3.IntSort() else z)
                t = f if t is None else t * f
        if not ints and t is not None and t.sort() == z3.IntSort():
            t = z3.ToReal(t)
        if t is None:
            t = z3.IntVal(int(c)) if ints else z3.RealVal(str(c))
        elif c != 1:
            t = (z3.IntVal(int(c)) if ints else z3.RealVal(str(c))) * t
        tot = t if tot is None else tot + t
    if tot is None:
        tot = z3.IntVal(0)
    _zc[p.key] = tot
    return tot


def z_cond(p, kind):
    z = z_poly(p)
    return z < 0 if kind == 'lt' else (z == 0 if kind == 'eq' else z <= 0)


_VERS = {}
_CACHES = {}
_NCTX = [0]


_SYMS = {}


def symbols(p):
    """the symbols of a polynomial in symbols only; None for others"""
    r = _SYMS.get(p.key, 0)
    if r == 0:
        r = set()
        for m in p.terms:
            if m.sums or any(a.kind not in ('i', 's') for a, e in m.atoms):
                r = None
                break
            r.update(a.args[0] for a, e in m.atoms)
        r = frozenset(r) if r is not None else None
        _SYMS[p.key] = r
    return r


class Context(object):
    """facts: list of (Poly, kind) with kind 'lt' (<0), 'le' (<=0), 'eq' (==0), 'ne', or z3 terms"""

    def __init__(self, facts=(), parent=None):
        self.facts = list(facts)
        self.cache = {}
        self._stack = []
        _NCTX[0] += 1
        self._ver = [-_NCTX[0]]
        self._timeout = 3000

    def token(self):
        return tuple(f if isinstance(f, tuple) and isinstance(f[1], str) and not isinstance(f[0], Poly) else (f[0].key, f[1]) if isinstance(f, tuple) else f.sexpr() for f in self.facts)

    def version(self):
        return self._ver[-1]

    def push(self, *facts):
        k = (self._ver[-1],) + tuple((f[0].key, f[1]) if isinstance(f, tuple) else f.sexpr() for f in facts)
        self._ver.append(_VERS.setdefault(k, len(_VERS) + 1))
        self._stack.append((len(self.facts), self.cache))
        self.facts.extend(facts)
        self.cache = _CACHES.setdefault(self._ver[-1], {})
        if len(_CACHES) > 20000:
            _CACHES.clear()

    def pop(self):
        n, self.cache = self._stack.pop()
        self._ver.pop()
        del self.facts[n:]

    def __enter__(self):
        self._prev = Ctx.cur
        Ctx.cur = self
        return self

    def __exit__(self, *a):
        Ctx.cur = self._prev

    def z_facts(self, polys):
        out = []
        seen = set()
        todo = list(polys)
        for f in self.facts:
            if isinstance(f, tuple):
                p, k = f
                todo.append(p)
                out.append(z3.Not(z_cond(p, 'eq')) if k == 'ne' else z_cond(p, k))
            else:
                out.append(f)
        while todo:
            p = todo.pop()
            for b in p.free():
                if b in seen:
                    continue
                seen.add(b)
                r = BRANGE.get(b)
                if r is not None:
                    v = z3.Int('b_%d' % b)
                    out.append(v >= z_poly(r[0])); out.append(v < z_poly(r[1]))
                    todo.extend(r)
            if ARRANGE:
                array_ranges(p, seen, out, todo)
        return out

    def decide(self, p, kind, extra=()):
        """True / False / None for p<0 or p==0 under the facts"""
        if p.is_const():
            c = p.const()
            return c < 0 if kind == 'lt' else c == 0
        ck = (p.key, kind)
        if ck in self.cache:
            return self.cache[ck]
        r = self._decide(p, kind)
        self.cache[ck] = r
        return r

    def lows(self):
        low = {}
        for f in self.facts:
            if isinstance(f, tuple) and f[1] in ('le', 'lt') and isinstance(f[0], Poly):
                sym, c = None, 0
                for m, k in f[0].terms.items():
                    if not m.atoms and not m.sums:
                        c = k
                    elif not m.sums and len(m.atoms) == 1 and m.atoms[0][1] == 1 and m.atoms[0][0].kind == 'i' and k == -1 and sym is None:
                        sym = m.atoms[0][0]
                    else:
                        break
                else:
                    if sym is not None and c >= 0:
                        low[sym] = max(low.get(sym, 0), c)
        return low

    def lower(self, p):
        """a lower bound of a polynomial in symbols known to be >= 0, from its signs"""
        low = self.cache.get('lows')
        if low is None:
            low = self.cache['lows'] = self.lows()
        r = 0
        for m, k in p.terms.items():
            if m.sums:
                return None
            v = k
            for a, e in m.atoms:
                if a not in low or e != int(e) or e < 0:
                    return None
                v = v * low[a] ** int(e)
            if m.atoms and k < 0:
                return None
            r += v
        return r

    def _decide(self, p, kind):
        big = len(self.facts) > 25
        if big or len(p.terms) < 40 and any(sum(e for _, e in m.atoms) > 1 for m in p.terms):
            lo = self.lower(p)
            if lo is not None and (lo > 0 or lo == 0 and kind == 'lt'):
                return False
            lo = self.lower(-p)
            if lo is not None and lo > 0:
                return kind == 'lt'
        t0 = time.time()
        if big:
            # one inequality among the facts, and signs
            for f in self.facts:
                if isinstance(f, tuple) and isinstance(f[0], Poly) and f[1] in ('le', 'lt') and len(f[0].terms) > 2:
                    lo = self.lower(f[0] - p)
                    if lo is not None and (lo > 0 or lo == 0 and f[1] == 'lt'):
                        return kind == 'lt'
                    lo = self.lower(p + f[0])
                    if lo is not None and (lo > 0 or lo == 0 and (kind == 'lt' or f[1] == 'lt')):
                        return False
            # the facts about the symbols at hand first
            mine = symbols(p)
            if mine is not None:
                few = Context([f for f in self.facts if isinstance(f, tuple) and isinstance(f[0], Poly) and symbols(f[0]) is not None and symbols(f[0]) <= mine])
                if len(few.facts) < len(self.facts):
                    r = few._decide(p, kind)
                    if r is not None:
                        return r
        c = z_cond(p, kind)
        fs = self.z_facts([p])
        s = z3.Solver()
        s.set('timeout', self._timeout)
        s.add(*fs)
        s.push(); s.add(z3.Not(c))
        r1 = s.check(); s.pop()
        STATS['z3_calls'] += 1
        res = None
        if r1 == z3.unsat:
            res = True
        else:
            s.push(); s.add(c); r2 = s.check(); s.pop()
            STATS['z3_calls'] += 1
            if r2 == z3.unsat:
                res = False
        STATS['z3_seconds'] += time.time() - t0
        return res

    def feasible(self, *conds):
        """conds: (Poly, kind, truth)"""
        t0 = time.time()
        s = z3.Solver(); s.set('timeout', self._timeout)
        s.add(*self.z_facts([c[0] for c in conds]))
        for p, k, v in conds:
            z = z_cond(p, k)
            s.add(z if v else z3.Not(z))
        r = s.check()
        STATS['z3_calls'] += 1; STATS['z3_seconds'] += time.time() - t0
        return r != z3.unsat

    def model(self, *conds):
        s = z3.Solver(); s.set('timeout', self._timeout)
        s.add(*self.z_facts([c[0] for c in conds]))
        for p, k, v in conds:
            z = z_cond(p, k)
            s.add(z if v else z3.Not(z))
        return s.model() if s.check() == z3.sat else None


def array_ranges(p, seen, out, todo):
    """facts about the reads (and maxima of reads) of arrays with a known range that occur in p"""
    for m in p.terms:
        for a, _ in m.atoms:
            if a.key in seen:
                continue
            seen.add(a.key)
            if a.kind == 'r' and a.args[0] in ARRANGE:
                lo, hi = ARRANGE[a.args[0]]
                out.append(z_poly(lo) <= z_atom(a)); out.append(z_atom(a) <= z_poly(hi))
                todo.extend([lo, hi])
            if a.kind == 'g' and a.args[0] == 'MAX':
                body = a.args[4]
                if len(body.terms) == 1:
                    (bm, c), = body.terms.items()
                    if c == 1 and not bm.sums and len(bm.atoms) == 1 and bm.atoms[0][1] == 1 and bm.atoms[0][0].kind == 'r' and bm.atoms[0][0].args[0] in ARRANGE:
                        lo, hi = ARRANGE[bm.atoms[0][0].args[0]]
                        out.append(z3.Implies(z_poly(a.args[1]) < z_poly(a.args[2]), z3.And(z_poly(lo) <= z_atom(a), z_atom(a) <= z_poly(hi))))
                        todo.extend([lo, hi])
                for q in a.args[1:3]:
                    array_ranges(q, seen, out, todo)
                continue
            if not m.sums and a.kind != 'g':
                for q in a._polys():
                    array_ranges(q, seen, out, todo)


# ------------------------------------------------------------------ equality
def _groups(p):
    """sum monomials grouped by the body of their last range variable, for range arithmetic"""
    return [(m, c) for m, c in p.terms.items() if m.sums], {m: c for m, c in p.terms.items() if not m.sums}


def reconcile(p):
    """combine sums with the same body over different ranges: SUM_[0,n) - SUM_[0,n-1) = last element"""
    ctx = Ctx.cur
    ms, rest = _groups(p)
    if len(ms) < 2 and not rest:
        return p
    for i in range(len(ms)):
        for k in range(len(ms[i][0].sums)):
            # pull out variable k of monomial i, if no other range depends on it
            m1, c1 = ms[i]
            b1, lo1, hi1 = m1.sums[k]
            if any(b1 in (x.free() | y.free()) for j, (_, x, y) in enumerate(m1.sums) if j != k):
                continue
            s1, a1 = P_.open_mono(m1)
            t1 = s1[k]
            others1 = s1[:k] + s1[k + 1:]
            v = bvar(t1[0])
            body1 = close_sums(others1, finish((), a1))          # t1 free
            for j in range(len(ms)):
                if j == i:
                    continue
                m2, c2 = ms[j]
                if len(m2.sums) != len(m1.sums):
                    continue
                for l in range(len(m2.sums)):
                    if any(m2.sums[l][0] in (x.free() | y.free()) for q, (_, x, y) in enumerate(m2.sums) if q != l):
                        continue
                    s2, a2 = P_.open_mono(m2)
                    t2 = s2[l]
                    body2 = close_sums(s2[:l] + s2[l + 1:], finish((), a2))
                    body2 = substitute(body2, {t2[0]: v})
                    if body2 == body1 and (t2[1] != t1[1] or t2[2] != t1[2]):
                        # c1*SUM_[lo1,hi1) + c2*SUM_[lo2,hi2) -> rewrite the first over the second range
                        lo2, hi2 = t2[1], t2[2]
                        corr = ZERO
                        dl, dh = lo2 - lo1, hi1 - hi2
                        if not (dl.is_const() and dh.is_const() and abs(dl.const()) <= 4 and abs(dh.const()) <= 4):
                            continue
                        # needs the ranges to be non-degenerate: min length 0 for both
                        if not (prove_int(lo1 - hi1 - 1, 'lt') and prove_int(lo2 - hi2 - 1, 'lt')):
                            continue
                        dl, dh = int(dl.const()), int(dh.const())
                        for q in range(abs(dl)):
                            corr = corr + (substitute(body1, {t1[0]: lo1 + q}) if dl > 0 else -substitute(body1, {t1[0]: lo2 + q}))
                        for q in range(abs(dh)):
                            corr = corr + (substitute(body1, {t1[0]: hi2 + q}) if dh > 0 else -substitute(body1, {t1[0]: hi1 + q}))
                        new = Poly({k_: v_ for k_, v_ in p.terms.items() if k_ != m1}) + Poly({m2: F1}) * c1 + corr * c1
                        return reconcile(new)
    return p


def resimplify(p):
    """rebuild under the current facts"""
    return map_atoms(p, lambda a: lt0(resimplify(a.args[0]), a.args[0].is_int()) if a.kind == 'lt'
                     else (eq0(resimplify(a.args[0]), a.args[0].is_int()) if a.kind == 'eq' else None))


class Undecided(Exception):
    pass


def free_brackets(p):
    out, seen = [], set()

    def go(q, bs):
        for m in sorted(q.terms, key=lambda m: m.key):
            b2 = bs | {s[0] for s in m.sums}
            for a, e in m.atoms:
                if a.kind in ('lt', 'eq') and not (a.free() & b2) and a.key not in seen:
                    seen.add(a.key); out.append(a)
                for x in a._polys():
                    go(x, b2 | ({a.args[3]} if a.kind == 'g' else set()))
    go(p, frozenset())
    return out


def prove_zero(p, depth=0, budget=None):
    """True if p is identically zero under the facts; (False, residual) otherwise"""
    budget = budget if budget is not None else [400]
    if not p.terms:
        STATS['normal_form'] += 1
        return True, None
    budget[0] -= 1
    if budget[0] < 0:
        return False, p
    q = reconcile(p)
    if not q.terms:
        return True, None
    q = clear_denominators(q)
    if not q.terms:
        return True, None
    brs = free_brackets(q)
    for br in brs:
        res = []
        ok = True
        for val in (1, 0):
            if Ctx.cur is None or Ctx.cur.feasible((br.args[0], br.kind, bool(val))):
                STATS['case_splits'] += 1
                sub = assign(q, br, val)
                if Ctx.cur is not None:
                    b0 = br.args[0]
                    fact = (b0, br.kind) if val else ((-b0, 'le') if br.kind == 'lt' else (b0, 'ne'))
                    Ctx.cur.push(fact)
                    try:
                        sub = resimplify(sub)
                        if val and br.kind == 'eq':
                            sub = use_equation(sub, b0)
                        r = prove_zero(sub, depth + 1, budget)
                    finally:
                        Ctx.cur.pop()
                else:
                    r = prove_zero(sub, depth + 1, budget)
                if not r[0]:
                    return False, r[1]
        return True, None
    q2 = identify(q)
    if q2 is not None:
        return prove_zero(q2, depth + 1, budget)
    if UNFOLD:
        q2 = UNFOLD[-1](q)
        if q2 is not None:
            return prove_zero(q2, depth + 1, budget)
    r = z3_zero(q)
    if r:
        return True, None
    note_leaf()
    return False, q


LEAVES = []          # sizes satisfying the facts of cases that could not be closed


def note_leaf():
    if Ctx.cur is None or len(LEAVES) > 3:
        return
    ints = small_model()
    if ints and ints not in LEAVES:
        LEAVES.append(ints)


def small_model():
    """values of the integer symbols satisfying the current facts, small ones preferred"""
    s = z3.Solver(); s.set('timeout', 1500)
    try:
        fs = Ctx.cur.z_facts([])
        s.add(*fs)
    except z3.Z3Exception:
        return None
    names = set()

    def walk(e, seen=set()):
        todo = [e]
        done = set()
        while todo:
            x = todo.pop()
            if x.get_id() in done:
                continue
            done.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith('i_'):
                names.add(x)
            todo.extend(x.children())
    for f in fs:
        walk(f)
    for bound in (4, 12, 64, 1024, 10 ** 5):
        s.push()
        for n in names:
            s.add(n <= bound, n >= -bound)
        r = s.check()
        if r == z3.sat:
            m = s.model()
            out = {n.decl().name()[2:]: m.eval(n, model_completion=True).as_long() for n in names}
            s.pop()
            return out
        s.pop()
    return None


UNFOLD = []          # hook: rewrites a residual by one more unfolding of a recursive definition, or returns None


def identify(p):
    """index expressions that the facts force to be equal"""
    if Ctx.cur is None:
        return None
    fr = p.free()
    seen = {}

    def f(a):
        if a.kind in ('r', 'f'):
            for x in a.args[1]:
                if x.free() <= fr and x.is_int() and not arrays_in(x):
                    seen[x.key] = x
        return None
    map_atoms(p, f)
    xs = [seen[k] for k in sorted(seen)]
    if len(xs) > 14:
        return None
    for i in range(len(xs)):
        for j in range(i):
            d = xs[i] - xs[j]
            if not d.is_const() and prove_int(d, 'eq') is True:
                q = use_equation(p, d)
                if q is not p and q.key != p.key:
                    return q
    return None


def use_equation(p, e):
    """substitute a variable using e == 0 when possible"""
    for m, c in e.terms.items():
        if not m.sums and len(m.atoms) == 1 and abs(c) == 1 and m.atoms[0][1] == 1:
            a = m.atoms[0][0]
            val = (Poly({m: c}) - e) * (1 / c)
            if a.kind == 'b' and a.args[0] not in val.free():
                return substitute(p, {a.args[0]: val})
            if a.kind in ('i', 's') and a.args[0] not in syms_in(val):
                return replace_syms(p, {a.args[0]: val})
    return p


def clear_denominators(p):
    """multiply by non-vanishing denominators (POW atoms with negative integer exponent), expand and re-compare"""
    for _ in range(6):
        den = None
        for m in p.terms:
            bs = {s[0] for s in m.sums}
            for a, e in m.atoms:
                if a.kind == 'p' and e.denominator == 1 and e < 0 and not (a.free() & bs):
                    den = a; break
            if den:
                break
        if den is None:
            return p
        k = max(int(-e) for m in p.terms for a, e in m.atoms if a == den and e < 0)
        d = den.args[0]
        out = ZERO
        for m, c in p.terms.items():
            e = sum((e for a, e in m.atoms if a == den), F0)
            sums, atoms = P_.open_mono(m)
            rest = finish((), tuple(x for x in atoms if x[0] != den)) * c
            n = k + int(e)
            for _ in range(n):
                rest = rest * d
            rest = close_sums(sums, rest)
            out = out + rest
        p = out
        if not p.terms:
            return p
    return p


def z3_zero(p):
    if any(m.sums for m in p.terms) or len(p.terms) > 60:
        return False
    t0 = time.time()
    try:
        z = z_poly(p)
        s = z3.Solver(); s.set('timeout', 4000)
        if Ctx.cur is not None:
            s.add(*Ctx.cur.z_facts([p]))
        s.add(z != 0)
        r = s.check()
    except z3.Z3Exception:
        return False
    STATS['z3_calls'] += 1; STATS['z3_seconds'] += time.time() - t0
    return r == z3.unsat


# ------------------------------------------------------------------ numeric evaluation
class Env(object):
    """values of symbols; arrays are pseudo-random functions of their indices unless given"""

    def __init__(self, seed=0, ints=None, syms=None, arrays=None, lohi=None):
        self.seed = seed; self.ints = dict(ints or {}); self.syms = dict(syms or {}); self.arrays = dict(arrays or {})
        self.lohi = lohi or {}
        self.defs, self.memo, self.scale = {}, {}, 1.0

    def val(self, kind, name, idx=()):
        h = hashlib.md5(repr((self.seed, kind, name, idx)).encode()).digest()
        u = int.from_bytes(h[:6], 'big') / float(1 << 48)
        lo, hi = self.lohi.get(name) or (-1.5 * self.scale, 1.5 * self.scale)
        if name in INT_ARRAYS:
            return int(lo + u * (hi - lo))
        return lo + u * (hi - lo)


def ev(p, env, bv=None):
    bv = bv or {}
    return math.fsum(float(c) * ev_mono(m, env, bv) for m, c in p.terms.items())


def ev_mono(m, env, bv):
    if not m.sums:
        r = 1.0
        for a, e in sorted(m.atoms, key=lambda ae: ae[0].kind not in ('lt', 'eq')):
            v = ev_atom(a, env, bv)
            if a.kind in ('lt', 'eq') and v == 0:
                return 0.0
            r *= v ** (int(e) if e.denominator == 1 else float(e))
        return r

    def go(i, bv):
        if i == len(m.sums):
            return ev_mono(Mono((), m.atoms), env, bv)
        b, lo, hi = m.sums[i]
        tot = 0.0
        for v in range(int(round(ev(lo, env, bv))), int(round(ev(hi, env, bv)))):
            d = dict(bv); d[b] = v
            tot += go(i + 1, d)
        return tot
    return go(0, bv)


def ev_atom(a, env, bv):
    k, g = a.kind, a.args
    if k == 's':
        if g[0] not in env.syms:
            env.syms[g[0]] = env.val('s', g[0])
        return env.syms[g[0]]
    if k == 'i':
        if g[0] not in env.ints:
            raise KeyError(g[0])
        return env.ints[g[0]]
    if k == 'b':
        return bv[g[0]]
    if k == 'r':
        idx = tuple(int(round(ev(x, env, bv))) for x in g[1])
        f = env.arrays.get(g[0])
        d = env.defs.get(g[0])
        if d is not None:
            k2 = (g[0], idx)
            if k2 not in env.memo:
                lo = d[2](idx, env) if d[2] is not None else True
                env.memo[k2] = ev(d[1], env, dict(zip(d[0], idx))) if lo else env.val('r', d[3] if len(d) > 3 else g[0], idx)
            return env.memo[k2]
        return f(*idx) if f is not None else env.val('r', g[0], idx)
    if k == 'f' and g[0][:3] in ('amv', 'amp'):
        best, pay = ev(g[1][0], env, bv), None
        for it in ev_list(g[1][-1], env, bv):
            if it[0] > best:
                best, pay = it[0], it[1:]
        return best if g[0] == 'amv' else ev(g[1][1], env, bv) if pay is None else pay[int(g[0][3:])]
    if k == 'f':
        v = [ev(x, env, bv) for x in g[1]]
        n = g[0]
        if n == 'sigmoid':
            return 1 / (1 + math.exp(-v[0]))
        if n == 'tanh':
            return math.tanh(v[0])
        if n == 'rel':
            return max(v[0], 0.0)
        if n == 'rel_d':
            return 1.0 if v[0] > 0 else 0.0
        if n == 'tanh_d':
            return 1 - v[0] ** 2
        if n == 'sigmoid_d':
            return v[0] * (1 - v[0])
        if n == 'el':
            return v[0] if v[0] >= 0 else math.exp(v[0]) - 1
        if n == 'el_d':
            return 1.0 if v[0] >= 0 else v[0] + 1
        if n == 'log':
            return math.log(v[0])
        if n == 'floordiv':
            return int(round(v[0])) // int(round(v[1]))
        if n == 'mod':
            return int(round(v[0])) % int(round(v[1]))
        if n == 'fmod':
            return v[0] - math.floor(v[0] / v[1]) * v[1]
        if n == 'floor':
            return math.floor(v[0])
        if n in ('imax', 'imin'):
            return max(v) if n == 'imax' else min(v)
        return env.val('f', n, tuple(round(x, 9) for x in v))
    if k == 'e':
        return math.exp(ev(g[0], env, bv))
    if k == 'p':
        return ev(g[0], env, bv)
    if k == 'lt':
        return 1 if ev(g[0], env, bv) < -1e-12 else 0
    if k == 'eq':
        return 1 if abs(ev(g[0], env, bv)) <= 1e-12 else 0
    if k == 'g':
        op, lo, hi, b, body = g
        vs = []
        for v in range(int(round(ev(lo, env, bv))), int(round(ev(hi, env, bv)))):
            d = dict(bv); d[b] = v
            vs.append(ev(body, env, d))
        return max(vs) if op == 'MAX' else min(vs)
    raise AssertionError(k)


def ev_list(p, env, bv):
    """items of a LIST in order"""
    (m, c), = p.terms.items()
    a = m.atoms[0][0]
    if a.kind == 'f':
        return [tuple(ev(x, env, bv) for x in a.args[1])]
    op, lo, hi, b, body = a.args
    out = []
    for v in range(int(round(ev(lo, env, bv))), int(round(ev(hi, env, bv)))):
        d = dict(bv); d[b] = v
        out += ev_list(body, env, d)
    return out


def _holds(v, k):
    return v < -1e-12 if k == 'lt' else v <= 1e-12 if k == 'le' else abs(v) <= 1e-12 if k == 'eq' else abs(v) > 1e-12


def by_equations(p):
    """use the equalities among the facts (a path condition such as T == 1)"""
    if Ctx.cur is not None:
        for f in list(Ctx.cur.facts):
            if isinstance(f, tuple) and isinstance(f[0], Poly) and (f[1] == 'eq' or f[1] == 'le' and f[0].is_int() and prove_int(f[0], 'eq')):
                p = use_equation(p, f[0])
    return p


def numeric_difference(p, free, dims_lists, nseeds=4, lohi=None, arrays=None, defs=None, scale=1.0):
    """evaluate p at random points: returns the first (env description, value) with |p| > tol, or None;
    free: list of index variables (Poly bvars) with ranges in BRANGE"""
    fs = [f for f in (Ctx.cur.facts if Ctx.cur is not None else ()) if isinstance(f, tuple) and isinstance(f[0], Poly)]
    ids = sorted(set(b for f in free for b in f.free()) | set(p.free()) | {b for f in fs for b in f[0].free()})
    done = 0
    for n in range(nseeds * 8):
        if done >= nseeds:
            break
        env = Env(seed=n, ints=dict(dims_lists[n % len(dims_lists)]), lohi=lohi, arrays=arrays)
        env.defs = defs or {}
        env.scale = scale
        rnd = random.Random(n)
        bv = {}
        try:
            for b in ids:
                lo, hi = BRANGE[b]
                l, h = int(ev(lo, env, bv)), int(ev(hi, env, bv))
                if h <= l:
                    raise ValueError
                bv[b] = rnd.randrange(l, h)
            if not all(_holds(ev(q, env, bv), k) for q, k in fs):
                continue
            v = ev(p, env, bv)
            scale = 1.0 + max([abs(float(c) * ev_mono(m, env, bv)) for m, c in p.terms.items()] or [0])
        except (ValueError, ZeroDivisionError, OverflowError, RecursionError, KeyError):
            continue
        STATS['numeric_crosschecks'] += 1
        done += 1
        if isinstance(v, complex) or v != v:
            continue
        if abs(v) > 1e-7 * scale:
            return dict(seed=n, dims=env.ints, indices=bv, value=v)
    return None
