"""Run time of the symbolic executor: symbolic scalars and booleans, path exploration, the loop rule."""
import builtins, sys
from fractions import Fraction
from . import poly as P_
from .poly import *
from .prover import *


class PathLimit(Unsupported):
    pass


class Infeasible(BaseException):
    """the current path cannot be taken"""


# ------------------------------------------------------------------ exploration
class Explorer(object):
    stack = []

    def __init__(self, limit=256):
        self.limit = limit
        self.script = []
        self.trace = []

    def run(self, fn, on_path=None):
        """run fn on every feasible decision sequence -> list of (guards [(bracket atom, val)], result or exception)"""
        out = []
        script = []
        while True:
            self.script, self.trace = script, []
            self.fresh = 0
            ctx = Ctx.cur
            depth = len(ctx._stack)
            Explorer.stack.append(self)
            try:
                try:
                    r = ('ok', fn())
                except Unsupported:
                    raise
                except Infeasible:
                    r = None
                except Exception as e:        # an exception of the program under verification on this path
                    r = ('exc', e)
                facts = [f for (_, _, _, fs) in self.trace for f in fs]
                if r is not None:
                    out.append(([(b, v) for b, v, _, _ in self.trace], r))
                    if on_path is not None:
                        on_path(out[-1])
            finally:
                Explorer.stack.pop()
                while len(ctx._stack) > depth:
                    ctx.pop()
            if len(out) > self.limit:
                raise PathLimit('more than %d paths' % self.limit)
            tr = list(self.trace)
            while tr and not (tr[-1][2] and tr[-1][1] == 1):
                tr.pop()
            if not tr:
                return out
            b, v, both, _ = tr[-1]
            script = [(x[0], x[1]) for x in tr[:-1]] + [(b, 0)]

    def choose(self, br):
        ctx = Ctx.cur
        n = len(self.trace)
        if n < len(self.script):
            b, v = self.script[n]
            if b != br:
                raise Unsupported('non-deterministic execution: %s vs %s' % (b.key, br.key))
            both = v == 1 and True
            # whether the other side was feasible is only needed for val 1 entries
            if v == 1:
                both = self._both(br)
            else:
                both = False
        else:
            f1 = ctx.feasible((br.args[0], br.kind, True))
            f0 = ctx.feasible((br.args[0], br.kind, False))
            if f1:
                v, both = 1, f0
            else:
                v, both = 0, False
        p = br.args[0]
        fact = (p, br.kind) if v else ((-p, 'le') if br.kind == 'lt' else (p, 'ne'))
        ctx.push(fact)
        self.trace.append((br, v, both, [fact]))
        return v

    def _both(self, br):
        return Ctx.cur.feasible((br.args[0], br.kind, False))


def guard_poly(guards):
    r = ONE
    for b, v in guards:
        r = r * (atom(b) if v else 1 - atom(b))
    return r


def guard_facts(guards):
    out = []
    for br, v in guards:
        p = br.args[0]
        out.append((p, br.kind) if v else ((-p, 'le') if br.kind == 'lt' else (p, 'ne')))
    return out


def decide(p01):
    """truth of a 0/1 polynomial, forking the current path when it is open"""
    for _ in range(200):
        if p01.is_const():
            return p01.const() != 0
        p01 = resimplify(p01)
        if p01.is_const():
            return p01.const() != 0
        brs = free_brackets(p01)
        if not brs:
            raise Unsupported('undecidable condition %s' % show(p01, 300))
        br = brs[0]
        if not Explorer.stack:
            raise Unsupported('condition outside exploration: %s' % show(p01, 300))
        v = Explorer.stack[-1].choose(br)
        p01 = assign(p01, br, v)
    raise Unsupported('condition too complex')


# ------------------------------------------------------------------ scalars
class SB(object):
    """symbolic boolean (0/1 polynomial)"""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = P(p)

    @property
    def poly(self):
        return self.p

    def __bool__(self):
        return decide(self.p)

    def __and__(self, o):
        return SB(self.p * b01(o))
    __rand__ = __and__

    def __or__(self, o):
        q = b01(o)
        return SB(self.p + q - self.p * q)
    __ror__ = __or__

    def __invert__(self):
        return SB(1 - self.p)

    def __mul__(self, o):
        return mk(self.p * P(o))
    __rmul__ = __mul__

    def __add__(self, o):
        return mk(self.p + P(o))
    __radd__ = __add__

    def __sub__(self, o):
        return mk(self.p - P(o))

    def __rsub__(self, o):
        return mk(P(o) - self.p)

    def __eq__(self, o):
        return mkb(eq0(self.p - P(o)))

    def __ne__(self, o):
        return mkb(1 - eq0(self.p - P(o)))

    __hash__ = None

    def __repr__(self):
        return 'SB(%s)' % show(self.p, 300)


def b01(x):
    if isinstance(x, SB):
        return x.p
    if isinstance(x, bool):
        return ONE if x else ZERO
    raise Unsupported('not a condition: %r' % (x,))


def mkb(p):
    return bool(p.const()) if p.is_const() else SB(p)


class S(object):
    """symbolic number; `factors` keeps the order of dimension products for reshaping"""
    __slots__ = ('p', 'factors', 'ctx')

    def __init__(self, p, factors=None, ctx=False):
        self.p = P(p)
        self.factors = factors
        self.ctx = ctx

    @property
    def poly(self):
        return self.p

    def _bin(self, o, f, r=False):
        if isinstance(o, (S, SB, int, float, Fraction)) or _isnp(o):
            a, b = self.p, P(o)
            return mk(f(b, a) if r else f(a, b))
        return NotImplemented

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: a + b, True)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str)):
            return NotImplemented
        r = self._bin(o, lambda a, b: a * b)
        if isinstance(r, S) and isinstance(o, (S, int)) and self.p.is_int():
            r.factors = facs(self) + facs(o)
        return r

    def __rmul__(self, o):
        if isinstance(o, (list, tuple, str)):
            return NotImplemented
        r = self._bin(o, lambda a, b: a * b, True)
        if isinstance(r, S) and isinstance(o, (S, int)) and self.p.is_int():
            r.factors = facs(o) + facs(self)
        return r

    def __truediv__(self, o): return self._bin(o, lambda a, b: a / nz(b))
    def __rtruediv__(self, o): return self._bin(o, lambda a, b: a / nz(b), True)
    def __neg__(self): return mk(-self.p)
    def __pos__(self): return self
    def __abs__(self): return mk(absval(self.p))

    def __pow__(self, e):
        e = P(e)
        if e.is_const():
            return mk(power(self.p, e.const()))
        return mk(func('pow', self.p, e))

    def __rpow__(self, b):
        return mk(func('pow', P(b), self.p))

    def __floordiv__(self, o):
        return mk(floordiv(self.p, P(o)))

    def __rfloordiv__(self, o):
        return mk(floordiv(P(o), self.p))

    def __ceil__(self):
        return mk(ceiling(self.p))

    def __floor__(self):
        return mk(-ceiling(-self.p))

    def __mod__(self, o):
        return mk(modulo(self.p, P(o)))

    def __rmod__(self, o):
        return mk(modulo(P(o), self.p))

    def _cmp(self, o, f):
        if o is None or isinstance(o, (str, tuple, list)):
            return NotImplemented
        return mkb(f(self.p - P(o)))

    def __lt__(self, o): return self._cmp(o, lt0)
    def __le__(self, o): return self._cmp(o, le0)
    def __gt__(self, o): return self._cmp(o, lambda p: lt0(-p))
    def __ge__(self, o): return self._cmp(o, lambda p: le0(-p))

    def __eq__(self, o):
        if not isinstance(o, (S, SB, int, float, Fraction)) and not _isnp(o):
            return False
        return mkb(eq0(self.p - P(o)))

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SB) else (not r)

    __hash__ = None

    def __bool__(self):
        return decide(1 - eq0(self.p))

    def __index__(self):
        raise Unsupported('symbolic number used as a machine index')

    def __int__(self):
        raise Unsupported('symbolic number converted by C code')

    def __float__(self):
        raise Unsupported('symbolic number converted by C code')

    __array_ufunc__ = None           # numpy scalars leave arithmetic to this class

    def __array__(self, *a, **k):
        raise Unsupported('symbolic number given to numpy')

    def __repr__(self):
        return 'S(%s)' % show(self.p, 200)

    def __format__(self, spec):
        return '<sym>'

    # numpy-scalar manners
    def item(self):
        return self

    @property
    def shape(self):
        return ()

    size = 1
    ndim = 0

    def sum(self):
        return self

    def astype(self, dt):
        return self

    def copy(self):
        return self


def facs(x):
    if isinstance(x, S):
        if x.factors is not None:
            return x.factors
        return ((x.p, x.ctx),)
    return () if x == 1 else ((P(x), False),)


def _isnp(o):
    import numpy as np
    return isinstance(o, np.generic)


def nz(p):
    return p


KNOWN_DIV = []       # (a, b, q): preconditions of the form a // b == q


def floordiv(a, b):
    if a.is_int() and b.is_int():
        if a.is_const() and b.is_const():
            return P(int(a.const()) // int(b.const()))
        # exact multiples
        q = a / b if len(b.terms) == 1 and b.terms else None
        if q is not None and q.is_int():
            return q
        if a.terms and a != ONE and (brs := free_brackets(a)):
            a2 = resimplify(a)
            br = next(iter(free_brackets(a2)), None)
            if br is None:
                return floordiv(a2, b)
            return shannon(br, a2, lambda q: floordiv(q, b))
        for x, y, q in KNOWN_DIV:
            if y == b and x == a:
                return q
        if len(b.terms) == 1 and not b.is_const():
            # a = q*b + r with 0 <= r < b
            (bm, bc), = b.terms.items()
            if bc == 1 and not bm.sums:
                q, r = {}, {}
                for m, c in a.terms.items():
                    t = Poly({m: c}) / b
                    if t.is_int():
                        for mm, cc in t.terms.items():
                            q[mm] = q.get(mm, F0) + cc
                    else:
                        r[m] = c
                q, r = Poly({m: c for m, c in q.items() if c}), Poly(r)
                if q.terms and prove_int(-r - 1, 'lt') is True and prove_int(r - b, 'lt') is True:
                    return q
                if not q.terms and prove_int(-r - 1, 'lt') is True and prove_int(r - b, 'lt') is True:
                    return ZERO
        if b.is_const() and b.const() > 0:
            # split off multiples of the divisor
            whole, rest = {}, {}
            for m, c in a.terms.items():
                if (c / b.const()).denominator == 1:
                    whole[m] = c / b.const()
                else:
                    rest[m] = c
            if whole and rest:
                return Poly(whole) + func('floordiv', Poly(rest), b)
        return func('floordiv', a, b)
    return func('floor', a / b)


def modulo(a, b):
    if a.is_int() and b.is_int():
        return a - b * floordiv(a, b)
    return a - b * func('floor', a / b)


def mk(p):
    """a Python number when the value is a known integer / fraction, else S"""
    p = P(p)
    if p.is_const():
        c = p.const()
        if c.denominator == 1 and p.is_int():
            return int(c)
        return S(p)
    return S(p)


def is_sym(x):
    return isinstance(x, (S, SB))


def symint(name, lo=None):
    p = isym(name)
    return S(p)


def symreal(name):
    return S(sym(name))


def ifexp(c, fa, fb):
    if isinstance(c, SB) and not c.p.is_const():
        try:
            a, b = fa(), fb()
        except Unsupported:
            raise
        except Exception:
            a = b = None
        num = (S, int, float, Fraction)
        if isinstance(a, num) and isinstance(b, num) and not isinstance(a, bool) and not isinstance(b, bool):
            a, b = P(a), P(b)
            if a.is_int() and b.is_int():
                lt, gt = lt0(a - b, True), lt0(b - a, True)
                if c.p == gt or c.p == 1 - lt:
                    return mk(imax(a, b))
                if c.p == lt or c.p == 1 - gt:
                    return mk(imin(a, b))
            return mk(ite(c.p, a, b))
    return fa() if c else fb()


# ------------------------------------------------------------------ shadows of builtins
class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int) or (isinstance(x, S) and x.p.is_int())

    def __subclasscheck__(cls, c):
        return issubclass(c, int)

    def __eq__(cls, o):
        return o is int or o is cls

    def __hash__(cls):
        return hash(int)


class Int(int, metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        if isinstance(x, SB):
            return mk(x.p)
        if isinstance(x, S):
            if x.p.is_int():
                return x
            p = x.p
            if p.is_const():
                c = p.const()
                return int(c)
            # truncation toward zero
            fl = func('floor', p)
            if decide(lt0(p)):
                return mk(-func('floor', -p))
            return mk(fl)
        return int(x, *a) if a else int(x)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float) or (isinstance(x, S) and not x.p.is_int())

    def __eq__(cls, o):
        return o is float or o is cls

    def __hash__(cls):
        return hash(float)


class Float(float, metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if isinstance(x, (S, SB)):
            return S(P(x))
        if getattr(x, 'shape', None) == () and hasattr(x, 'get'):
            return mk(x.get(()))
        return float(x)


class SymRange(object):
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = P(lo), P(hi), step

    def __len__(self):
        raise Unsupported('length of a symbolic range')

    def __iter__(self):
        raise Unsupported('iteration over a symbolic range outside the loop rule')


def range_(*a):
    if not any(isinstance(x, S) for x in a):
        return range(*a)
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a if len(a) == 3 else (a[0], a[1], 1))
    if isinstance(st, int) and st == 1:
        d = P(hi) - P(lo)
        if d.is_const():
            n = int(d.const())
            return [mk(P(lo) + i) for i in range(max(n, 0))]
        return SymRange(lo, hi, 1)
    if isinstance(st, int) and st == -1:
        # hi+1 .. lo, descending
        return SymRange(P(hi) + 1, P(lo) + 1, -1)
    return SymStepRange(lo, hi, st)


class SymStepRange(object):
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = P(lo), P(hi), P(step)

    def __iter__(self):
        raise Unsupported('iteration over a symbolic stepped range outside the loop rule')


def len_(x):
    f = getattr(x, '__symlen__', None)
    return f() if f is not None else len(x)


def _extreme(it, sgn):
    """largest (smallest) element of a non-empty list of symbolic length"""
    from . import tensor
    n = P(it.__symlen__())
    if not decide(lt0(-n, True)):
        raise ValueError('empty sequence')
    return mk(sgn * tensor.bigmax(ZERO, n, lambda i: sgn * P(it.at(i))))


def ceiling(p):
    """smallest integer not below p; a quotient of integers by a single positive integer symbol becomes a floor division"""
    if p.is_int():
        return p
    dens = {a.key: a for m in p.terms for a, e in m.atoms if e < 0}
    if len(dens) == 1:
        d = atom(list(dens.values())[0])
        q = p * d
        if q.is_int() and d.is_int() and prove_int(-d, 'lt') is True:
            return -floordiv(-q, d)
    return -func('floor', -p)


def min_(*a, **k):
    if len(a) == 1 and getattr(a[0], '__symiter__', False) and not k:
        return _extreme(a[0], -1)
    if len(a) == 1:
        a = list(a[0])
        if not any(is_sym(x) for x in a):
            return min(a, **k)
    if not any(is_sym(x) for x in a):
        return min(*a, **k)
    r = a[0]
    for x in a[1:]:
        if x is r:
            continue
        r = x if (mkb(lt0(P(x) - P(r))) if True else 0) else r
    return r


def max_(*a, **k):
    if len(a) == 1 and getattr(a[0], '__symiter__', False) and not k:
        return _extreme(a[0], 1)
    if len(a) == 1:
        a = list(a[0])
        if not any(is_sym(x) for x in a):
            return max(a, **k)
    if not any(is_sym(x) for x in a):
        return max(*a, **k)
    r = a[0]
    for x in a[1:]:
        if x is r:
            continue
        r = x if mkb(lt0(P(r) - P(x))) else r
    return r


def enumerate_(it, start=0):
    if SETMODE[0]:
        from . import sets
        if sets.ghost(it):
            return sets.enumerate_(it)
    from . import seq
    return seq.enumerate_(it, start)


def abs_(x):
    return abs(x)


def sum_(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def round_(x, *a):
    if isinstance(x, S):
        return mk(func('floor', x.p + Fraction(1, 2))) if not x.p.is_int() else x
    return round(x, *a)


SHADOW = dict(enumerate=enumerate_, int=Int, float=Float, range=range_, len=len_, min=min_, max=max_, sum=sum_, abs=abs_, round=round_)


# ------------------------------------------------------------------ loops
class _Unbound(object):
    def __repr__(self):
        return '<unbound>'


class Poison(object):
    """value of a local after a symbolically executed loop that could not be summarised"""

    def __init__(self, why):
        object.__setattr__(self, '_why', why)

    def __getattr__(self, n):
        raise Unsupported('use of a loop-local value after the loop: ' + object.__getattribute__(self, '_why'))


UNBOUND = _Unbound()
BREAK = object()


class Ret(object):
    def __init__(self, v):
        self.value = v


def for_(it, body, names, get, put):
    """returns None, BREAK or Ret"""
    if SETMODE[0]:
        from . import sets
        if sets.ghost(it):
            return sets.for_(it, body, names, get, put)
    if isinstance(it, (SymRange, SymStepRange)) or getattr(it, '__symiter__', None):
        from . import loops, seq
        if isinstance(it, (seq.Coll, seq.Enumerated)):
            return seq.for_each(it, body, names, get, put)
        return loops.for_symbolic(it, body, names, get, put)
    if type(it).__name__ == 'GenWrap':
        from . import seq
        return seq.for_generator(it, body, names, get, put)
    for x in it:
        r = body(x)
        if r is BREAK or isinstance(r, Ret):
            return r
    return None


def while_(test, body, names, get, put):
    if SETMODE[0]:
        from . import sets
        return sets.while_(test, body, names, get, put)
    from . import seq
    return seq.while_(test, body, names, get, put)


def giter(it):
    from . import seq
    return seq.giter(it)


def gen(fn):
    from . import seq
    return seq.gen(fn)


SETMODE = [False]


def unpack(x, n):
    u = getattr(x, '__symunpack__', None)
    return u(n) if u is not None else x


def comp(kind, it, cond, fn):
    """a comprehension; kind: list, set, dict, gen, and with prefix flat if the elements are iterables themselves"""
    if SETMODE[0]:
        from . import sets
        if sets.ghost(it):
            return sets.comp(kind, it, cond, fn)

    def items():
        for x in it:
            if cond is None or cond(x):
                if kind[:4] == 'flat':
                    for y in fn(x):
                        yield y
                else:
                    yield fn(x)
    k = kind[4:] if kind[:4] == 'flat' else kind
    if k == 'gen':
        it = iter(it)
        return items()
    if SETMODE[0]:
        from . import sets
        return sets.display(k, list(items()))
    return list(items()) if k == 'list' else set(items()) if k == 'set' else dict(items())


def in_(x, c):
    if SETMODE[0]:
        from . import sets
        return sets.contains(x, c)
    return x in c


def display(kind, v):
    if SETMODE[0]:
        from . import sets
        return sets.display(kind, v)
    return set(v) if kind == 'set' else v


def mod_(template, a):
    if SETMODE[0]:
        from . import sets
        t = a if isinstance(a, tuple) else (a,)
        plain = template.replace('%s', '').replace('%d', '')
        if '%' not in plain and '{' not in plain and '}' not in plain and any(sets.unknown(x) for x in t):
            return sets.format_(template.replace('%s', '{}').replace('%d', '{}'), t)
    return template % a


def pairs(p):
    """a dictionary written out"""
    if SETMODE[0]:
        from . import sets
        if sets.DISPLAY[0]:
            b = sets.Bag('dict', [])
            for k, v in p:
                b[k] = v
            return b
    return dict(p)


def call(f, *a, **k):
    if SETMODE[0]:
        from . import sets
        return sets.call(f, a, k)
    return f(*a, **k)


def format_(template, *a):
    if SETMODE[0]:
        from . import sets
        return sets.format_(template, a)
    return template.format(*a)


def comp_iter(it):
    if isinstance(it, (SymRange, SymStepRange)):
        raise Unsupported('comprehension over a symbolic range')
    return it
