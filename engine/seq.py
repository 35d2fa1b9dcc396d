"""Lists of symbolic length and the rule for search loops (loops left by break or return)."""
import sys
import z3
from .poly import *
from .prover import *
from .rt import *
from . import rt


class SymList(object):
    """a list of n elements elem(0..n-1); concatenation with lists and other symbolic lists"""
    __symiter__ = True

    def __init__(self, name, n, is_int=False, elem=None, pieces=None):
        if pieces is not None:
            self.pieces = pieces
        else:
            if is_int:
                INT_ARRAYS.add(name)
            self.pieces = [(P(n), elem or (lambda i: mk(rd(name, i))))]

    def __symlen__(self):
        r = ZERO
        for n, _ in self.pieces:
            r = r + n
        return mk(r)

    def __len__(self):
        n = self.__symlen__()
        if isinstance(n, int):
            return n
        raise Unsupported('length of a symbolic list')

    def __bool__(self):
        return bool(self.__symlen__() > 0)

    def __iter__(self):
        n = self.__symlen__()
        if isinstance(n, int):
            return iter([self[i] for i in range(n)])
        raise Unsupported('iteration over a symbolic list outside the loop rule')

    def _coerce(self, o):
        if isinstance(o, SymList):
            return o.pieces
        if isinstance(o, (list, tuple)):
            return [(P(1), lambda i, x=x: x) for x in o]
        return None

    def __add__(self, o):
        c = self._coerce(o)
        return NotImplemented if c is None else type(self)(None, None, pieces=self.pieces + c)

    def __radd__(self, o):
        c = self._coerce(o)
        return NotImplemented if c is None else type(self)(None, None, pieces=c + self.pieces)

    def append(self, x):
        self.pieces = self.pieces + [(P(1), lambda i, x=x: x)]

    def copy(self):
        return SymList(None, None, pieces=list(self.pieces))

    def __getitem__(self, k):
        n = P(self.__symlen__())
        if isinstance(k, slice):
            return self._slice(k, n)
        i = P(k)
        if isinstance(k, int) and k < 0:
            i = n + k
        if decide(lt0(i, True)) or decide(le0(n - i, True)):
            raise IndexError('list index out of range')
        return self.at(i)

    def at(self, i):
        i = P(i)
        off = ZERO
        vals = []
        for m, f in self.pieces:
            vals.append((off, off + m, f))
            off = off + m
        # the piece the index falls into, when that is known
        out = None
        for lo, hi, f in vals:
            if prove_int(lo - i - 1, 'lt') is True and prove_int(i - hi, 'lt') is True:
                return f(i - lo)
        for lo, hi, f in reversed(vals):
            if out is None:
                out = f(i - lo)
                continue
            v = f(i - lo)
            g = lt0(i - hi, True)
            if g.is_const():
                out = v if g.const() else out
                continue
            if isinstance(v, (S, SB, int, float)) and isinstance(out, (S, SB, int, float)):
                out = mk(ite(g, P(v), P(out)))
            else:
                out = v if decide(g) else out
        return out

    def _slice(self, k, n):
        if k.step not in (None, 1):
            raise Unsupported('stepped slice of a symbolic list')

        def norm(x, d):
            if x is None:
                return d
            p = P(x)
            if isinstance(x, int) and x < 0 or prove_int(p, 'lt') is True:
                p = n + p
                return imax(p, ZERO)
            return imin(p, n)
        lo, hi = norm(k.start, ZERO), norm(k.stop, n)
        m = hi - lo
        if prove_int(m, 'lt') is not False:
            m = imax(m, ZERO)
        return SymList(None, None, pieces=[(m, lambda i, s=SymList(None, None, pieces=list(self.pieces)): s.at(lo + i))])

    def index(self, x):
        raise Unsupported('index in a symbolic list')

    def __repr__(self):
        return 'SymList(%s)' % show(P(self.__symlen__()), 60)


def as_range(it):
    """(lo, hi, element function) of a symbolic iterable"""
    if isinstance(it, SymRange):
        if it.step == 1:
            return it.lo, it.hi, mk
        return ZERO, it.hi - it.lo, lambda t: mk(it.hi - 1 - t)
    if isinstance(it, SymList):
        return ZERO, P(it.__symlen__()), it.at
    f = getattr(it, '__symrange__', None)
    if f is not None:
        return f()
    raise Unsupported('loop over %r' % (it,))


def name(base):
    """a name that is the same whenever the same path is executed again"""
    ex = Explorer.stack[-1]
    ex.fresh = getattr(ex, 'fresh', 0) + 1
    return '%s_%d_%d' % (base, len(Explorer.stack), ex.fresh)


def z_guard(guards):
    r = []
    for br, v in guards:
        c = z_cond(br.args[0], br.kind)
        r.append(c if v else z3.Not(c))
    return z3.And(*r) if r else z3.BoolVal(True)


def search(it, body, names, get, put, outs, t, base_locals):
    """outs: the explored iterations at generic index t.  The loop is left at the first index whose iteration leaves it;
    all iterations before that run through without effect on anything that exists before the loop."""
    lo, hi, elem = as_range(it)
    tb, = [b for b in t.free()]
    leave = [g for g, r, cont, loc, w in outs if r is BREAK or isinstance(r, Ret)]
    dirty = set()
    for g, r, cont, loc, w in outs:
        if w:
            raise Unsupported('array written in a loop that is left early')
        if r is BREAK or isinstance(r, Ret):
            continue
        for k, (a, b) in enumerate(zip(loc, base_locals)):
            if a is not b and not (isinstance(a, (int, float, str)) and type(a) is type(b) and a == b) and not (isinstance(a, S) and isinstance(b, S) and a.p == b.p):
                dirty.add(k)
    zb = z3.Or(*[z_guard(g) for g in leave])
    v = z3.Int('b_%d' % tb)
    first = isym(name('first'))
    zf = z_poly(first)
    q = z3.Int('q!')
    ctx = Ctx.cur
    ctx.push((lo - first, 'le'), (first - hi, 'le'),
             z3.ForAll([q], z3.Implies(z3.And(q >= z_poly(lo), q < zf), z3.Not(z3.substitute(zb, (v, q))))))
    poison = tuple(rt.Poison('search loop') if k in dirty else x for k, x in enumerate(base_locals))
    if decide(lt0(first - hi, True)):
        ctx.push(z3.substitute(zb, (v, zf)))
        put(poison)
        r = body(elem(first))
        if not (r is BREAK or isinstance(r, Ret)):
            raise Unsupported('search loop: leaving iteration did not leave')
        return r
    put(poison)
    return None



# ------------------------------------------------------------------ collections of objects and traces
TRACE = [[]]         # innermost last; entries are appended by ghost objects and by the rule below
TRACKED = []         # (object, attribute): numeric state that loop bodies may advance


def emit(*ev):
    TRACE[-1].append(ev)


class Coll(object):
    """an ordered collection of any length; element(i) gives the ghost element at symbolic index i, `variants` of it being
    the cases a generic element may be in"""
    __symiter__ = True
    endless = False

    def __init__(self, name, element, variants=(None,)):
        self.name, self.element, self.variants = name, element, tuple(variants)
        self.n = isym('len_' + name)
        self.cache = {}

    def at(self, i, variant):
        i = P(i)
        k = (i.key, variant)
        if k not in self.cache:
            self.cache[k] = self.element(i, variant)
        return self.cache[k]

    def __symlen__(self):
        return mk(self.n)

    def __len__(self):
        raise Unsupported('length of a collection')

    def __iter__(self):
        raise Unsupported('iteration over a collection outside the loop rule')

    def __bool__(self):
        return bool(mk(self.n) > 0)


class Coll2(Coll):
    """the same elements seen through a function, e.g. the items of a dictionary"""

    def __init__(self, coll, element):
        self.coll, self.element, self.variants, self.name, self.n = coll, element, coll.variants, coll.name, coll.n
        self.cache = {}


def base_coll(c):
    while hasattr(c, 'coll'):
        c = c.coll
    return c


def assigned(p, guards):
    for b, v in guards:
        if p.is_const():
            break
        p = assign(p, b, v)
    return p


def possible(guards):
    """a case that later decisions on the path have excluded need not be considered"""
    ctx = Ctx.cur
    ctx.push(*guard_facts(guards))
    try:
        return ctx.feasible()
    finally:
        ctx.pop()


def under(guards, p, facts=()):
    """truth of a 0/1 polynomial under the guards of a path and the current facts: 1, 0 or None"""
    for b, v in guards:
        if p.is_const():
            break
        p = assign(p, b, v)
    if p.is_const():
        return 1 if p.const() else 0
    ctx = Ctx.cur
    ctx.push(*(list(facts) + guard_facts(guards)))
    try:
        p = resimplify(p)
        if not p.is_const():
            p = by_equations(p)
        if p.is_const():
            return 1 if p.const() else 0
        for want in (1, 0):
            if prove_zero(p - want)[0]:
                return want
        return None
    finally:
        ctx.pop()


class Enumerated(object):
    __symiter__ = True

    def __init__(self, coll, start):
        self.coll, self.start = coll, start
        self.name, self.n, self.variants = coll.name, coll.n, coll.variants

    def at(self, i, variant):
        return (mk(P(i) + self.start), self.coll.at(i, variant))

    def __iter__(self):
        raise Unsupported('iteration over a collection outside the loop rule')


class Block(object):
    """what a loop over a collection did: for every element in order (up to `until`, if given) the events of the path the
    element takes; cases: list of (variant, guards, events), index: the symbolic index"""

    def __init__(self, coll, index, cases, until=None):
        self.coll, self.index, self.cases, self.until = coll, index, cases, until

    def __repr__(self):
        return 'Block(%s%s: %s)' % (self.coll.name, '' if self.until is None else ' until', '; '.join('%s -> %s' % (v, e) for v, g, e in self.cases))


def _eq(a, b):
    if a is b:
        return True
    if isinstance(a, S) and isinstance(b, S):
        return a.p == b.p
    if isinstance(a, SB) and isinstance(b, SB):
        return a.p == b.p
    try:
        return type(a) is type(b) and isinstance(a, (int, float, str, bool, tuple)) and bool(a == b)
    except Exception:
        return False


def _boolean(x):
    return isinstance(x, (bool, SB))


def for_each(coll, body, names, get, put):
    ctx = Ctx.cur
    if not decide(lt0(-coll.n, True)):
        return None
    base = get()
    tbase = [getattr(o, a) for o, a in TRACKED]
    i = isym(name('i_' + coll.name))
    ids = name('s')
    rng = [(-i, 'le'), (i + 1 - coll.n, 'le')]

    def explore(start, tstart, facts):
        """every path of the body at generic index i -> (variant, guards, result, locals, tracked, events)"""
        outs = []

        def one(v):
            put(start)
            for (o, a), x in zip(TRACKED, tstart):
                setattr(o, a, x)
            TRACE.append([])
            try:
                r = body(coll.at(i, v))
                return r, get(), [getattr(o, a) for o, a in TRACKED], TRACE[-1]
            finally:
                TRACE.pop()
        ctx.push(*facts)
        try:
            for v in coll.variants:
                for guards, (kind, res) in Explorer(limit=64).run(lambda: one(v)):
                    if kind == 'exc':
                        outs.append((v, guards, res, None, None, None))
                    else:
                        outs.append((v, guards) + res)
        finally:
            ctx.pop()
        return outs
    # 1: which locals and tracked attributes does the body change?
    outs = explore(base, tbase, rng)
    raising = [o for o in outs if o[3] is None]
    # 2: generic start of an iteration
    start, tstart = list(base), list(tbase)
    tdelta = [ZERO] * len(tbase)
    for k in range(len(tbase)):
        if any(o[4] is not None and not _eq(o[4][k], tbase[k]) for o in outs):
            ds = {(P(o[4][k]) - P(tbase[k])).key: P(o[4][k]) - P(tbase[k]) for o in outs if o[4] is not None and not (o[2] is BREAK or isinstance(o[2], Ret))}
            d = list(ds.values())[0] if len(ds) == 1 else None
            if not ds:
                continue
            if d is None or name_of(i) in syms_in(d) or any(y.startswith(('first_', 'any_')) for y in syms_in(d)):
                tdelta[k] = None                       # an arbitrary value at the start of each iteration
                tstart[k] = mk(isym('%s_%s' % (TRACKED[k][1], ids)))
            else:
                tdelta[k] = d
                tstart[k] = mk(P(tbase[k]) + d * i)
    anyof = {}
    for rounds in range(3):
        changed = set()
        for o in outs:
            if o[3] is None or o[2] is BREAK or isinstance(o[2], Ret):
                continue
            for k in range(len(base)):
                if k not in anyof and not _eq(o[3][k], start[k]) and not isinstance(start[k], rt.Poison):
                    changed.add(k)
        if not changed and rounds:
            break
        for k in changed:
            if _boolean(base[k]):
                start[k] = SB(lt0(isym('%s_%s' % (ids, names[k]))))
                anyof[k] = None
            else:
                start[k] = rt.Poison('value carried from one iteration of a collection to the next')
        outs = explore(tuple(start), tstart, rng)
    for k, (a, b) in enumerate(zip(tbase, tstart)):
        for o in outs:
            if tdelta[k] is not None and o[4] is not None and not (o[2] is BREAK or isinstance(o[2], Ret)) and (P(o[4][k]) - P(b) - tdelta[k]).terms:
                raise Unsupported('attribute %s advances irregularly' % TRACKED[k][1])
    # 3: booleans: v' = v or c
    final = list(start)
    for k in anyof:
        h = b01(start[k])
        hb, = free_brackets(h)
        one_, two = ZERO, ZERO
        for o in outs:
            if o[3] is None or o[2] is BREAK or isinstance(o[2], Ret):
                continue
            p = b01(o[3][k]) if _boolean(o[3][k]) else None
            if p is None:
                raise Unsupported('boolean becomes something else')
            if assign(p, hb, 1) != ONE and not any(b == hb and v == 0 for b, v in o[1]):
                raise Unsupported('boolean carried through a loop in a way that is not "or": %s under %s' % (show(p, 200), [(b.key, v) for b, v in o[1]]))
        anyof[k] = [(o[0], [x for x in o[1] if x[0] != hb], assign(b01(o[3][k]), hb, 0)) for o in outs if o[3] is not None and not (o[2] is BREAK or isinstance(o[2], Ret)) and not any(b == hb and v == 1 for b, v in o[1])]
    leaving = [o for o in outs if o[2] is BREAK or isinstance(o[2], Ret)]
    cases = [(o[0], o[1], o[5]) for o in outs if o not in leaving and o not in raising and o[5] is not None]
    exc = [o for o in outs if o[3] is None]

    def final_tracked(n):
        for k, (o, a) in enumerate(TRACKED):
            setattr(o, a, mk(isym(name(a))) if tdelta[k] is None else mk(P(tbase[k]) + tdelta[k] * n))

    def finish_normally(until=None):
        vals = list(final)
        for k, c in anyof.items():
            a = isym(name('any_' + names[k]))
            b = SB(lt0(a))
            ANY[name_of(a)] = (coll, i, c)
            vals[k] = mkb(b01(base[k]) + (1 - b01(base[k])) * b.p)
        final_tracked(coll.n if until is None else until)
        put(tuple(vals))
    if not leaving and not exc:
        TRACE[-1].append(Block(coll, i, cases))
        finish_normally()
        return None
    # left early: the first element that leaves
    first = isym(name('first_' + coll.name))
    ctx.push((-first, 'le'), (first - coll.n, 'le'))
    if decide(lt0(first - coll.n, True)):
        finish_normally(first)
        TRACE[-1].append(Block(coll, i, cases, first))
        vs = [v for v in coll.variants if any(o[0] == v for o in leaving + exc)]
        v = vs[0]
        for w in vs[1:]:
            if decide(lt0(isym(name('variant')))):
                v = w
        r = body(coll.at(first, v))
        if not (r is BREAK or isinstance(r, Ret)):
            raise Infeasible()
        return r
    if getattr(coll, 'endless', False):
        raise Infeasible()
    TRACE[-1].append(Block(coll, i, cases))
    finish_normally()
    return None


ANY = {}             # symbol of an "any element" boolean -> (collection, index, [(variant, guards, condition)])


def name_of(p):
    return list(p.terms)[0].atoms[0][0].args[0]


def enumerate_(it, start=0):
    if isinstance(it, (Coll,)):
        return Enumerated(it, start)
    if isinstance(it, SymList):
        return SymList(None, None, pieces=[(P(it.__symlen__()), lambda i: (mk(P(i) + start), it.at(i)))])
    return enumerate(it, start)


# ------------------------------------------------------------------ generators
class NeedColl(BaseException):
    def __init__(self, coll):
        self.coll = coll


class NeedNext(BaseException):
    pass


UNSET = object()
GSTACK = []


class Frame(object):
    def __init__(self, elem, epilogue=False):
        self.elem, self.epilogue = elem, epilogue
        self.by = None
        self.mark = None


class GIter(object):
    """the loop of a generator over a collection, driven by the loop that consumes the generator"""

    def __init__(self, coll):
        self.coll = coll
        self.entry = None

    def __iter__(self):
        return self

    def __next__(self):
        if not GSTACK:
            raise Unsupported('generator over a collection consumed outside the loop rule')
        fr = GSTACK[-1]
        if fr.by is None:
            if fr.elem is UNSET and not fr.epilogue:
                raise NeedColl(self.coll)
            fr.by = self
            fr.mark = len(TRACE[-1])
            self.entry = dict(sys._getframe(1).f_locals)
            if fr.epilogue:
                raise StopIteration
            return fr.elem
        if fr.by is not self:
            raise Unsupported('two loops over collections in one generator')
        now = sys._getframe(1).f_locals
        for k, v in self.entry.items():
            # a local that is unbound at the start of a generic iteration is not read before it is assigned in it
            if not k.startswith('__') and v is not rt.UNBOUND and not _eq(now.get(k, UNSET), v):
                raise Unsupported('generator carries %s from one element to the next' % k)
        raise NeedNext()


def giter(it):
    """iterable of a loop that contains `yield`"""
    if isinstance(it, (Coll, Enumerated)):
        return GIter(it)
    if isinstance(it, SymRange) or isinstance(it, SymList):
        return GIter(range_coll(it))
    from . import tensor
    if isinstance(it, tensor.View):
        n = P(it.shape[0])
        if not n.is_const():
            c = Coll('rows', lambda i, v: it[mk(i)])
            c.n = n
            return GIter(c)
    return it


def consume(gw, consumer):
    """run a generator to its end, handing every value to consumer"""
    r = for_generator(gw, consumer, (), lambda: (), lambda x: None)
    if r is not None:
        raise Unsupported('generator left early')


def range_coll(it):
    lo, hi, elem = as_range(it)
    c = Coll('range', lambda i, v: elem(lo + i))
    c.n = hi - lo
    return c


class GenWrap(object):
    """the iterator made by calling a generator function"""

    def __init__(self, fn, a, k):
        self.fn, self.a, self.k = fn, a, k
        self.g = None

    def fresh(self):
        return self.fn(*self.a, **self.k)

    def __iter__(self):
        return self

    def __next__(self):
        if self.g is None:
            self.g = self.fresh()
        return next(self.g)

    def close(self):
        if self.g is not None:
            self.g.close()


def gen(fn):
    import functools

    @functools.wraps(fn)
    def w(*a, **k):
        return GenWrap(fn, a, k)
    return w


def for_generator(gw, body, names, get, put):
    if gw.g is not None:
        g, v = gw.g, UNSET
        need = None
    else:
        g = gw.fresh()
        GSTACK.append(Frame(UNSET))
        TRACE.append([])
        need = None
        try:
            v = next(g)
        except NeedColl as e:
            need = e.coll
        except StopIteration:
            return None
        finally:
            GSTACK.pop()
            pro = TRACE.pop()
            TRACE[-1].extend(pro)
    if need is None:
        gw.g = g
        while True:
            if v is UNSET:
                try:
                    v = next(g)
                except StopIteration:
                    return None
            r = body(v)
            if r is BREAK or isinstance(r, Ret):
                return r
            v = UNSET
    coll = need
    tracked = [getattr(o, a) for o, a in TRACKED]

    def one(elem):
        g = gw.fresh()
        fr = Frame(elem)
        GSTACK.append(fr); TRACE.append([])
        try:
            while True:
                try:
                    v = next(g)
                except NeedNext:
                    return None
                except StopIteration:
                    return BREAK
                if fr.mark is not None:
                    del TRACE[-1][:fr.mark]
                    fr.mark = None
                GSTACK.pop()
                try:
                    r = body(v)
                finally:
                    GSTACK.append(fr)
                if r is BREAK or isinstance(r, Ret):
                    return r
        finally:
            GSTACK.pop()
            ev = TRACE.pop()
            if fr.mark is not None:
                del ev[:fr.mark]
            TRACE[-1].extend(ev)
            g.close()
    r = for_each(coll, one, names, get, put)
    if r is None:
        # what the generator does after its loop
        g = gw.fresh()
        fr = Frame(UNSET, True)
        GSTACK.append(fr); TRACE.append([])
        try:
            extra = next(g, UNSET)
        finally:
            GSTACK.pop()
            ev = TRACE.pop()
            TRACE[-1].extend(ev[fr.mark or 0:])
        if extra is not UNSET:
            raise Unsupported('generator yields after its loop')
    return r


# ------------------------------------------------------------------ while loops
WHILE = [False]


class Endless(Coll):
    endless = True

    def __init__(self, name_):
        Coll.__init__(self, name_, lambda i, v: None)
        self.n = isym('endless_' + name_)


def while_(test, body, names, get, put):
    if not WHILE[0]:
        while test():
            r = body(None)
            if r is BREAK or isinstance(r, Ret):
                return r
        return None

    def one(_):
        if not test():
            return DONE
        return body(None)
    c = Endless(name('while'))
    Ctx.cur.push((1 - c.n, 'le'))
    r = for_each(c, one, names, get, put)
    return None if r is DONE else r


class _Done(rt.Ret):
    def __init__(self):
        self.value = None


DONE = _Done()
