"""Finite collections of any size: lists, sets and dictionaries whose elements are not enumerated.

A Bag is a sequence of parts {value(v) | v : cond(v)}; v are z3 integers, a value is a name (Name), a tuple or an object made of such.
A list has one entry for every v, a set and the keys of a dictionary are read without multiplicity.  Loops and comprehensions
over a Bag are executed once, at a generic element, on every feasible path; what an iteration adds to a collection that is
older than the iteration becomes a part quantified over the element.  `while` loops need an inductive invariant: the
candidates that hold on entry and are preserved are kept.  Iterating over a set or a dictionary gives its elements in an
unknown order; a list records whether its order follows from its content alone (`canon`)."""
import itertools
import types
import time
import z3
from .poly import Unsupported
from .rt import Poison, BREAK, Ret, UNBOUND, Infeasible, SETMODE
from . import rt

CODES = {}
STATS = dict(z3_calls=0, z3_seconds=0.0)
TIMEOUT = 4000
CANDIDATE = 1000


class Cut(BaseException):
    """the rest of the path is covered by an induction"""


def code(s):
    """concrete strings (and other constants) are numbered; names that are not known are arbitrary integers"""
    if s not in CODES:
        CODES[s] = len(CODES) + 1000
    return z3.IntVal(CODES[s])


def decode(z):
    """the constant of a number"""
    for k, n in CODES.items():
        if z3.is_int_value(z) and z.as_long() == n:
            return k
    raise Unsupported('unknown constant')


_n = itertools.count()


def const(base='x'):
    return z3.Int('%s!%d' % (base, next(_n)))


# ------------------------------------------------------------------ paths
class Path(object):
    def __init__(self, script):
        self.script, self.trace, self.facts, self.fresh, self.axioms = script, [], [], [], []


PATHS = []          # innermost exploration last
AXIOMS = []
BASE = []           # facts about the arguments
TAINT = []


def facts(axioms=True):
    r = list(BASE)
    for p in PATHS:
        r += p.facts
        if axioms:
            r += [a for _, a in p.axioms]
    return r + ([a for _, a in AXIOMS] if axioms else [])


def assume(*fs):
    (PATHS[-1].facts if PATHS else BASE).extend(fs)


def check(fs, timeout=None):
    t0 = time.time()
    s = z3.Solver(); s.set('timeout', timeout or TIMEOUT)
    s.add(*fs)
    r = s.check()
    STATS['z3_calls'] += 1; STATS['z3_seconds'] += time.time() - t0
    return r, s


def possible(*fs):
    # (facts about orders are left out: they exclude no path)
    return check(facts(False) + list(fs), 1500)[0] != z3.unsat


def proved(goal, *hyp, **k):
    g = z3.simplify(goal)
    if z3.is_true(g):
        return True
    return check(facts() + list(hyp) + [z3.Not(g)], k.get('timeout'))[0] == z3.unsat


def finite_model(fs, extra=3, timeout=6000):
    """is there a model with only a few names?  (quantifiers range over names, so a finite set of names is as good as any)"""
    consts = set()
    seen = set()
    todo = list(fs)
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            todo.append(e.body())
        elif z3.is_int_value(e):
            consts.add(e.as_long())
        todo.extend(e.children())
    dom = sorted(c for c in consts if c >= 1000) + list(range(1, extra + 1))

    def inside(v):
        return z3.Or(*[v == d for d in dom])
    cache = {}

    def rel(e):
        k = e.get_id()
        if k in cache:
            return cache[k][1]
        if z3.is_quantifier(e):
            vs = [z3.Const('r!%d' % next(_n), e.var_sort(i)) for i in range(e.num_vars())]
            b = rel(z3.substitute_vars(e.body(), *reversed(vs)))
            g = z3.And(*[inside(v) for v in vs if v.sort() == z3.IntSort()])
            r = z3.ForAll(vs, z3.Implies(g, b)) if e.is_forall() else z3.Exists(vs, z3.And(g, b))
        elif z3.is_app(e) and e.num_args() and e.sort() == z3.BoolSort():
            r = e.decl()(*[rel(c) for c in e.children()]) if e.decl().kind() not in (z3.Z3_OP_AND, z3.Z3_OP_OR) else (z3.And if e.decl().kind() == z3.Z3_OP_AND else z3.Or)(*[rel(c) for c in e.children()])
        else:
            r = e
        cache[k] = (e, r)
        return r
    return check([rel(f) for f in fs], timeout)[0] == z3.sat


class ZB(object):
    """a condition"""
    def __init__(self, f):
        self.f = f

    def __bool__(self):
        f = z3.simplify(self.f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        if not PATHS:
            raise Unsupported('condition outside exploration')
        p = PATHS[-1]
        n = len(p.trace)
        if n < len(p.script):
            v, both = p.script[n]
        else:
            t, e = possible(f), possible(z3.Not(f))
            if not t and not e:
                raise Infeasible()
            v, both = (True, e) if t else (False, False)
        p.trace.append((v, both))
        p.facts.append(f if v else z3.Not(f))
        return v

    def __invert__(self):
        return ZB(z3.Not(self.f))

    def __and__(self, o):
        return ZB(z3.And(self.f, zb(o)))

    def __or__(self, o):
        return ZB(z3.Or(self.f, zb(o)))
    __rand__, __ror__ = __and__, __or__

    def __eq__(self, o):
        return ZB(self.f == zb(o))

    def __hash__(self):
        raise Unsupported('hash of a condition')


def zb(x):
    return x.f if isinstance(x, ZB) else z3.BoolVal(bool(x))


def explore(fn, limit=64, keep=True):
    """-> [(facts, fresh constants, ('ok', result) | ('exc', exception) | ('cut', None))]"""
    out, script = [], []
    for _ in range(limit):
        p = Path(script)
        PATHS.append(p)
        journal, start = len(JOURNAL), next(CLOCK)
        try:
            try:
                r = ('ok', fn())
            except Unsupported:
                raise
            except Infeasible:
                r = None
            except Cut:
                r = ('cut', None)
            except Exception as e:
                r = ('exc', e)
            if r is not None:
                out.append((list(p.facts), list(p.fresh), r))
        finally:
            PATHS.pop()
            undo(journal, start)
        if keep and p.axioms and r is not None and r[0] == 'ok':
            used = functions(r[1])
            for n, a in p.axioms:
                if n in used:
                    if PATHS:
                        PATHS[-1].axioms.append((n, a))
                    else:
                        AXIOMS.append((n, a))
        tr = list(p.trace)
        while tr and not (tr[-1][0] and tr[-1][1]):
            tr.pop()
        if not tr:
            return out
        script = tr[:-1] + [(False, False)]
    raise Unsupported('more than %d paths' % limit)


# ------------------------------------------------------------------ values
class Name(object):
    """an unknown name (or key, or output name ...), given by an integer term"""
    text = True

    def __init__(self, z):
        self.z = z

    def __eq__(self, o):
        return ZB(veq(self, o))

    def __ne__(self, o):
        return ZB(z3.Not(veq(self, o)))

    def __hash__(self):
        raise Unsupported('hash of an unknown name')

    def __bool__(self):
        return bool(ZB(self.z != code('')))

    def __lt__(self, o):
        raise Unsupported('order of unknown names')
    __gt__ = __le__ = __ge__ = __lt__

    def __format__(self, f):
        return 'name'

    def __str__(self):
        return 'name'

    def __add__(self, o):
        return Text(code('{}{}'), self, o) if isinstance(o, (str, Name, Text)) else NotImplemented

    def __radd__(self, o):
        return Text(code('{}{}'), o, self) if isinstance(o, str) else NotImplemented

    def __repr__(self):
        return 'Name(%s)' % self.z

    def __ghost_isinstance__(self, c):
        c = c if isinstance(c, tuple) else (c,)
        return any(x is str for x in c)

    def subst(self, s):
        return Name(z3.substitute(self.z, *s))


class Obj(object):
    """an object determined by its terms; subclasses give it behaviour"""

    def __init__(self, *terms):
        self.terms = terms

    def subst(self, s):
        return type(self)(*[z3.substitute(t, *s) if z3.is_expr(t) else subst(t, s) for t in self.terms])

    def __eq__(self, o):
        return ZB(veq(self, o))

    def __ne__(self, o):
        return ZB(z3.Not(veq(self, o)))

    def __hash__(self):
        raise Unsupported('hash of an unknown object')

    def __bool__(self):
        return True

    def __format__(self, f):
        return type(self).__name__

    def __repr__(self):
        return '%s(%s)' % (type(self).__name__, ', '.join(map(str, self.terms)))


class Num(Obj):
    """an unknown integer"""
    def __add__(self, o):
        return Num(self.terms[0] + num(o))

    def __sub__(self, o):
        return Num(self.terms[0] - num(o))

    def __rsub__(self, o):
        return Num(num(o) - self.terms[0])
    __radd__ = __add__

    def __lt__(self, o):
        return ZB(self.terms[0] < num(o))

    def __gt__(self, o):
        return ZB(self.terms[0] > num(o))

    def __le__(self, o):
        return ZB(self.terms[0] <= num(o))

    def __ge__(self, o):
        return ZB(self.terms[0] >= num(o))

    def __eq__(self, o):
        return ZB(self.terms[0] == num(o)) if isinstance(o, (Num, int)) else False

    def __ne__(self, o):
        return ZB(self.terms[0] != num(o)) if isinstance(o, (Num, int)) else True
    __hash__ = Obj.__hash__

    def __bool__(self):
        return bool(ZB(self.terms[0] != 0))


def num(o):
    if isinstance(o, Num):
        return o.terms[0]
    if isinstance(o, bool) or not isinstance(o, int):
        raise Unsupported('arithmetic on %s' % type(o).__name__)
    return z3.IntVal(o)


class Text(Obj):
    """a formatted string with unknown parts"""
    text = True

    def __ghost_isinstance__(self, c):
        c = c if isinstance(c, tuple) else (c,)
        return any(x is str for x in c)

    def __add__(self, o):
        return Text(code('{}{}'), self, o)

    def __radd__(self, o):
        return Text(code('{}{}'), o, self)

    def subst(self, s):
        return Text(self.terms[0], *[subst(t, s) for t in self.terms[1:]])

    def __str__(self):
        return 'text'


def format_(template, a):
    if any(unknown(x) for x in a):
        return Text(code(template), *a)
    return template.format(*a)


def subst(v, s):
    if not s:
        return v
    if isinstance(v, (Name, Obj, Bag)):
        return v.subst(s)
    if isinstance(v, tuple):
        r = [subst(x, s) for x in v]
        return type(v)(*r) if hasattr(v, '_fields') else tuple(r)
    if isinstance(v, ZB):
        return ZB(z3.substitute(v.f, *s))
    if z3.is_expr(v):
        return z3.substitute(v, *s)
    inside = list(v.values()) + list(v) if isinstance(v, dict) else list(v) if isinstance(v, (list, set, frozenset)) else list(getattr(v, '__dict__', {}).values()) if not isinstance(v, (type, types.FunctionType, types.ModuleType)) else []
    if any(unknown(x) or z3.is_expr(x) for x in inside):
        raise Unsupported('object of type %s that depends on an element' % type(v).__name__)
    return v


def veq(a, b):
    if a is b:
        return z3.BoolVal(True)
    if isinstance(a, str) and isinstance(b, str):
        return z3.BoolVal(a == b)
    if isinstance(a, (Name, str)) and isinstance(b, (Name, str)):
        return zname(a) == zname(b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return z3.BoolVal(False)
        return z3.And(*[veq(x, y) for x, y in zip(a, b)]) if a else z3.BoolVal(True)
    if isinstance(a, Obj) and isinstance(b, Obj):
        if type(a) is not type(b) or len(a.terms) != len(b.terms):
            return z3.BoolVal(False)
        return z3.And(*[(x == y) if z3.is_expr(x) else veq(x, y) for x, y in zip(a.terms, b.terms)])
    if isinstance(a, Bag) and isinstance(b, Bag):
        if a.kind != b.kind:
            return z3.BoolVal(False)
        if a.kind == 'list':
            raise Unsupported('equality of lists')
        return same(a, b)
    if isinstance(a, (Name, Obj, Bag, tuple, str)) or isinstance(b, (Name, Obj, Bag, tuple, str)):
        if any(isinstance(x, (type(None), bool, int, float)) for x in (a, b)) or True:
            if not any(isinstance(x, Poison) for x in (a, b)):
                return z3.BoolVal(False)
    if isinstance(a, (type(None), bool, int, float, type)) and isinstance(b, (type(None), bool, int, float, type)):
        return z3.BoolVal(a == b)
    raise Unsupported('comparison of %r and %r' % (type(a), type(b)))


def zname(a):
    return a.z if isinstance(a, Name) else code(a)


# ------------------------------------------------------------------ collections
class Part(object):
    """entries value(v) for all v with cond(v), at position pos(v) within the part; the parts of a group were added by the same
    iterations, so their entries are interleaved"""

    def __init__(self, vars, cond, value, pos=None, group=None):
        self.vars, self.cond, self.value, self.pos, self.group = list(vars), cond, value, pos, group

    def fresh(self):
        new = [const('e') for _ in self.vars]
        s = list(zip(self.vars, new))
        if not s:
            return Part([], self.cond, self.value, self.pos, self.group)
        return Part(new, z3.substitute(self.cond, *s), subst(self.value, s), None if self.pos is None else z3.substitute(self.pos, *s), self.group)

    def subst(self, s):
        p = self.fresh() if self.vars else self
        return Part(p.vars, z3.substitute(p.cond, *s), subst(p.value, s), None if p.pos is None else z3.substitute(p.pos, *s), p.group)


CLOCK = itertools.count(1)
FRAMES = []          # loops being executed at a generic iteration
JOURNAL = []         # (bag, parts before) : mutations are undone when another path is explored


def undo(n, start):
    """collections that are older than the path get their content back"""
    while len(JOURNAL) > n:
        c, parts, canon, lost = JOURNAL.pop()
        if c.birth < start:
            c.parts, c.canon, c.lost = parts, canon, lost


class Frame(object):
    def __init__(self, vars=()):
        self.start, self.vars = next(CLOCK), list(vars)
        self.effects, self.reads, self.stale = [], {}, set()


def functions(v):
    """names of the functions that occur in a result"""
    out, seen, objs = set(), set(), set()

    def term(e):
        todo = [e]
        while todo:
            e = todo.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_quantifier(e):
                todo.append(e.body())
            elif z3.is_app(e) and e.num_args():
                out.add(e.decl().name())
            todo.extend(e.children())

    def go(v):
        if z3.is_expr(v):
            term(v)
        elif isinstance(v, (Name, ZB)):
            term(v.z if isinstance(v, Name) else v.f)
        elif isinstance(v, (tuple, list)):
            for x in v:
                go(x)
        elif isinstance(v, Obj):
            go(v.terms)
        elif isinstance(v, Part):
            term(v.cond)
            if v.pos is not None:
                term(v.pos)
            go(v.value)
        elif isinstance(v, Bag):
            if id(v.core) not in objs:
                objs.add(id(v.core))
                go(v.core.parts)
            go(tuple(v.idx))
        elif isinstance(v, Ret):
            go(v.value)
    go(v)
    return out


def mentions(v, vs):
    """does one of the constants occur in the value?"""
    ids = {x.get_id() for x in vs}
    seen = set()

    def term(e):
        todo = [e]
        while todo:
            e = todo.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if e.get_id() in ids:
                return True
            if z3.is_quantifier(e):
                todo.append(e.body())
            todo.extend(e.children())
        return False

    def go(v):
        if isinstance(v, Name):
            return term(v.z)
        if isinstance(v, ZB):
            return term(v.f)
        if z3.is_expr(v):
            return term(v)
        if isinstance(v, tuple):
            return any(go(x) for x in v)
        if isinstance(v, Obj):
            return any(go(x) for x in v.terms)
        if isinstance(v, Part):
            return term(v.cond) or go(v.value) or v.pos is not None and term(v.pos)
        if isinstance(v, Bag):
            return any(term(t) for t in v.where()) if v.core.formals else any(go(p) for p in v.core.parts)
        return False
    return go(v)


def at_index(p, formals, idx):
    """the part as one of the collection with this index"""
    p = p.fresh()
    return bind(p, formals, idx)


def bind(p, formals, idx):
    s, eqs, vs = [], [], list(p.vars)
    for f, t in zip(formals, idx):
        if f.eq(t):
            continue
        for v in vs:
            if t.eq(v) and p.pos is None:
                s.append((v, f))
                vs.remove(v)
                break
        else:
            eqs.append(f == t)
    q = Part(vs, z3.And(p.cond, *eqs) if eqs else p.cond, p.value, p.pos, p.group)
    if s:
        q = Part(vs, z3.substitute(q.cond, *s), subst(q.value, s), q.pos, q.group)
    return q


def family(v, vs, start):
    """collections in v that were made during an iteration become families over its variables"""
    if isinstance(v, tuple):
        for x in v:
            family(x, vs, start)
    elif isinstance(v, Obj):
        for x in v.terms:
            if not z3.is_expr(x):
                family(x, vs, start)
    elif isinstance(v, Bag):
        c = v.core
        for p in c.parts:
            family(p.value, vs, start)
        if c.birth >= start and not c.frozen and vs and not any(f.eq(vs[0]) for f in c.formals):
            v.idx = v.where()
            c.formals = c.formals + list(vs)


class Core(object):
    """the content of a collection; with formals: of the collections that were made by the iterations of a loop, one for every
    value of the formals (which occur in the parts)"""

    def __init__(self, parts, canon):
        self.parts, self.canon, self.formals, self.frozen, self.lost = list(parts), canon, [], False, False
        self.birth = next(CLOCK)


class Bag(object):
    __ghost__ = True

    def __init__(self, kind, parts=(), canon=True):
        self.kind, self.core, self.idx = kind, Core(parts, canon), ()
        self.core.owner = self
        self.note = None

    @property
    def parts(self):
        c = self.core
        if c.lost:
            raise Unsupported('content of a collection after pop')
        if not c.formals:
            return c.parts
        s = [(f, t) for f, t in zip(c.formals, self.where()) if not f.eq(t)]
        return [p.subst(s) for p in c.parts] if s else c.parts

    @parts.setter
    def parts(self, v):
        if self.core.formals:
            raise Unsupported('replacing one of a family of collections')
        self.core.parts = v

    def where(self):
        return tuple(self.idx) + tuple(self.core.formals[len(self.idx):])

    @property
    def canon(self):
        return self.core.canon

    @canon.setter
    def canon(self, v):
        self.core.canon = v

    @property
    def birth(self):
        return self.core.birth

    def subst(self, s):
        c = self.core
        if c.formals:
            b = Bag.__new__(Bag)
            b.kind, b.core, b.note = self.kind, c, self.note
            b.idx = tuple(z3.substitute(t, *s) for t in self.where())
            rest = [(x, y) for x, y in s if not any(x.eq(f) for f in c.formals)]
            if rest and any(mentions(p, [x for x, _ in rest]) for p in c.parts):
                raise Unsupported('family of collections under a variable it does not depend on')
            return b
        if not any(mentions(p, [x for x, _ in s]) for p in c.parts):
            return self
        b = Bag(self.kind, [p.subst(s) for p in c.parts], self.canon)
        b.note = self.note
        b.core.birth, b.core.frozen = c.birth, True
        return b

    # -- reading
    def read(self):
        for f in FRAMES:
            if self.birth < f.start:
                f.reads.setdefault(id(self.core), []).append(self)
                if any(e[0].core is self.core for e in f.effects):
                    f.stale.add(id(self.core))
        return self.parts

    def member(self, x):
        """x is among the elements (the keys of a dictionary)"""
        return z3.Or(*[member(p, x, self.kind == 'dict') for p in self.read()]) if self.parts else z3.BoolVal(False)

    def nonempty(self):
        ps = [p.fresh() for p in self.read()]
        return z3.Or(*[exists(p.vars, p.cond) for p in ps]) if ps else z3.BoolVal(False)

    def __bool__(self):
        return bool(ZB(self.nonempty()))

    def __contains__(self, x):
        return bool(ZB(self.member(x)))

    def __symlen__(self):
        return Len(self)

    def __len__(self):
        raise Unsupported('length of a collection')

    def __iter__(self):
        if all(not p.vars and z3.is_true(z3.simplify(p.cond)) for p in self.parts) and (self.kind == 'list' or len(self.parts) < 2):
            return iter([key_of(self, p) for p in self.read()])
        raise Unsupported('iteration over a collection outside the loop rule')

    def __symunpack__(self, n):
        return list(self)

    def __ghost_isinstance__(self, c):
        c = c if isinstance(c, tuple) else (c,)
        t = dict(list=list, set=set, dict=dict)[self.kind]
        return any(isinstance(x, type) and issubclass(t, x) for x in c)

    # -- writing
    def mutate(self, parts, add=None, what='add'):
        """replace the content; add: the parts that are new (None if it is not an addition)"""
        c = self.core
        if c.frozen:
            raise Unsupported('change of a collection that depends on an element')
        if c.formals:
            if add is None or what != 'add' and what != 'pop':
                raise Unsupported('%s of one of a family of collections' % what)
            add = [at_index(p, c.formals, self.where()) for p in add]
        if FRAMES and self.birth < FRAMES[-1].start:
            if add is None:
                raise Unsupported('%s of a collection in a loop' % what)
            FRAMES[-1].effects.append((self, add, what))
            return
        self.install(add, what, parts)

    def install(self, add, what, parts=None):
        """make the change to the content (add is in terms of the formals)"""
        c = self.core
        JOURNAL.append((c, c.parts, c.canon, c.lost))
        if what == 'pop':
            c.lost = True
        elif c.formals:
            c.parts = c.parts + add
        else:
            c.parts = parts

    def pop(self, *a):
        if self.kind != 'set' or a:
            raise Unsupported('pop')
        if not self:
            raise KeyError('pop from an empty set')
        ps = self.read()
        if len({shape(p.value) for p in ps}) != 1:
            raise Unsupported('pop of different elements')
        new = [const('pop') for _ in components(ps[0].value)]
        v = rebuild(ps[0].value, list(new))
        PATHS[-1].fresh.extend(new)
        assume(self.member(v))
        self.mutate(None, [], 'pop')
        return v

    def added(self, parts, canon=True, what='add'):
        self.mutate(self.parts + parts, parts, what)
        if not any(self.birth < f.start for f in FRAMES):
            self.canon = self.canon and canon

    def append(self, x):
        self.kinds('list')
        self.added([Part([], z3.BoolVal(True), x)], not TAINT)

    def add(self, x):
        self.kinds('set')
        self.added([Part([], z3.BoolVal(True), x)])

    def extend(self, o):
        self.kinds('list')
        o = bag(o)
        self.added([p.fresh() for p in o.read()], o.kind == 'list' and o.canon and not TAINT)

    def update(self, *os, **k):
        if self.kind == 'dict':
            for o in os:
                o = bag(o)
                for p in o.read():
                    self._setparts(p.fresh())
            for n, v in k.items():
                self[n] = v
            return
        self.kinds('set')
        for o in os:
            self.added([Part(p.vars, p.cond, key_of(o, p)) for p in (q.fresh() for q in bag(o).read())])

    def _setparts(self, p):
        k = p.value[0]
        keep = [q if not q.vars and False else Part(q.vars, z3.And(q.cond, z3.Not(member(p, q.value[0], True))), q.value, q.pos, q.group) for q in self.parts]
        self.mutate(keep + [p], [p], 'set')

    def __setitem__(self, k, v):
        if self.kind == 'list':
            raise Unsupported('assignment to a list element')
        self._setparts(Part([], z3.BoolVal(True), (k, v)))

    def remove(self, x):
        if x not in self:
            raise ValueError('not in collection') if self.kind == 'list' else KeyError('not in set')
        self.discard(x)

    def discard(self, x):
        self.kinds('set')
        self.mutate([Part(p.vars, z3.And(p.cond, z3.Not(veq(p.value, x))), p.value) for p in self.parts], None, 'removal')

    def kinds(self, *k):
        if self.kind not in k:
            raise AttributeError('%s has no such operation' % self.kind)

    def clear(self):
        self.mutate([], None, 'clear')

    # -- list
    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        self.kinds('list')
        o = bag(o)
        if o is None or o.kind != 'list':
            return NotImplemented
        return Bag('list', [p.fresh() for p in self.read() + o.read()], self.canon and o.canon)

    def __radd__(self, o):
        o = bag(o)
        if o is None or o.kind != 'list':
            return NotImplemented
        return o + self

    def index(self, x):
        raise Unsupported('index in a collection')

    # -- set
    def union(self, *os):
        r = Bag('set', [p.fresh() for p in self.read()])
        for o in os:
            o = bag(o)
            r.parts += [Part(p.vars, p.cond, key_of(o, p)) for p in (q.fresh() for q in o.read())]
        return r

    def difference(self, *os):
        r = [p.fresh() for p in self.read()]
        for o in os:
            o = bag(o)
            r = [Part(p.vars, z3.And(p.cond, z3.Not(o.member(p.value))), p.value) for p in r]
        return Bag('set', r)

    def intersection(self, *os):
        r = [p.fresh() for p in self.read()]
        for o in os:
            o = bag(o)
            r = [Part(p.vars, z3.And(p.cond, o.member(p.value)), p.value) for p in r]
        return Bag('set', r)

    def _set(self, o):
        o = bag(o)
        return o if o is not None and o.kind == 'set' and self.kind == 'set' else None

    def __or__(self, o):
        o = self._set(o)
        return NotImplemented if o is None else self.union(o)

    def __sub__(self, o):
        o = self._set(o)
        return NotImplemented if o is None else self.difference(o)

    def __rsub__(self, o):
        o = self._set(o)
        return NotImplemented if o is None else o.difference(self)

    def __ror__(self, o):
        o = self._set(o)
        return NotImplemented if o is None else o.union(self)

    def __and__(self, o):
        o = self._set(o)
        return NotImplemented if o is None else self.intersection(o)

    def __ior__(self, o):
        self.kinds('set')
        self.update(o)
        return self

    def __isub__(self, o):
        self.kinds('set')
        r = self.difference(o)
        self.mutate(r.parts, None, 'removal')
        return self

    def difference_update(self, o):
        self.__isub__(o)

    def issubset(self, o):
        return ZB(subset(self, bag(o)))

    def issuperset(self, o):
        return ZB(subset(bag(o), self))

    def isdisjoint(self, o):
        return ZB(z3.Not(self.intersection(o).nonempty()))

    def __le__(self, o):
        o = self._set(o)
        return NotImplemented if o is None else ZB(subset(self, o))

    def __ge__(self, o):
        o = self._set(o)
        return NotImplemented if o is None else ZB(subset(o, self))

    def __lt__(self, o):
        o = self._set(o)
        return NotImplemented if o is None else ZB(z3.And(subset(self, o), z3.Not(subset(o, self))))

    def __eq__(self, o):
        b = bag(o)
        if b is None or b.kind != self.kind:
            return False
        if self.kind == 'list':
            if not b.parts:
                return ZB(z3.Not(self.nonempty()))
            if not self.parts:
                return ZB(z3.Not(b.nonempty()))
            for x, y in ((self, b), (b, self)):
                if len(x.parts) == 1 and not x.parts[0].vars and z3.is_true(z3.simplify(x.parts[0].cond)):
                    l = Len(y)
                    return ZB(z3.And(l.at_least(1), z3.Not(l.at_least(2)), y.member(x.parts[0].value)))
            raise Unsupported('equality of lists')
        return ZB(same(self, b))

    def __ne__(self, o):
        e = self.__eq__(o)
        return ~e if isinstance(e, ZB) else not e

    def __hash__(self):
        return id(self)

    # -- dict
    def keys(self):
        self.kinds('dict')
        return Bag('set', [Part(p.vars, p.cond, p.value[0], p.pos, p.group) for p in (q.fresh() for q in self.read())]).ordered_like(self)

    def values(self):
        self.kinds('dict')
        return Bag('list', [Part(p.vars, p.cond, p.value[1], p.pos, p.group) for p in (q.fresh() for q in self.read())], self.canon)

    def items(self):
        self.kinds('dict')
        return Bag('list', [p.fresh() for p in self.read()], self.canon)

    def ordered_like(self, o):
        self.canon = o.canon
        self.note = 'ordered'
        return self

    def copy(self):
        b = Bag(self.kind, [p.fresh() for p in self.read()], self.canon)
        return b

    def __getitem__(self, k):
        if self.kind != 'dict':
            if isinstance(k, slice) and k == slice(None):
                return self.copy()
            if isinstance(k, slice) and k == slice(1, None) and self.kind == 'list' and len(self.parts) == 1 and self.parts[0].pos is not None:
                # all but the first
                p, q = self.read()[0].fresh(), self.parts[0].fresh()
                return Bag('list', [Part(p.vars, z3.And(p.cond, exists(q.vars, z3.And(q.cond, q.pos < p.pos))), p.value, p.pos, p.group)], self.canon)
            if isinstance(k, slice) and k.step == -1 and k.start is None and self.kind == 'list':
                if k.stop is None:
                    return call(reversed, (self,), {})
                if k.stop == 0:
                    return call(reversed, (self[1:],), {})
            raise Unsupported('element of a collection')
        for f in FRAMES:
            if self.birth < f.start and getattr(f, 'building', None) is not None:
                v = f.building(self, k)
                if v is not None:
                    return v
        ps = self.read()
        for p in reversed(ps):
            q = p.fresh()
            v, c = solve(q, k)
            if decide(c):
                return v
        raise KeyError('no such key')

    def get(self, k, d=None):
        if k in self:
            return self[k]
        return d

    def setdefault(self, k, d=None):
        if k in self:
            return self[k]
        self[k] = d
        return d

    def __repr__(self):
        return '%s{%s}' % (self.kind, '; '.join('%s | %s' % (p.value, p.cond) for p in self.parts))


class Len(object):
    """the number of elements, as far as comparing it with small numbers goes"""

    def __init__(self, b):
        self.b = b

    def at_least(self, n):
        if n <= 0:
            return z3.BoolVal(True)
        b = self.b
        parts = b.read()
        alts = []
        for combo in itertools.combinations_with_replacement(range(len(parts)), n):
            ps = [parts[i].fresh() for i in combo]
            vs = [v for p in ps for v in p.vars]
            cs = [p.cond for p in ps]
            for i, j in itertools.combinations(range(n), 2):
                if b.kind == 'list':
                    if combo[i] == combo[j]:
                        cs.append(z3.Or(*[x != y for x, y in zip(ps[i].vars, ps[j].vars)]) if ps[i].vars else z3.BoolVal(False))
                else:
                    cs.append(z3.Not(veq(key_of(b, ps[i]), key_of(b, ps[j]))))
            alts.append(exists(vs, z3.And(*cs)))
        return z3.Or(*alts) if alts else z3.BoolVal(False)

    def cmp(self, o, f):
        if not isinstance(o, int) or o > 3:
            raise Unsupported('length of a collection')
        return ZB(f(o))

    def __gt__(self, o):
        return self.cmp(o, lambda n: self.at_least(n + 1))

    def __ge__(self, o):
        return self.cmp(o, lambda n: self.at_least(n))

    def __lt__(self, o):
        return self.cmp(o, lambda n: z3.Not(self.at_least(n)))

    def __le__(self, o):
        return self.cmp(o, lambda n: z3.Not(self.at_least(n + 1)))

    def __eq__(self, o):
        return self.cmp(o, lambda n: z3.And(self.at_least(n), z3.Not(self.at_least(n + 1))) if n >= 0 else z3.BoolVal(False))

    def __ne__(self, o):
        return ~self.__eq__(o)

    def __bool__(self):
        return bool(ZB(self.at_least(1)))

    def __hash__(self):
        raise Unsupported('hash of a length')

    def __getattr__(self, n):
        raise Unsupported('arithmetic on the length of a collection')


def key_of(b, p):
    return p.value[0] if b is not None and getattr(b, 'kind', None) == 'dict' else p.value


def exists(vs, f):
    return z3.Exists(list(vs), f) if vs else f


def forall(vs, f):
    return z3.ForAll(list(vs), f) if vs else f


def components(v):
    if isinstance(v, Name):
        return [v.z]
    if isinstance(v, tuple):
        return [z for x in v for z in components(x)]
    if isinstance(v, Obj):
        return [z for t in v.terms for z in ([t] if z3.is_expr(t) else components(t))]
    return []


def paired(v, x):
    """corresponding terms of two values of the same shape"""
    if isinstance(v, Name) and isinstance(x, (Name, str)):
        return [(v.z, zname(x))]
    if isinstance(v, tuple) and isinstance(x, tuple) and len(v) == len(x):
        return [z for a, b in zip(v, x) for z in paired(a, b)]
    if isinstance(v, Obj) and type(v) is type(x):
        return [z for a, b in zip(v.terms, x.terms) for z in ([(a, b)] if z3.is_expr(a) else paired(a, b))]
    return []


def solution(p, key, x):
    """substitution of those variables of the part that key == x determines"""
    s, left = [], list(p.vars)
    for a, b in paired(key, x):
        for v in left:
            if a.eq(v):
                s.append((v, b))
                left.remove(v)
                break
    return s, left


def member(p, x, as_dict=False):
    q = p.fresh()
    key = q.value[0] if as_dict else q.value
    s, left = solution(q, key, x)
    f = z3.And(q.cond, veq(key, x))
    if s:
        f = z3.substitute(f, *s)
    return z3.simplify(exists(left, f))


def solve(p, k):
    """value stored under key k in a part of a dictionary, and the condition that there is one"""
    s, left = solution(p, p.value[0], k)
    if left:
        # a dictionary has one value for a key: name it
        new = [const('w') for _ in left]
        s2 = list(zip(left, new))
        c = z3.And(p.cond, veq(p.value[0], k))
        c = z3.substitute(c, *(s + s2))
        if PATHS:
            PATHS[-1].fresh.extend(new)
        return subst(p.value[1], s + s2), ('some', new, c)
    c = z3.And(p.cond, veq(p.value[0], k))
    if s:
        c = z3.substitute(c, *s)
    return subst(p.value[1], s), c


def decide(c):
    if isinstance(c, tuple):
        _, new, f = c
        if bool(ZB(exists_new(new, f))):
            assume(f)
            return True
        return False
    return bool(ZB(c))


def exists_new(new, f):
    v = [const('q') for _ in new]
    return z3.Exists(v, z3.substitute(f, *zip(new, v)))


def subset(a, b):
    fs = []
    for p in a.read():
        q = p.fresh()
        fs.append(forall(q.vars, z3.Implies(q.cond, b.member(key_of(a, q)))))
    return z3.And(*fs) if fs else z3.BoolVal(True)


def same(a, b):
    return z3.And(subset(a, b), subset(b, a))


def ghost(x):
    return isinstance(x, Bag) or getattr(x, '__ghost__', False)


def unknown(x):
    return isinstance(x, (Name, Obj, Bag, ZB)) or isinstance(x, tuple) and any(unknown(y) for y in x)


def bag(x):
    if isinstance(x, Bag):
        return x
    f = getattr(x, '__bag__', None)
    if f is not None:
        return f()
    kind = 'list' if isinstance(x, (list, tuple)) else 'set' if isinstance(x, (set, frozenset)) else 'dict' if isinstance(x, dict) else None
    if kind is None:
        try:
            x = list(x)
            kind = 'list'
        except TypeError:
            return None
    return Bag(kind, [Part([], z3.BoolVal(True), (k, x[k]) if kind == 'dict' else k) for k in x], kind == 'list')


DISPLAY = [False]          # dictionaries written out are modelled, too


def display(kind, v):
    vs = list(v.items()) if isinstance(v, dict) else list(v)
    if not vs or any(unknown(x) for x in vs):
        if kind in ('list', 'set', 'dict'):
            return Bag(kind, [Part([], z3.BoolVal(True), x) for x in vs])
    return set(vs) if kind == 'set' else dict(vs) if kind == 'dict' else vs


def contains(x, c):
    if hasattr(type(x), '__symin__'):
        return x.__symin__(c)
    if isinstance(c, Bag):
        return ZB(c.member(x))
    f = getattr(c, '__symcontains__', None)
    if f is not None:
        return f(x)
    if unknown(x) and isinstance(c, (set, frozenset, list, tuple, dict)):
        return ZB(z3.Or(*[veq(e, x) for e in c]) if c else z3.BoolVal(False))
    return x in c


def flip(p):
    return Part(p.vars, p.cond, p.value, None if p.pos is None else -p.pos, p.group)


ORDER = [0]


def axiom(name, ax):
    """a fact about a new function"""
    if PATHS:
        PATHS[-1].axioms.append((name, ax))
    else:
        AXIOMS.append((name, ax))


def fresh_pos(p, tag='pos'):
    """an unknown total order on the entries"""
    if not p.vars:
        return z3.IntVal(0)
    outer = [v for fr in FRAMES for v in fr.vars]
    f = z3.Function('%s!%d' % (tag, next(_n)), *([z3.IntSort()] * (len(outer) + len(p.vars) + 1)))
    o, a, b = [const('o') for _ in outer], [const('a') for _ in p.vars], [const('b') for _ in p.vars]
    # a statement about a new function only: it is no condition of the path
    ax = z3.ForAll(o + a + b, z3.Implies(f(*(o + a)) == f(*(o + b)), z3.And(*[x == y for x, y in zip(a, b)])))
    axiom(f.name(), ax)
    return f(*(outer + p.vars))


SUM = z3.Function('sum_over_all', z3.ArraySort(z3.IntSort(), z3.IntSort()), z3.IntSort())


def call(f, a, k):
    f0 = f
    f = {rt.min_: min, rt.max_: max, rt.sum_: sum}.get(f, f) if a and ghost(a[0]) else f
    if f is isinstance:
        g = getattr(type(a[0]), '__ghost_isinstance__', None)
        if g is not None:
            return a[0].__ghost_isinstance__(a[1])
        return isinstance(a[0], a[1])
    if f is str and a and isinstance(a[0], Name):
        return a[0]
    if a and hasattr(type(a[0]), '__ghost_call__'):
        return a[0].__ghost_call__(f)
    if f in (list, set, dict, tuple, frozenset) and not a and not k:
        return Bag({list: 'list', set: 'set', dict: 'dict', tuple: 'list', frozenset: 'set'}[f])
    if a and ghost(a[0]):
        b = bag(a[0])
        if f in (set, frozenset):
            return Bag('set', [Part(q.vars, q.cond, key_of(b, q)) for q in (p.fresh() for p in b.read())])
        if f in (list, tuple, iter) and f is not iter:
            r = Bag('list', [Part(q.vars, q.cond, key_of(b, q), q.pos, q.group) for q in (p.fresh() for p in distinct(b))], b.canon and (b.kind == 'list' or b.note == 'ordered'))
            for p in r.parts:
                if p.pos is None:
                    p.pos = fresh_pos(p)
            return r
        if f is dict:
            if b.kind == 'dict':
                return b.copy()
            r = Bag('dict')
            for p in b.read():
                r._setparts(p.fresh())
            return r
        if f is sorted:
            ps = [p.fresh() for p in distinct(b)]
            ps = [Part(p.vars, p.cond, key_of(b, p)) for p in ps]
            if len(ps) > 1 and b.kind == 'set' and len({shape(p.value) for p in ps}) == 1:
                vs = [const('s') for _ in components(ps[0].value)]
                x = rebuild(ps[0].value, list(vs))
                ps = [Part(vs, b.member(x), x)]
            r = Bag('list', ps, 'key' not in k or getattr(k['key'], '__injective__', False))
            if len(ps) == 1:
                ps[0].pos = fresh_pos(ps[0], 'sorted')
                if k.get('key') is not None and ps[0].vars:
                    x, y = ps[0].fresh(), ps[0].fresh()
                    kx, ky = k['key'](x.value), k['key'](y.value)
                    if isinstance(kx, Num):
                        f = z3.Implies(z3.And(x.cond, y.cond, kx.terms[0] < ky.terms[0]), x.pos < y.pos)
                        axiom(ps[0].pos.decl().name(), z3.ForAll(x.vars + y.vars, f))
            elif len(ps) > 1:
                r.mixed = True
            if k.get('reverse') and len(ps) == 1:
                ps[0].pos = -ps[0].pos
            return r
        if f is reversed:
            b.kinds('list', 'dict')
            return Bag('list', [flip(Part(q.vars, q.cond, key_of(b, q), q.pos, q.group)) for q in (p.fresh() for p in reversed(b.read()))], b.canon)
        if f is any:
            return ZB(z3.Or(*[exists(q.vars, z3.And(q.cond, zb(q.value))) for q in (p.fresh() for p in b.read())]) if b.parts else z3.BoolVal(False))
        if f is all:
            return ZB(z3.And(*[forall(q.vars, z3.Implies(q.cond, zb(q.value))) for q in (p.fresh() for p in b.read())]) if b.parts else z3.BoolVal(True))
        if f in (min, max) and not FRAMES and b.kind == 'list':
            ps = [p.fresh() for p in b.read()]
            if any(not isinstance(p.value, (Num, int)) for p in ps):
                raise Unsupported('%s of a collection' % f.__name__)
            if not b:
                raise ValueError('%s of nothing' % f.__name__)
            m = const(f.__name__)
            assume(z3.Or(*[exists(p.vars, z3.And(p.cond, num(p.value) == m)) for p in ps]), *[forall(p.vars, z3.Implies(p.cond, num(p.value) >= m if f is min else num(p.value) <= m)) for p in ps])
            return Num(m)
        if f is sum and b.kind == 'list' and len(a) == 1:
            r = z3.IntVal(0)
            for p in [p.fresh() for p in b.read()]:
                if len(p.vars) != 1 or not isinstance(p.value, (Num, int)):
                    raise Unsupported('sum of a collection')
                r = r + SUM(z3.Lambda(p.vars, z3.If(p.cond, num(p.value), 0)))
            return Num(z3.simplify(r))
        raise Unsupported('%s of a collection' % f.__name__)
    if f in (set, frozenset, list, tuple) and a and not isinstance(a[0], (str, bytes)):
        v = list(a[0])
        if any(unknown(x) for x in v):
            return Bag('set' if f in (set, frozenset) else 'list', [Part([], z3.BoolVal(True), x) for x in v])
        return f(v)
    return f(*a, **k)


def distinct(b):
    """parts whose entries are one per element"""
    ps = b.read()
    if b.kind == 'set':
        ps = [p if injective(p, b) else dedupe(p) for p in ps]
    if b.kind == 'list' or len(ps) <= 1 and all(injective(p, b) for p in ps):
        return ps
    out = []
    for i, p in enumerate(ps):
        if not injective(p, b):
            raise Unsupported('order of a set with repeated entries')
        q = p.fresh()
        c = [z3.Not(member(r, key_of(b, q), b.kind == 'dict')) for r in ps[:i]]
        out.append(Part(q.vars, z3.And(q.cond, *c), q.value, q.pos, q.group))
    return out


def dedupe(p):
    """{value(v) | cond(v)} with one entry per value"""
    p = p.fresh()
    new = [const('d') for _ in components(p.value)]
    v = rebuild(p.value, list(new))
    s, left = solution(p, p.value, v)
    f = z3.And(p.cond, veq(p.value, v))
    if s:
        f = z3.substitute(f, *s)
    return Part(new, exists(left, f), v)


def injective(p, b):
    """different entries have different values"""
    k = key_of(b, p)
    cs = components(k)
    if all(any(c.eq(v) for c in cs) for v in p.vars):
        return True
    a, c = p.fresh(), p.fresh()
    return proved(forall(a.vars + c.vars, z3.Implies(z3.And(a.cond, c.cond, veq(key_of(b, a), key_of(b, c))), z3.And(*[x == y for x, y in zip(a.vars, c.vars)]))))


# ------------------------------------------------------------------ loops
def quantify(facts_, fresh, loop_vars, cond):
    """facts of a path as a condition on the loop variables"""
    f = z3.And(cond, *facts_) if facts_ else cond
    if fresh:
        v = [const('f') for _ in fresh]
        f = z3.Exists(v, z3.substitute(f, *zip(fresh, v)))
    return f


def entries(it):
    """what a loop over the collection visits: parts with one entry per iteration"""
    b = bag(it)
    return b, [Part(p.vars, p.cond, key_of(b, p), p.pos, p.group) for p in (q.fresh() for q in distinct(b))]


def named(facts_, fresh, cond):
    """like quantify, but the chosen values stay in sight: as further variables"""
    return z3.And(cond, *facts_) if facts_ else cond, list(fresh)


def escape(v, vs, fresh, start):
    """a value leaves the iteration that made it"""
    family(v, vs, start)
    return v


class Index(Obj):
    """number of an entry: only good for messages"""


def enumerate_(it):
    b, parts = entries(it)
    out = []
    for p in parts:
        if p.pos is None:
            p.pos = fresh_pos(p)
        out.append(Part(p.vars, p.cond, (Index(p.pos), p.value), p.pos, p.group))
    return Bag('list', out, b.canon and (b.kind == 'list' or b.note == 'ordered'))


def comp(kind, it, cond, fn):
    b, parts = entries(it)
    flat = kind[:4] == 'flat'
    kind = kind[4:] if flat else kind
    out = []
    for p in parts:
        def one():
            assume(p.cond)
            if cond is not None and not cond(p.value):
                return UNBOUND
            v = fn(p.value)
            return bag(v) if flat else v
        fr = Frame(p.vars)
        FRAMES.append(fr)
        try:
            res = explore(one)
        finally:
            FRAMES.pop()
        if fr.effects:
            raise Unsupported('effect in a comprehension')
        for fs, fresh, (st, v) in res:
            if st == 'exc':
                if decide_exists(p, fs, fresh):
                    raise v
                continue
            if v is UNBOUND:
                continue
            c = quantify(fs[1:], fresh, p.vars, p.cond)
            v = escape(v, p.vars, fresh, fr.start)
            if flat:
                for q in v.parts:
                    q = q.fresh()
                    out.append(Part(p.vars + q.vars, z3.And(c, q.cond), key_of(v, q)).fresh())
            else:
                # the variables of different paths must differ
                if fresh and mentions(v, fresh):
                    c, more = named(fs[1:], fresh, p.cond)
                    if kind == 'list' and not determined(p, fs[1:], fresh):
                        raise Unsupported('chosen values in a list')
                    out.append(Part(p.vars + more, c, v, p.pos, p.group).fresh())
                    continue
                out.append(Part(p.vars, c, v, p.pos, p.group).fresh())
    out = merge(out)
    group(None, out)
    canon = b.canon and (b.kind == 'list' or b.note == 'ordered')
    if kind == 'dict':
        r = Bag('dict', [], canon)
        for p in out:
            r.parts.append(p)
        return r
    return Bag('set' if kind == 'set' else 'list', out, canon)


def merge(parts):
    """parts with the same value on different paths"""
    out = []
    for p in parts:
        for q in out:
            if len(q.vars) == len(p.vars) and q.pos is None and p.pos is None:
                s = list(zip(p.vars, q.vars))
                v = subst(p.value, s)
                if same_term(v, q.value):
                    q.cond = z3.Or(q.cond, z3.substitute(p.cond, *s) if s else p.cond)
                    break
            elif len(q.vars) == len(p.vars) and q.pos is not None and p.pos is not None:
                s = list(zip(p.vars, q.vars))
                v = subst(p.value, s)
                if same_term(v, q.value) and z3.substitute(p.pos, *s).eq(q.pos):
                    q.cond = z3.Or(q.cond, z3.substitute(p.cond, *s) if s else p.cond)
                    break
        else:
            out.append(p)
    return out


def same_term(a, b):
    if isinstance(a, Name) and isinstance(b, Name):
        return a.z.eq(b.z)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same_term(x, y) for x, y in zip(a, b))
    if isinstance(a, Obj) and isinstance(b, Obj):
        return type(a) is type(b) and all(x.eq(y) if z3.is_expr(x) and z3.is_expr(y) else same_term(x, y) for x, y in zip(a.terms, b.terms))
    if isinstance(a, (str, int, float, type(None))) and isinstance(b, (str, int, float, type(None))):
        return type(a) is type(b) and a == b
    return a is b


def decide_exists(p, fs, fresh):
    """is there an element on this path?  If so it is named (and the choice makes orders depend on more than the content)"""
    f = quantify(fs[1:] if fs else fs, fresh, p.vars, p.cond)
    if not p.vars:
        return bool(ZB(f))
    if bool(ZB(exists_new(p.vars, f))):
        assume(f)
        PATHS[-1].fresh.extend(p.vars)
        TAINT.append(1)
        return True
    return False


def own(uses):
    """every use of the family is at the index of the iteration itself (some position of the index is the loop variable)"""
    if any(not m.core.formals for p, m in uses):
        return False
    n = max(len(p.vars) for p, m in uses)
    if not n:
        return False
    for k in range(n):
        if not set.intersection(*[{j for j, t in enumerate(m.where()) if k < len(p.vars) and t.eq(p.vars[k])} for p, m in uses]):
            return False
    return True


def unbind(p, formals):
    """drop variables that equal a formal"""
    s, conj = [], []

    def flat(f):
        if z3.is_and(f):
            for c in f.children():
                flat(c)
        else:
            conj.append(f)
    flat(p.cond)
    vs = list(p.vars)
    rest = []
    for f in conj:
        if z3.is_eq(f):
            a, b = f.children()
            for x, y in ((a, b), (b, a)):
                if any(x.eq(g) for g in formals) and any(y.eq(v) for v in vs):
                    s.append((y, x))
                    vs = [v for v in vs if not v.eq(y)]
                    break
            else:
                rest.append(f)
        else:
            rest.append(f)
    if not s:
        return p
    c = z3.And(*rest) if rest else z3.BoolVal(True)
    return Part(vs, z3.substitute(c, *s), subst(p.value, s), None)


def group(m, ps):
    if len(ps) > 1:
        g = next(_n)
        for p in ps:
            p.group = g


def determined(p, fs, fresh):
    """the chosen values are determined by the element"""
    new = [const('g') for _ in fresh]
    a = z3.And(p.cond, *fs)
    return proved(z3.Implies(z3.And(a, z3.substitute(a, *zip(fresh, new))), z3.And(*[x == y for x, y in zip(fresh, new)])))


def lexicographic(p, q):
    """position of what iteration p adds: those of an earlier iteration first"""
    ppos = p.pos if p.pos is not None else fresh_pos(p)
    outer = [v for fr in FRAMES for v in fr.vars]
    f = z3.Function('lex!%d' % next(_n), *([z3.IntSort()] * (len(outer) + len(p.vars) + len(q.vars) + 1)))
    o = [const('o') for _ in outer]
    def inst():
        a, b = [const('a') for _ in p.vars], [const('b') for _ in q.vars]
        s = list(zip(outer + p.vars + q.vars, o + a + b))
        sub = lambda t: z3.substitute(t, *s) if s else t
        return a, b, f(*(o + a + b)), sub(ppos), sub(q.pos)
    a, b, l1, p1, q1 = inst()
    c, d, l2, p2, q2 = inst()
    eq = z3.And(*[x == y for x, y in zip(a, c)]) if a else z3.BoolVal(True)
    axiom(f.name(), z3.ForAll(o + a + b + c + d, z3.And((l1 < l2) == z3.Or(p1 < p2, z3.And(eq, q1 < q2)))))
    return f(*(outer + p.vars + q.vars))


ASSIGNED = {}
MAPINV = []          # (test(map) -> bool, value(map, key)): what a dictionary maps a key to, as an invariant of loops that fill it


def for_(it, body, names, get, put):
    if hasattr(type(it), '__ghost_for__'):
        return it.__ghost_for__(body, names, get, put)
    b, parts = entries(it)
    if not parts:
        return None
    base = get()
    poisoned = ASSIGNED.setdefault(getattr(body, '__code__', None), set())     # variables the body is known to assign
    canon = b.canon and (b.kind == 'list' or b.note == 'ordered') and len(parts) == 1
    for rounds in range(3):
        starts = []
        runs, changed, reads, built, stale = [], set(), {}, [], set()
        for p in parts:
            if len(parts) == 1 and not p.vars and z3.is_true(z3.simplify(p.cond)):
                pass
            fr = Frame(p.vars)

            def building(m, k, p=p, fr=fr):
                for test, value in MAPINV:
                    if m.kind == 'dict' and test(m):
                        if p.pos is None or not p.vars:
                            raise Unsupported('dictionary read while it is filled')
                        q = p.fresh()
                        earlier = z3.And(q.cond, q.pos < p.pos)
                        key = q.value[0] if isinstance(q.value, tuple) else q.value
                        s, left = solution(q, key, k)
                        f = exists(left, z3.substitute(z3.And(earlier, veq(key, k)), *s) if s else z3.And(earlier, veq(key, k)))
                        if not bool(ZB(f)):
                            raise KeyError('no such key yet')
                        built.append(m)
                        return value(m, k)
                return None
            fr.building = building

            def one():
                put(tuple(Poison('value carried through a loop over a collection') if k in poisoned else x for k, x in enumerate(base)))
                assume(p.cond)
                del fr.effects[:]
                r = body(p.value)
                return r, get(), list(fr.effects)
            FRAMES.append(fr)
            try:
                res = explore(one)
            finally:
                FRAMES.pop()
            for k, l in fr.reads.items():
                reads.setdefault(k, []).extend((p, r) for r in l)
            stale |= fr.stale
            starts.append(fr.start)
            runs.append((p, res))
            for fs, fresh, (st, v) in res:
                if st == 'ok' and not (v[0] is BREAK or isinstance(v[0], Ret)):
                    for k, (x, y) in enumerate(zip(v[1], base)):
                        if x is not y and not (type(x) is type(y) and isinstance(x, (str, int, float, bool)) and x == y):
                            changed.add(k)
        if changed <= poisoned:
            break
        poisoned |= changed
    else:
        raise Unsupported('loop over a collection does not settle')
    # iterations that leave
    for p, res in runs:
        for fs, fresh, (st, v) in res:
            if st == 'exc' or v[0] is BREAK or isinstance(v[0], Ret):
                if decide_exists(p, fs, fresh):
                    if st == 'exc':
                        raise v
                    if v[2]:
                        raise Unsupported('loop left with effects')
                    dirty = [e for _, r2 in runs for _, _, (s2, v2) in r2 if s2 == 'ok' for e in v2[2]]
                    if dirty:
                        raise Unsupported('loop with effects left early')
                    put(tuple(Poison('loop left early') if isinstance(x, Poison) else x for x in v[1]))
                    if isinstance(v[0], Ret):
                        if unknown(v[0].value) or v[0].value in (True, False, None) or isinstance(v[0].value, str):
                            return v[0]
                        raise Unsupported('value returned from a loop')
                    return BREAK
    # effects of all iterations
    new = {}
    touched = {}
    for (p, res), start in zip(runs, starts):
        for fs, fresh, (st, v) in res:
            if st != 'ok':
                continue
            for m, add, what in v[2]:
                touched.setdefault(id(m.core), []).append((p, m))
                c = quantify(fs[1:], fresh, p.vars, p.cond)
                l = new.setdefault(id(m.core), (m, what, []))
                if l[1] != what:
                    raise Unsupported('different changes in a loop')
                for q in add:
                    q = q.fresh()
                    family(q.value, p.vars, start)
                    if m.kind == 'list' and q.vars and q.pos is not None:
                        q.pos = lexicographic(p, q)
                        nested = q.pos
                    else:
                        nested = None
                    if fresh and mentions(q.value, fresh):
                        if m.kind == 'list' and not determined(p, fs[1:], fresh):
                            raise Unsupported('chosen values in a list')
                        c2, more = named(fs[1:], fresh, p.cond)
                        pt = Part(p.vars + more + q.vars, z3.And(c2, q.cond), q.value, p.pos if not q.vars else nested).fresh()
                    else:
                        pt = Part(p.vars + q.vars, z3.And(c, q.cond), q.value, p.pos if not q.vars else nested).fresh()
                    if m.core.formals and pt.pos is None:
                        pt = unbind(pt, m.core.formals)
                    if any(m is x for x in built):
                        for test, value in MAPINV:
                            if test(m):
                                x = p.value[0] if isinstance(p.value, tuple) else p.value
                                if not same_term(q.value[0], x) and not proved(veq(q.value[0], x), p.cond, *fs):
                                    raise Unsupported('loop invariant of a dictionary not established')
                                if not proved(veq(value(m, q.value[0]), q.value[1]), p.cond, *fs):
                                    raise Unsupported('loop invariant of a dictionary not established')
                    l[2].append(pt)
    for k, (m, what, ps) in new.items():
        if k in reads and not any(m is x for x in built) and (k in stale or not own(reads[k] + touched[k])):
            raise Unsupported('collection read and changed in a loop')
    for m, what, ps in new.values():
        ps = merge(ps)
        group(m, ps)
        if m.core.formals or what == 'pop':
            if FRAMES and m.birth < FRAMES[-1].start:
                FRAMES[-1].effects.append((m, ps, what))
            else:
                m.install(ps, what, m.core.parts + ps)
            if not any(m.birth < f.start for f in FRAMES):
                m.canon = m.canon and canon
        elif what == 'set':
            if len(ps) > 1 and m.kind == 'dict':
                pass
            old = m.parts
            keep = [Part(q.vars, z3.And(q.cond, *[z3.Not(member(p, q.value[0], True)) for p in ps]), q.value, q.pos, q.group) for q in (r.fresh() for r in old)] if old else []
            m.mutate(keep + ps, ps, 'set')
            if not any(m.birth < f.start for f in FRAMES):
                m.canon = m.canon and canon
        else:
            m.added(ps, canon, what)
    put(tuple(Poison('loop variable after a loop over a collection') if k in poisoned else x for k, x in enumerate(base)))
    return None


INVARIANTS = []      # candidate(state: {name: value}) -> [(label, formula)]
MEASURES = []        # (old state, new state) -> [formula]
NOTES = []           # what loops have established: (label, ok)


def havoc_like(b):
    """an arbitrary collection of the same kind of elements"""
    shapes = {}
    for p in b.parts:
        v = key_of(b, p)
        shapes[shape(v)] = v
    if len(shapes) != 1 or b.kind == 'dict':
        raise Unsupported('loop changes a collection of mixed elements')
    v = list(shapes.values())[0]
    vs = [const('h') for _ in components(v)]
    val = rebuild(v, list(vs))
    f = z3.Function('H!%d' % next(_n), *([z3.IntSort()] * len(vs) + [z3.BoolSort()]))
    p = Part(vs, f(*vs), val)
    if b.kind == 'list':
        g = z3.Function('hp!%d' % next(_n), *([z3.IntSort()] * (len(vs) + 1)))
        p.pos = g(*vs)
        a, c = [const('a') for _ in vs], [const('b') for _ in vs]
        p.inj = z3.ForAll(a + c, z3.Implies(z3.And(f(*a), f(*c), g(*a) == g(*c)), z3.And(*[x == y for x, y in zip(a, c)])))
    return [p]


def shape(v):
    if isinstance(v, (Name, str)):
        return 'name'
    if isinstance(v, tuple):
        return (type(v).__name__,) + tuple(shape(x) for x in v)
    if isinstance(v, Obj):
        return (type(v).__name__,) + tuple('t' if z3.is_expr(t) else shape(t) for t in v.terms)
    raise Unsupported('elements of type %s' % type(v).__name__)


def rebuild(v, vs):
    if isinstance(v, (Name, str)):
        return Name(vs.pop(0))
    if isinstance(v, tuple):
        r = [rebuild(x, vs) for x in v]
        return type(v)(*r) if hasattr(v, '_fields') else tuple(r)
    if isinstance(v, Obj):
        return type(v)(*[vs.pop(0) if z3.is_expr(t) else rebuild(t, vs) for t in v.terms])


def distinct_list(b):
    """no element twice"""
    fs = []
    ps = b.parts
    for i, p in enumerate(ps):
        a, c = p.fresh(), p.fresh()
        if p.vars and not all(any(x.eq(v) for x in components(p.value)) for v in p.vars):
            fs.append(forall(a.vars + c.vars, z3.Implies(z3.And(a.cond, c.cond, veq(a.value, c.value)), z3.And(*[x == y for x, y in zip(a.vars, c.vars)]))))
        for q in ps[i + 1:]:
            a, c = p.fresh(), q.fresh()
            fs.append(forall(a.vars + c.vars, z3.Not(z3.And(a.cond, c.cond, veq(a.value, c.value)))))
    return z3.And(*fs) if fs else z3.BoolVal(True)


def before(b, x, y):
    """some entry x comes before some entry y"""
    if getattr(b, 'mixed', False):
        raise Unsupported('order of merged collections')
    fs = []
    for i, p in enumerate(b.parts):
        for j, q in enumerate(b.parts):
            if i > j:
                continue
            a, c = p.fresh(), q.fresh()
            s1, l1 = solution(a, a.value, x)
            s2, l2 = solution(c, c.value, y)
            f = z3.And(a.cond, c.cond, veq(a.value, x), veq(c.value, y))
            if i != j and p.group is not None and p.group == q.group:
                continue                # interleaved: not known
            if i == j:
                if a.pos is None or c.pos is None:
                    continue
                f = z3.And(f, a.pos < c.pos)
            f = z3.substitute(f, *(s1 + s2)) if s1 + s2 else f
            fs.append(exists(l1 + l2, f))
    return z3.simplify(z3.Or(*fs)) if fs else z3.BoolVal(False)


WHILE = []           # rule of the specification for while loops, if there is one


def while_(test, body, names, get, put):
    if WHILE:
        return WHILE[-1](test, body, names, get, put)

    def snapshot():
        return get()
    base = get()

    def one():
        put(base)
        j = len(JOURNAL)
        if not test():
            raise Cut()
        r = body(None)
        if r is BREAK or isinstance(r, Ret):
            raise Cut()
        touched = []
        for c, _, _, _ in JOURNAL[j:]:
            if not any(c.owner is t for t in touched):
                if c.formals:
                    raise Unsupported('family of collections changed in a while loop')
                touched.append(c.owner)
        return get(), [(b, list(b.parts), b.canon) for b in touched]
    if any(f for f in FRAMES):
        raise Unsupported('while loop inside a loop over a collection')
    first = explore(one, keep=False)
    if not any(r[0] == 'ok' for _, _, r in first) and not any(isinstance(x, Bag) for x in base):
        put(base)
        t = test()
        if not t:
            return None
        return body(None)
    # what changes?
    changed, mutated, samples = {}, [], {}
    clock = next(CLOCK)
    for rounds in range(3):
        for fs, fresh, (st, v) in first:
            if st != 'ok':
                continue
            for k, (x, y) in enumerate(zip(v[0], base)):
                if x is not y:
                    changed.setdefault(k, []).append(x)
            for b, ps, cn in v[1]:
                if b.birth < clock:
                    if not any(b is m for m in mutated):
                        mutated.append(b)
                    samples.setdefault(id(b), []).extend(ps)
        break
    entry = {('bag', id(b)): (list(b.parts), b.canon) for b in mutated}
    # arbitrary state at the start of an iteration
    hstate = list(base)
    hb = {}
    for b in mutated:
        s = Bag(b.kind, [p for p in samples[id(b)]] + b.parts)
        hb[id(b)] = havoc_like(s)
    for k, xs in changed.items():
        if isinstance(base[k], Bag) and all(isinstance(x, Bag) and x.kind == base[k].kind for x in xs):
            if any(base[k] is m for m in mutated):
                if all(x is base[k] for x in xs):
                    continue
                raise Unsupported('a collection is changed and replaced in a loop')
            s = Bag(base[k].kind, [p for x in xs for p in x.parts] + base[k].parts)
            hstate[k] = Bag(base[k].kind, havoc_like(s))
        elif base[k] is UNBOUND:
            hstate[k] = Poison('value carried from one iteration to the next')
        else:
            hstate[k] = Poison('value carried from one iteration to the next')
    live = [k for k, x in enumerate(hstate) if isinstance(x, Bag)]
    names = list(names)

    def state(vals):
        d = {names[k]: x for k, x in enumerate(vals) if isinstance(x, Bag) and (k in changed or any(x is m for m in mutated))}
        for n, b in enumerate(mutated):
            if not any(b is x for x in d.values()):
                d['#%d' % n] = b
        return d
    keys = None

    def cands(vals):
        st = state(vals)
        out = {}
        for n, x in st.items():
            if x.kind == 'list':
                out['%s has no element twice' % n] = distinct_list(x)
                out['%s: order follows from the content' % n] = z3.BoolVal(bool(x.canon))
        for n, x in st.items():
            for m, y in st.items():
                if n != m:
                    out['%s is contained in %s' % (n, m)] = subset(x, y)
        for c in INVARIANTS:
            for label, f in c(st):
                out[label] = f
        return out
    put(tuple(base))
    f0 = facts()
    kept = {}
    c0 = cands(base)
    hkeys = None

    def install():
        for b in mutated:
            JOURNAL.append((b.core, b.parts, b.canon, False))
            b.parts = [Part(p.vars, p.cond, p.value, p.pos, p.group) for p in hb[id(b)]]
            b.canon = '%s: order follows from the content' % label_of(b) in kept if b.kind == 'list' else b.canon
        for k in live:
            if k in changed and not any(hstate[k] is m for m in mutated):
                hstate[k].canon = hstate[k].kind != 'list' or '%s: order follows from the content' % names[k] in kept
        put(tuple(hstate))
        for b in mutated:
            for p in hb[id(b)]:
                if hasattr(p, 'inj'):
                    assume(p.inj)
        for k in live:
            if k in changed:
                for p in hstate[k].parts:
                    if hasattr(p, 'inj'):
                        assume(p.inj)
        c = cands(hstate)
        for label in kept:
            if label in c and not label.endswith('order follows from the content'):
                assume(c[label])

    def label_of(b):
        for n, x in state(hstate).items():
            if x is b:
                return n
        return '?'
    for label, f in c0.items():
        if proved(f):
            kept[label] = f
    bad = set()

    def iterate():
        install()
        old = {n: Bag(x.kind, list(x.parts)) for n, x in state(hstate).items()}
        if not test():
            raise Cut()
        r = body(None)
        if r is BREAK or isinstance(r, Ret):
            raise Cut()
        now = get()
        c = cands(now)
        for l in list(kept):
            if l not in bad and (l not in c or not proved(c[l], timeout=CANDIDATE)):
                bad.add(l)
        m = []
        if not bad:
            for f in MEASURES:
                for l, g in f(old, state(now)):
                    if not m and proved(g, timeout=CANDIDATE):
                        m.append(l)
        return (), m
    for rounds in range(20):
        bad.clear()
        res = explore(iterate)
        ms = None
        for fs, fresh, (st, v) in res:
            if st == 'ok':
                ms = set(v[1]) if ms is None else ms & set(v[1])
        if not bad:
            break
        for l in bad:
            del kept[l]
    else:
        raise Unsupported('loop invariant not found')
    NOTES.append(('loop invariant', sorted(kept)))
    if ms is not None:
        NOTES.append(('termination', sorted(ms)))
    install()
    if not test():
        return None
    r = body(None)
    if r is BREAK or isinstance(r, Ret):
        return r
    raise Cut()


def run(fn, base=(), limit=64):
    """explore a call of the code under verification -> list of (facts, fresh, outcome)"""
    del BASE[:], AXIOMS[:], JOURNAL[:], FRAMES[:], PATHS[:], TAINT[:], NOTES[:]
    BASE.extend(base)
    SETMODE[0] = True
    try:
        return explore(fn, limit)
    finally:
        SETMODE[0] = False
