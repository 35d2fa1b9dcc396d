"""C19: wiring layers: names, scopes, connections and the generated architecture, for any number of layers."""
import string
import z3
from engine import sets, rt, verify
from engine.poly import *
from engine.prover import *
from engine.rt import *
from engine.sets import Bag, Part, Name, Num, Obj, Text, ZB, const, code, exists, forall
from engine.verify import StandIn, lemma
from . import common
from .c06 import ob, paths, patch

ASSUMPTIONS = ['dictionaries, lists and sets behave as in engine/sets.py', 'a scope holds finitely many names, so the search for a free index ends',
               'two derived names are equal only if base name and index are (a decimal index has no underscore: proved as a statement about strings for the last underscore)',
               'no argument of a layer is called "@type" or "@outgoing_connections"', 'the scaling dimensions of a shape are determined by its type (BufferStructure.validate)']
TRUSTED = ['engine/*.py', 'z3', common.EXTRACTION]
I, Bo = z3.IntSort(), z3.BoolSort()
OUT = z3.Function('outgoing', I, I, I, I, Bo)          # layer, output name, input name, layer
OPOS = z3.Function('outgoing_position', I, I, I, I, I)
IN = z3.Function('incoming', I, I, I, I, Bo)
IPOS = z3.Function('incoming_position', I, I, I, I, I)
CID = z3.Function('creation_number', I, I)
ITEMS = [dict(kind='architecture'), dict(kind='names')]
WRAP = [dict(kind='wrappers'), dict(kind='architecture')]


def _layer():
    from brainstorm.structure import construction as K
    return K.LayerDetails


class Layer(Obj, StandIn):
    """a layer whose connections are arbitrary"""
    real = staticmethod(_layer)

    @property
    def outgoing(self):
        o, i, m = const('o'), const('i'), const('m')
        l = self.terms[0]
        return Bag('list', [Part([o, i, m], OUT(l, o, i, m), (Name(o), Name(i), Layer(m)), OPOS(l, o, i, m))])

    @property
    def incoming(self):
        o, i, m = const('o'), const('i'), const('m')
        l = self.terms[0]
        return Bag('list', [Part([o, i, m], IN(l, o, i, m), (Layer(m), Name(o), Name(i)), IPOS(l, o, i, m))])

    @property
    def creation_id(self):
        return Num(CID(self.terms[0]))


def edge(a, b):
    o, i = const('o'), const('i')
    return z3.Or(z3.Exists([o, i], OUT(a, o, i, b)), z3.Exists([o, i], IN(a, o, i, b)))


INSIDE = z3.Function('in_a_closed_set', I, Bo)


def connected(rec):
    from brainstorm.structure import construction as K
    FN = 'LayerDetails.collect_connected_layers'
    s, x, y = const('self'), const('x'), const('y')

    def closed(state):
        for n, b in state.items():
            yield '%s: within any closed set' % n, z3.ForAll([x], z3.Implies(b.member(Layer(x)), INSIDE(x)))
            yield '%s: contains the start' % n, b.member(Layer(s))
            yield '%s: closed' % n, z3.ForAll([x, y], z3.Implies(z3.And(b.member(Layer(x)), edge(x, y)), b.member(Layer(y))))
            for m, c in state.items():
                if m != n:
                    yield '%s or %s contains the start' % (n, m), z3.Or(b.member(Layer(s)), c.member(Layer(s)))
                    yield '%s: neighbours are in it or in %s' % (n, m), z3.ForAll([x, y], z3.Implies(z3.And(b.member(Layer(x)), edge(x, y)), z3.Or(b.member(Layer(y)), c.member(Layer(y)))))
                    yield '%s and %s are disjoint' % (n, m), z3.ForAll([x], z3.Not(z3.And(b.member(Layer(x)), c.member(Layer(x)))))

    def measure(old, new):
        for n, b in old.items():
            if n in new and b.kind == new[n].kind:
                yield '%s grows within the layers reached' % n, z3.And(z3.ForAll([x], z3.Implies(b.member(Layer(x)), new[n].member(Layer(x)))), z3.ForAll([x], z3.Implies(new[n].member(Layer(x)), INSIDE(x))),
                                                                       z3.Exists([x], z3.And(new[n].member(Layer(x)), z3.Not(b.member(Layer(x))))))

    def handle(kind, v):
        if kind == 'exc':
            rec.add(FN + ': returns normally', FN, 'undecided', verify.rexc(v), failed=True, items=ITEMS)
            return
        ob(rec, FN + ': contains the layer itself', FN, v.member(Layer(s)), items=ITEMS)
        ob(rec, FN + ': with every layer all layers it is connected to', FN, z3.ForAll([x, y], z3.Implies(z3.And(v.member(Layer(x)), edge(x, y)), v.member(Layer(y)))), items=ITEMS)
        ob(rec, FN + ': nothing else (it is inside every closed set that contains the layer)', FN, z3.ForAll([x], z3.Implies(v.member(Layer(x)), INSIDE(x))), items=ITEMS)
        t = [n for n in sets.NOTES if n[0] == 'termination']
        rec.add(FN + ': terminates', FN, 'proved' if t and all(n[1] for n in t) else 'undecided', str(t), items=ITEMS)
    sets.INVARIANTS[:] = [closed]
    sets.MEASURES[:] = [measure]
    base = [INSIDE(s), z3.ForAll([x, y], z3.Implies(z3.And(INSIDE(x), edge(x, y)), INSIDE(y)))]
    paths(rec, FN, [FN], lambda: K.LayerDetails.collect_connected_layers(Layer(s)), base, handle)


# ------------------------------------------------------------------ wiring
class Node(StandIn):
    """a layer with arbitrary connections, to which connections are added"""
    real = staticmethod(_layer)

    def __init__(self, z, log):
        l = Layer(z)
        self.z, self.outgoing, self.incoming, self.log = z, l.outgoing, l.incoming, log

    def merge_scopes(self, other):
        self.log.append((self, other))


def wiring(rec):
    from brainstorm.structure import construction as K
    C = K.ConstructionWrapper
    a, b = const('a'), const('b')
    ns = [const(n) for n in ('out', 'in', 'other_out', 'other_in')]
    o, i, m = const('o'), const('i'), const('m')
    FN = 'ConstructionWrapper.__rshift__'
    for same in (False, True):
        label = FN + (' (to itself)' if same else '')

        def run():
            log = []
            x = Node(a, log)
            y = x if same else Node(b, log)
            l = C(x, input_name=Name(ns[1]), output_name=Name(ns[0]))
            r = C(y, input_name=Name(ns[3]), output_name=Name(ns[2]))
            return x, y, l, r, log, C.__rshift__(l, r)

        def handle(kind, v):
            if kind == 'exc':
                rec.add(label + ': returns normally', FN, 'undecided', verify.rexc(v), failed=True, items=WRAP)
                return
            x, y, l, r, log, res = v
            ok = res is r or isinstance(res, C) and res.layer is y and res.input_name is r.input_name and res.output_name is r.output_name
            rec.add(label + ': gives the right-hand side', FN, 'proved' if ok else 'undecided', failed=not ok, items=WRAP)
            ok = len(log) == 1 and set(map(id, log[0])) == {id(x), id(y)} or same and not log
            rec.add(label + ': joins the scopes', FN, 'proved' if ok else 'undecided', failed=not ok, items=WRAP)
            wrap = Plain

            def is_(t, z):
                return t is (x if z is a else y)
            # lists hold the layers themselves
            for what, node, old, mk, new in (('outgoing', x, lambda: OUT(a, o, i, m), lambda: (Name(o), Name(i), Layer(m)), (ns[0], ns[3], y)), ('incoming', y, lambda: IN(a if same else b, o, i, m), lambda: (Layer(m), Name(o), Name(i)), (ns[0], ns[3], x))):
                bag = getattr(node, what)
                first, rest = bag.parts[0], bag.parts[1:]
                kept = sets.Bag('list', [first])
                ob(rec, label + ': %s connections are kept' % what, FN, z3.ForAll([o, i, m], kept.member(mk()) == old()), items=WRAP)
                ok = len(rest) == 1 and not rest[0].vars
                rec.add(label + ': one new %s connection' % what, FN, 'proved' if ok else 'undecided', failed=not ok, items=WRAP)
                if ok:
                    t = rest[0].value
                    lay, nm = (t[2], t[:2]) if what == 'outgoing' else (t[0], t[1:])
                    ok = lay is new[2]
                    rec.add(label + ': %s: to the other layer' % what, FN, 'proved' if ok else 'undecided', failed=not ok, items=WRAP)
                    ob(rec, label + ': %s: under the names given' % what, FN, z3.And(rest[0].cond, nm[0].z == new[0], nm[1].z == new[1]), items=WRAP)
        paths(rec, label, [FN], run, [], handle)

    def others():
        log = []
        x = object()
        w = C(x, input_name='i', output_name='o')
        for name, r, want in (('C - name names the output', C.__sub__(w, 'n'), ('i', 'n')), ('name - C names the input', C.__rsub__(w, 'n'), ('n', 'o'))):
            ok = isinstance(r, C) and r is not w and r.layer is x and (r.input_name, r.output_name) == want and (w.input_name, w.output_name) == ('i', 'o')
            rec.add('ConstructionWrapper: ' + name, 'ConstructionWrapper.__sub__', 'proved' if ok else 'undecided', failed=not ok, items=WRAP)
        ok = all(f(w, y) is NotImplemented for f in (C.__sub__, C.__rsub__, C.__rshift__) for y in (3, None, [], object()))
        rec.add('ConstructionWrapper: refuses other operands', 'ConstructionWrapper.__rshift__', 'proved' if ok else 'undecided', failed=not ok, items=WRAP)
        rec.under('ConstructionWrapper.__sub__', 'ConstructionWrapper.__rsub__')
    rec.attempt('ConstructionWrapper', 'ConstructionWrapper.__sub__', others)


class Plain(object):
    pass


# ------------------------------------------------------------------ scopes
def scope_parts(has, elem):
    n, x = const('n'), const('x')
    return n, x


class Scope(object):
    """a scope: a dictionary of arbitrary names to the layers that want the name; a loop over it may touch the entry of its name only"""
    __ghost__ = True
    bag_type = dict

    def __init__(self, name, has, elem):
        self.name, self.has, self.elem = name, has, elem
        self.slot = None                   # in a loop: (name, content or None)

    def content(self, n):
        x = const('x')
        p = Part([x], self.elem(n, x), Scoped(x))
        p.pos = z3.Function('place in %s' % self.name, I, I, I)(n, x)
        return Bag('list', [p])

    def key(self, k):
        z = sets.zname(k)
        cur = CURRENT[-1] if CURRENT else None
        if cur is None:
            return z, None
        if not z.eq(cur) and not sets.proved(z == cur):
            raise Unsupported('another entry of a scope')
        return z, cur

    def __symcontains__(self, k):
        z, cur = self.key(k)
        if self.slot is not None:
            return ZB(z3.BoolVal(self.slot[0] is not None))
        return ZB(self.has(z))

    def __getitem__(self, k):
        z, cur = self.key(k)
        if self.slot is not None:
            return self.slot[0]
        if not ZB(self.has(z)):
            raise KeyError('name')
        return self.content(z)

    def get(self, k, d=None):
        return self[k] if self.__symcontains__(k) else d

    def setdefault(self, k, d=None):
        if not self.__symcontains__(k):
            self[k] = d
        return self[k]

    def __setitem__(self, k, v):
        z, cur = self.key(k)
        if cur is None:
            raise Unsupported('entry of a scope set outside of a loop')
        if not isinstance(v, Bag):
            v = Bag('list', [Part([], z3.BoolVal(True), e) for e in v])
        self.slot = (v,)

    def items(self):
        return Items(self, lambda z: (Name(z), self.content(z)))

    def keys(self):
        return Items(self, lambda z: Name(z))

    def values(self):
        return Items(self, lambda z: self.content(z))

    def __iter__(self):
        raise Unsupported('iteration over a scope outside the loop rule')

    def __ghost_for__(self, body, names, get, put):
        return self.keys().__ghost_for__(body, names, get, put)


CURRENT, WORLD = [], []


class Items(object):
    """loop over a scope: executed at an arbitrary name"""
    __ghost__ = True

    def __init__(self, scope, entry):
        self.scope, self.entry = scope, entry

    def __ghost_for__(self, body, names, get, put):
        w = WORLD[-1]
        if CURRENT:
            raise Unsupported('loop over a scope inside another')
        base = get()
        n = const('n')
        results = []

        def one():
            sets.assume(self.scope.has(n))
            for s in w['scopes']:
                s.slot = None
            CURRENT.append(n)
            try:
                r = body(self.entry(n))
            finally:
                CURRENT.pop()
                slots = [(s, s.slot) for s in w['scopes']]
                for s in w['scopes']:
                    s.slot = None
            if r is rt.BREAK or isinstance(r, rt.Ret):
                raise Unsupported('loop over a scope left early')
            for (a, x), b in zip(zip(names, get()), base):
                pass
            for s, v in slots:
                if v is not None:
                    results.append((s, v[0], list(sets.facts())))
                    w['check'](s, n, v[0])
                else:
                    w['untouched'](s, n)
        before = len(w['assigned'].parts)
        fr = sets.Frame([n])
        # assignments to the layers of the entry are collected over all names
        sets.FRAMES.append(fr)
        try:
            res = sets.explore(one)
        finally:
            sets.FRAMES.pop()
        for fs, fresh, (st, v) in res:
            if st == 'exc':
                raise v
        adds = {}
        for m, add, what in fr.effects:
            if m is not w['assigned'] or what != 'add':
                raise Unsupported('other changes in a loop over a scope')
        for fs, fresh, (st, v) in res:
            pass
        if fr.effects:
            # every name, on every path (a path that does not assign is found by the check of the last path)
            parts = []
            for m, add, what in fr.effects:
                for q in add:
                    q = q.fresh()
                    parts.append(Part([n] + q.vars, z3.And(self.scope.has(n), q.cond), q.value).fresh())
            if len(res) > 1:
                raise Unsupported('assignments in some cases only')
            w['assigned'].added(parts)
        changed = {id(s) for s, _, _ in results}
        for s in w['scopes']:
            if id(s) in changed:
                w['install'](s, self.scope)
        put(tuple(x if x is y else Poison('after a loop over a scope') for x, y in zip(get(), base)))
        return None


class Scoped(Obj):
    """a layer in a scope"""

    def __setattr__(self, n, v):
        if n == 'scope':
            w = WORLD[-1]
            if v is not w['self'].scope:
                w['other values'].append(v)
            w['assigned'].add(Scoped(self.terms[0]))
            return
        object.__setattr__(self, n, v)

    @property
    def creation_id(self):
        return Num(CID(self.terms[0]))


IN1, IN2 = z3.Function('in_scope', I, Bo), z3.Function('in_other_scope', I, Bo)
EL1, EL2 = z3.Function('scoped', I, I, Bo), z3.Function('other_scoped', I, I, Bo)


def merging(rec):
    from brainstorm.structure import construction as K
    FN = 'UniquelyNamed.merge_scopes'
    items = [dict(kind='names')]
    for same in (False, True):
        label = FN + (' (already joined)' if same else '')
        x, y, n = const('x'), const('y'), const('n')
        merged_in = lambda n: IN1(n) if same else z3.Or(IN1(n), IN2(n))
        merged_el = lambda n, x: EL1(n, x) if same else z3.Or(EL1(n, x), EL2(n, x))

        def run():
            s1 = Scope('scope', IN1, EL1)
            s2 = s1 if same else Scope('other scope', IN2, EL2)

            class Thing(StandIn):
                real = staticmethod(lambda: K.UniquelyNamed)
            me, other = Thing(), Thing()
            me.scope, other.scope = s1, s2
            w = dict(scopes=[s1] if same else [s1, s2], assigned=Bag('set'), self=me, me=me, other=other)
            w['other values'] = []
            w['done'] = []

            def check(s, n, v):
                v = sets.bag(v) if not isinstance(v, Bag) else v
                if s is not s1:
                    w['done'].append(s)
                    return
                ob(rec, label + ': an entry holds the layers of both', FN, z3.ForAll([x], v.member(Scoped(x)) == merged_el(n, x)), items=items)
                ob(rec, label + ': each once', FN, sets.distinct_list(v), items=items)
                ob(rec, label + ': in the order of creation', FN, z3.ForAll([x, y], z3.Implies(z3.And(merged_el(n, x), merged_el(n, y), CID(x) < CID(y)), sets.before(v, Scoped(x), Scoped(y)))), items=items)

            def install(s, over):
                if s is not s1:
                    raise Unsupported('the other scope is changed')
                # only names of the scope the loop runs over have been visited
                rec.add(label + ': the loop visits the names of the other scope', FN, 'proved' if over is s2 or same else 'undecided', items=items)
                s.has, s.elem = merged_in, merged_el
            w['check'], w['install'], w['untouched'] = check, install, lambda s, n: None
            WORLD[:] = [w]
            del CURRENT[:]
            K.UniquelyNamed.merge_scopes(me, other)
            return w, s1

        def handle(kind, v):
            if kind == 'exc':
                rec.add(label + ': returns normally', FN, 'undecided', verify.rexc(v), failed=True, items=items)
                return
            w, s1 = v
            ok = not w['other values'] and w['me'].scope is s1
            rec.add(label + ': one scope for all', FN, 'proved' if ok else 'undecided', failed=not ok, items=items)
            if ok:
                ob(rec, label + ': it has the names of both', FN, z3.ForAll([n], s1.has(n) == merged_in(n)), items=items)
                # the layers of its own scope have it already
                entry = lambda f: z3.Exists([n], f(n, x))
                ob(rec, label + ': every layer of the other scope gets it', FN, z3.ForAll([x], z3.Implies(entry(EL1 if same else EL2), z3.Or(entry(EL1), w['assigned'].member(Scoped(x))))), items=items)
                ob(rec, label + ': nobody else gets it', FN, z3.ForAll([x], z3.Implies(w['assigned'].member(Scoped(x)), entry(merged_el))), items=items)
        base = [z3.ForAll([n, x], z3.Implies(EL1(n, x), IN1(n))), z3.ForAll([n, x], z3.Implies(EL2(n, x), IN2(n))), z3.ForAll([x, y], z3.Implies(CID(x) == CID(y), x == y))]
        paths(rec, label, [FN], run, base, handle)


# ------------------------------------------------------------------ names
DNAME = z3.Function('derived_name', I, I, I)          # base, index
SINGLE = z3.Function('alone_under', I, Bo)            # the name is in the scope, with one layer
MANY = z3.Function('several_under', I, Bo)


ALONE = z3.Function('derived_name_alone', I, Bo)      # base_index is a name of the scope with one layer
SHARED = z3.Function('derived_name_present', I, Bo)


def derived(t):
    """the index of a name base_index"""
    if isinstance(t, Text) and t.terms[0].eq(code('{}_{}')) and isinstance(t.terms[1], Name) and t.terms[1].z.eq(BASEZ) and isinstance(t.terms[2], (Num, int)):
        return sets.num(t.terms[2])
    raise Unsupported('a name that is not base_index')


def alone(k):
    return SINGLE(k.z) if isinstance(k, Name) else ALONE(derived(k))


def present(k):
    return z3.Or(alone(k), MANY(k.z) if isinstance(k, Name) else SHARED(derived(k)))


class Siblings(object):
    """the layers under a name, in order"""
    __ghost__ = True

    def __init__(self, k, me=None, other=None):
        self.k, self.me, self.other = k, me, other

    def __symlen__(self):
        n = const('n')
        sets.assume(n >= 1, (n == 1) == alone(self.k))
        return Num(n)

    def __getitem__(self, k):
        raise Unsupported('layer by place')

    def __bool__(self):
        return True

    def __ghost_for__(self, body, names, get, put):
        if self.me is None:
            raise Unsupported('loop over other names')
        base = get()
        idx = [k for k, x in enumerate(base) if isinstance(x, (int, Num)) and not isinstance(x, bool)]
        if len(idx) != 1:
            raise Unsupported('loop over layers without one index')
        start = sets.num(base[idx[0]])
        s = const('start')
        note = OBS[-1]

        def state():
            return tuple(Num(s) if k == idx[0] else x if x is rt.UNBOUND or not isinstance(x, (Num, Text)) else Poison('carried') for k, x in enumerate(base))

        def other():
            sets.assume(s >= start)
            put(state())
            r = body(self.other)
            if r is rt.BREAK or isinstance(r, rt.Ret):
                note['early'] = True
                raise sets.Cut()
            v = get()[idx[0]]
            if not isinstance(v, (Num, int)):
                raise Unsupported('index after an iteration')
            j = const('j')
            # whatever index the layer of this iteration gets, the next one starts behind it
            g = z3.ForAll([j], z3.Implies(first(s, j), sets.num(v) > j))
            ob(note['rec'], note['fn'] + ': later layers get larger indices', note['fn'], g, items=note['items'])
            ob(note['rec'], note['fn'] + ': the index grows', note['fn'], sets.num(v) > s, items=note['items'])
            for x, y in zip(get(), base):
                if x is not y and not isinstance(x, (Num, Text, int)) and y is not rt.UNBOUND:
                    raise Unsupported('other values carried through the loop')
        sets.explore(other)
        # the iteration of the layer itself, at an arbitrary place
        sets.assume(s >= start)
        note['start'] = s
        put(state())
        r = body(self.me)
        if isinstance(r, rt.Ret):
            return r
        note['missed'] = True
        raise sets.Cut()


def first(s, j):
    """j is the first index from s on that is free"""
    x = const('x')
    return z3.And(j >= s, z3.Not(ALONE(j)), z3.ForAll([x], z3.Implies(z3.And(x >= s, x < j), ALONE(x))))


BASEZ = const('basename')
OBS = []


class NameScope(object):
    __ghost__ = True

    def __init__(self, me, other):
        self.me, self.other = me, other

    def __symcontains__(self, k):
        return ZB(present(k))

    def __getitem__(self, k):
        if not self.__symcontains__(k):
            raise KeyError('name')
        mine = isinstance(k, Name) and k.z.eq(BASEZ)
        return Siblings(k, self.me if mine else None, self.other)

    def get(self, k, d=None):
        return self[k] if self.__symcontains__(k) else d


def while_rule(test, body, names, get, put):
    """search for an index: the state is one number and the name that belongs to it"""
    base = get()
    idx = [k for k, x in enumerate(base) if isinstance(x, (int, Num)) and not isinstance(x, bool)]
    if len(idx) != 1:
        raise Unsupported('while loop without one index')
    s = sets.num(base[idx[0]])
    named = [k for k, x in enumerate(base) if isinstance(x, Text)]
    for k in named:
        if not sets.proved(derived(base[k]) == s):
            raise Unsupported('name that does not belong to the index')
    w = const('w')
    x = const('x')

    def inv(j):
        return z3.And(j >= s, z3.ForAll([x], z3.Implies(z3.And(x >= s, x < j), ALONE(x))))

    def state():
        return tuple(Num(w) if k == idx[0] else Text(code('{}_{}'), Name(BASEZ), Num(w)) if k in named else v for k, v in enumerate(base))

    def step():
        sets.assume(inv(w))
        put(state())
        if not test():
            raise sets.Cut()
        r = body(None)
        if r is rt.BREAK or isinstance(r, rt.Ret):
            raise Unsupported('search loop left early')
        v = get()
        j = v[idx[0]]
        if not isinstance(j, (Num, int)):
            raise Unsupported('index')
        if not sets.proved(z3.And(inv(sets.num(j)), sets.num(j) > w), timeout=8000) or any(not isinstance(v[k], Text) or not sets.proved(derived(v[k]) == sets.num(j)) for k in named):
            raise Unsupported('invariant of the search loop')
        if any(v[k] is not base[k] for k in range(len(base)) if k != idx[0] and k not in named):
            raise Unsupported('other values change in the search loop')
    sets.explore(step)
    sets.assume(inv(w))
    put(state())
    if not test():
        return None
    raise sets.Cut()


def naming(rec):
    from brainstorm.structure import construction as K
    FN = 'UniquelyNamed.name'
    items = [dict(kind='names')]
    j, x = const('j'), const('x')

    class Thing(StandIn):
        real = staticmethod(lambda: K.UniquelyNamed)

    def run():
        me, other = Thing(), Thing()
        me._basename = Name(BASEZ)
        me.scope = NameScope(me, other)
        OBS[:] = [dict(rec=rec, fn=FN, items=items)]
        return OBS[-1], K.UniquelyNamed.name.fget(me)

    def handle(kind, v):
        if kind == 'exc':
            rec.add(FN + ': returns normally', FN, 'undecided', verify.rexc(v), failed=True, items=items)
            return
        note, r = v
        if isinstance(r, Name):
            ob(rec, FN + ': alone under its base name, a layer has that name', FN, z3.And(r.z == BASEZ, SINGLE(BASEZ)), items=items)
            return
        if not isinstance(r, Text):
            rec.add(FN + ': gives a name', FN, 'undecided', repr(r)[:80], failed=True, items=items)
            return
        s = note['start']
        ob(rec, FN + ': others get base_index with the first free index', FN, z3.And(z3.Not(SINGLE(BASEZ)), first(s, derived(r))), items=items)
        rec.add(FN + ': only the layer itself ends the search', FN, 'undecided' if note.get('early') else 'proved', failed=bool(note.get('early')), items=items)
    base = [z3.Or(SINGLE(BASEZ), MANY(BASEZ)), z3.Not(z3.And(SINGLE(BASEZ), MANY(BASEZ)))]
    sets.WHILE[:] = [while_rule]
    try:
        paths(rec, FN, [FN], run, base, handle)
    finally:
        del sets.WHILE[:]
    # uniqueness: the names of any two layers of a scope differ
    a, b = const('a'), const('b')
    B, J, NM, P = [z3.Function(n, I, I) for n in ('base_of', 'index_of', 'name_of', 'place_of')]
    c, k = const('c'), const('k')
    facts = [z3.ForAll([a], z3.Or(SINGLE(B(a)), MANY(B(a)))), z3.ForAll([x], z3.Not(z3.And(SINGLE(x), MANY(x)))),
             z3.ForAll([a, b], z3.Implies(z3.And(SINGLE(B(a)), B(a) == B(b)), a == b)),
             z3.ForAll([a], z3.Implies(SINGLE(B(a)), NM(a) == B(a))),
             z3.ForAll([a], z3.Implies(MANY(B(a)), z3.And(NM(a) == DNAME(B(a), J(a)), z3.Not(SINGLE(DNAME(B(a), J(a))))))),
             z3.ForAll([a, b], z3.Implies(z3.And(B(a) == B(b), P(a) < P(b)), J(a) < J(b))), z3.ForAll([a, b], z3.Implies(z3.And(B(a) == B(b), P(a) == P(b)), a == b)),
             z3.ForAll([x, j, c, k], z3.Implies(DNAME(x, j) == DNAME(c, k), z3.And(x == c, j == k)))]
    u, v = const('u'), const('v')
    lemma(rec, 'no two layers of a scope have the same name', 'UniquelyNamed.name', facts + [u != v], NM(u) != NM(v))


def strings_(rec):
    """derived names: valid if the base name is, and different for different base names or indices"""
    from brainstorm import utils
    from engine import strings
    FN = 'is_valid_layer_name'
    items = [dict(kind='refuse')]
    s, d = z3.Const('s', strings.S), z3.Const('d', strings.S)
    s2, d2 = z3.Const('s2', strings.S), z3.Const('d2', strings.S)
    digits = z3.Plus(z3.Range('0', '9'))

    def run():
        a = utils.is_valid_layer_name(strings.Str(s))
        b = utils.is_valid_layer_name(strings.Str(z3.Concat(s, z3.StringVal('_'), d)))
        return a, b

    def handle(kind, v):
        if kind == 'exc':
            rec.add(FN + ': returns normally', FN, 'undecided', verify.rexc(v), failed=True, items=items)
            return
        a, b = v
        ob(rec, 'a derived name is valid if the base name is', FN, z3.Implies(sets.zb(a), sets.zb(b)), items=items)
    with strings.patched(utils):
        paths(rec, FN, [FN], run, [z3.InRe(d, digits)], handle)


# ------------------------------------------------------------------ the generated architecture
NAMEOF = z3.Function('name_of_layer', I, I)
KW = z3.Function('has_argument', I, I, Bo)
KWV = z3.Function('argument', I, I, I)
TYP = z3.Function('type_of_layer', I, I)
COMP = z3.Function('connected_to', I, I, Bo)
EARLIER = z3.Function('earlier_connection', I, I, I, Bo)      # output, name of a layer, input


class Arg(Obj):
    """the value of an argument"""


class Described(Obj, StandIn):
    """a layer with arbitrary connections and arguments"""
    real = staticmethod(_layer)

    @property
    def name(self):
        return Name(NAMEOF(self.terms[0]))

    @property
    def layer_type(self):
        return Name(TYP(self.terms[0]))

    @property
    def layer_kwargs(self):
        k = const('k')
        return Bag('dict', [Part([k], KW(self.terms[0], k), (Name(k), Arg(KWV(self.terms[0], k))))])

    @property
    def outgoing(self):
        return Connections(self.terms[0])

    def collect_connected_layers(self):
        x = const('x')
        return Bag('set', [Part([x], COMP(self.terms[0], x), Described(x))])


def pieces(t):
    if isinstance(t, str):
        return [t] if t else []
    if isinstance(t, Name):
        return [t]
    if not isinstance(t, Text):
        raise Unsupported('connection that is not a text')
    tmpl = sets.decode(t.terms[0])
    out, args = [], list(t.terms[1:])
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(tmpl):
        if lit:
            out.append(lit)
        if field is None:
            continue
        if spec or conv or not (field == '' or field.isdigit()):
            raise Unsupported('format of a connection')
        out += pieces(args[int(field) if field else auto])
        auto += 1
    res = []
    for x in out:
        if res and isinstance(x, str) and isinstance(res[-1], str):
            res[-1] += x
        else:
            res.append(x)
    return res


class Grouped(object):
    """the dictionary filled by a loop over the connections: each output name that occurred, with the connections of that name"""
    __ghost__ = True
    bag_type = dict

    def __init__(self, factory=None):
        self.o, self.slot, self.factory, self.done = None, None, factory, None

    def earlier(self):
        m, i = const('m'), const('i')
        return Bag('list', [Part([m, i], EARLIER(self.o, m, i), Text(code('{}.{}'), Name(m), Name(i)))])

    def key(self, k):
        if self.o is None or not isinstance(k, Name) or not (k.z.eq(self.o) or sets.proved(k.z == self.o)):
            raise Unsupported('another entry of the dictionary of connections')

    def __bool__(self):
        o, i, m = const('o'), const('i'), const('m')
        if self.done is None:
            raise Unsupported('the connections collected so far')
        return bool(ZB(z3.Exists([o, i, m], OUT(self.done, o, i, m))))

    def present(self):
        m, i = const('m'), const('i')
        return z3.Exists([m, i], EARLIER(self.o, m, i))

    def __symcontains__(self, k):
        self.key(k)
        return True if self.slot is not None else ZB(self.present())

    def __getitem__(self, k):
        if not self.__symcontains__(k):
            if self.factory is not list:
                raise KeyError('output')
            self.slot = Bag('list', [])
        if self.slot is None:
            self.slot = self.earlier()
        return self.slot

    def get(self, k, d=None):
        return self[k] if self.__symcontains__(k) else d

    def setdefault(self, k, d=None):
        if not self.__symcontains__(k):
            self[k] = d
        return self[k]

    def __setitem__(self, k, v):
        self.key(k)
        if not isinstance(v, Bag):
            if not isinstance(v, list):
                raise Unsupported('connections that are not a list')
            v = Bag('list', [Part([], z3.BoolVal(True), e) for e in v])
        self.slot = v


class Connections(object):
    """loop over the outgoing connections of a layer: executed at an arbitrary one, after any others"""
    __ghost__ = True

    def __init__(self, l):
        self.l = l

    def __symlen__(self):
        raise Unsupported('number of connections')

    def __ghost_for__(self, body, names, get, put):
        note = OBS[-1]
        cells = []
        for c in body.__closure__ or ():
            try:
                v = c.cell_contents
            except ValueError:
                continue
            if isinstance(v, Bag) and v.kind == 'dict' and not v.parts or isinstance(v, dict) and not v:
                cells.append((c, getattr(v, 'default_factory', None)))
        if len(cells) != 1 or note.get('done'):
            raise Unsupported('loop over connections')
        note['done'] = True
        (cell, factory), base = cells[0], get()
        o, i, m = const('o'), const('i'), const('m')
        y, k = const('y'), const('k')

        def one():
            sets.assume(OUT(self.l, o, i, m))
            g = cell.cell_contents = Grouped(factory)
            g.o = o
            r = body((Name(o), Name(i), Described(m)))
            if r is rt.BREAK or isinstance(r, rt.Ret):
                rec_fail(note, 'looks at every connection')
                return
            new = g.slot
            if new is None:
                rec_fail(note, 'every connection is described')
                return
            elems = [p for p in new.parts if not p.vars]
            ok = len(elems) == 1
            note['rec'].add(note['fn'] + ': one entry per connection', note['fn'], 'proved' if ok else 'undecided', failed=not ok, items=note['items'])
            if not ok:
                return
            v = elems[0].value
            ps = pieces(v)
            good = len(ps) == 3 and isinstance(ps[0], Name) and ps[1] == '.' and isinstance(ps[2], Name)
            ob(note['rec'], note['fn'] + ': written as layer.input', note['fn'], z3.And(elems[0].cond, ps[0].z == NAMEOF(m), ps[2].z == i) if good else z3.BoolVal(False), items=note['items'])
            rest = Bag('list', [p for p in new.parts if p.vars])
            ob(note['rec'], note['fn'] + ': keeps the connections of the same output', note['fn'],
               z3.ForAll([y, k], EARLIER(o, y, k) == rest.member(Text(code('{}.{}'), Name(y), Name(k)))), items=note['items'])
        res = sets.explore(one)
        for fs, fresh, (st, v) in res:
            if st == 'exc':
                raise v
        g = cell.cell_contents = Grouped(factory)
        g.done = self.l
        note['grouped'] = g
        put(tuple(x if x is y else Poison('after the loop over the connections') for x, y in zip(get(), base)))
        return None


def rec_fail(note, what):
    note['rec'].add(note['fn'] + ': ' + what, note['fn'], 'undecided', failed=True, items=note['items'])


def has_pair(d, key, val):
    """the last entry of d for the key is val"""
    out = z3.BoolVal(False)
    for p in d.parts:
        q = p.fresh()
        k, v = q.value
        try:
            same = sets.veq(v, val)
        except Unsupported:
            same = z3.BoolVal(False)
        here = exists(q.vars, z3.And(q.cond, sets.veq(k, key)))
        out = z3.If(here, exists(q.vars, z3.And(q.cond, sets.veq(k, key), same)), out)
    return out


def describing(rec):
    from brainstorm.structure import architecture as A
    FN = 'get_layer_description'
    l, k = const('layer'), const('k')

    def run():
        OBS[:] = [dict(rec=rec, fn=FN, items=ITEMS)]
        return OBS[-1], A.get_layer_description(Described(l))

    def handle(kind, v):
        if kind == 'exc':
            rec.add(FN + ': returns normally', FN, 'undecided', verify.rexc(v), failed=True, items=ITEMS)
            return
        note, d = v
        if isinstance(d, dict):
            d = sets.bag(d) if not d else Bag('dict', [Part([], z3.BoolVal(True), (a, b)) for a, b in d.items()])
        if not isinstance(d, Bag) or d.kind != 'dict':
            raise Unsupported('description')
        if 'grouped' not in note:
            raise Unsupported('no loop over the connections')
        ob(rec, FN + ': has the type', FN, has_pair(d, '@type', Name(TYP(l))), items=ITEMS)
        ob(rec, FN + ': has the connections grouped by output', FN, has_pair(d, '@outgoing_connections', note['grouped']), items=ITEMS)
        ob(rec, FN + ': has every argument', FN, z3.ForAll([k], z3.Implies(KW(l, k), has_pair(d, Name(k), Arg(KWV(l, k))))), items=ITEMS)
        ob(rec, FN + ': has nothing else', FN, z3.ForAll([k], z3.Implies(d.member(Name(k)), z3.Or(KW(l, k), k == code('@type'), k == code('@outgoing_connections')))), items=ITEMS)
    base = [z3.Not(KW(l, code('@type'))), z3.Not(KW(l, code('@outgoing_connections')))]
    sets.DISPLAY[0] = True
    try:
        paths(rec, FN, [FN], run, base, handle)
    finally:
        sets.DISPLAY[0] = False


class Desc(Obj):
    """the description of a layer"""


def generating(rec):
    from brainstorm.structure import architecture as A
    from brainstorm.structure.construction import ConstructionWrapper
    FN = 'generate_architecture'
    l, x, y, k = const('layer'), const('x'), const('y'), const('k')
    for wrapped in (False, True):
        label = FN + (' (of a wrapper)' if wrapped else '')

        def run():
            return A.generate_architecture(ConstructionWrapper(Described(l)) if wrapped else Described(l))

        def handle(kind, v):
            if kind == 'exc':
                rec.add(label + ': returns normally', FN, 'undecided', verify.rexc(v), failed=True, items=ITEMS)
                return
            if not isinstance(v, Bag) or v.kind != 'dict':
                raise Unsupported('architecture')
            ob(rec, label + ': every connected layer under its name with its description', FN, z3.ForAll([x], z3.Implies(COMP(l, x), has_pair(v, Name(NAMEOF(x)), Desc(x)))), items=ITEMS)
            ob(rec, label + ': nothing else', FN, z3.ForAll([k], z3.Implies(v.member(Name(k)), z3.Exists([x], z3.And(COMP(l, x), NAMEOF(x) == k)))), items=ITEMS)
        base = [z3.ForAll([x, y], z3.Implies(z3.And(COMP(l, x), COMP(l, y), NAMEOF(x) == NAMEOF(y)), x == y))]
        with patch(A, get_layer_description=lambda d: Desc(d.terms[0])):
            paths(rec, label, [FN], run, base, handle)
    # the layers of a component have one scope: an invariant of every history of creating and wiring
    a, b, c, s, t = [const(n) for n in 'abcst']
    CON, CON2 = z3.Function('connected_before', I, I, Bo), z3.Function('connected_after', I, I, Bo)
    SC, SC2 = z3.Function('scope_before', I, I), z3.Function('scope_after', I, I)
    inv = lambda C, S: z3.ForAll([a, b], z3.Implies(C(a, b), S(a) == S(b)))
    lemma(rec, 'connected layers share a scope after wiring', FN,
          [inv(CON, SC), z3.ForAll([a, b], CON2(a, b) == z3.Or(CON(a, b), z3.And(CON(a, s), CON(t, b)), z3.And(CON(a, t), CON(s, b)))),
           z3.ForAll([c], SC2(c) == z3.If(z3.Or(SC(c) == SC(s), SC(c) == SC(t)), SC(s), SC(c))), z3.ForAll([a], CON(a, a))], inv(CON2, SC2))


VALID = z3.Function('valid_name', I, Bo)


def creating(rec):
    """a new layer: alone in its scope, under its name or its type, without connections, with the arguments given"""
    from brainstorm.structure import construction as K
    from brainstorm.utils import NetworkValidationError
    from engine import strings
    FN = 'LayerDetails.__init__'
    c, t, n = const('counter'), const('type'), const('name')
    items = [dict(kind='architecture'), dict(kind='names'), dict(kind='refuse')]
    for named in (False, True):
        for kw in ({}, dict(size=object(), activation=object())):
            label = FN + (' (named%s)' if named else ' (unnamed%s)') % (', with arguments' if kw else '')
            old = K.UniquelyNamed.__dict__['global_counter']

            def run():
                K.UniquelyNamed.global_counter = Num(c)
                try:
                    d = K.LayerDetails(Name(t), name=Name(n), **kw) if named else K.LayerDetails(Name(t), **kw)
                    return d, K.UniquelyNamed.global_counter
                finally:
                    K.UniquelyNamed.global_counter = old
            ok = z3.And(VALID(t), VALID(n)) if named else VALID(t)

            def handle(kind, v):
                if kind == 'exc':
                    if not isinstance(v, NetworkValidationError):
                        raise Unsupported(verify.rexc(v))
                    ob(rec, label + ': refuses invalid names only', FN, z3.Not(ok), items=items)
                    return
                d, after = v
                ob(rec, label + ': accepts valid names only', FN, ok, items=items)
                base = d._basename
                ob(rec, label + ': wants its name, or that of its type', FN, base.z == (n if named else t) if isinstance(base, Name) else z3.BoolVal(False), items=items)
                sc = d.scope
                if not isinstance(sc, Bag):
                    raise Unsupported('scope')
                alone = len(sc.parts) == 1 and not sc.parts[0].vars and isinstance(sc.parts[0].value[0], Name)
                own = sc.parts[0].value[1] if alone else None
                own = list(own) if isinstance(own, list) else [p.value for p in own.parts] if isinstance(own, Bag) and all(not p.vars for p in own.parts) else None
                alone = alone and own is not None and len(own) == 1 and own[0] is d
                ob(rec, label + ': alone in its scope', FN, sc.parts[0].value[0].z == base.z if alone else z3.BoolVal(False), items=items)
                fine = isinstance(d.creation_id, Num) and isinstance(after, Num)
                ob(rec, label + ': numbered in the order of creation', FN, z3.And(d.creation_id.terms[0] >= c, after.terms[0] > d.creation_id.terms[0]) if fine else z3.BoolVal(False), items=items)
                ok2 = d.layer_type is not None and dict(d.layer_kwargs) == kw and not [p for x in (d.incoming, d.outgoing) for p in (x.parts if isinstance(x, Bag) else x)]
                rec.add(label + ': has the arguments and no connections', FN, 'proved' if ok2 else 'undecided', failed=not ok2, items=items)
                ok2 = d.incoming is not d.outgoing
                rec.add(label + ': has lists of its own', FN, 'proved' if ok2 else 'undecided', failed=not ok2, items=items)
                ob(rec, label + ': has the type', FN, d.layer_type.z == t if isinstance(d.layer_type, Name) else z3.BoolVal(False), items=items)
            sets.DISPLAY[0] = True
            base = [VALID(code('')) == False, c >= 0]
            try:
                with patch(K, is_valid_layer_name=lambda s: ZB(VALID(sets.zname(s)))):
                    paths(rec, label, [FN, 'UniquelyNamed.__init__'], run, base, handle)
            finally:
                sets.DISPLAY[0] = False
                K.UniquelyNamed.global_counter = old
    # create
    FN2 = 'ConstructionWrapper.create'
    s = z3.Const('s', strings.S)
    name, kw = object(), dict(size=object())
    for how in ('named by a string', 'named by a class'):
        def run2():
            made = []

            class Details(object):
                def __init__(self, *a, **k):
                    made.append((a, k))
                    self.me = True
            with patch(K, LayerDetails=Details):
                if how == 'named by a string':
                    r = K.ConstructionWrapper.create(strings.Str(s), name=name, **kw)
                else:
                    class Cls(object):
                        pass
                    x = Obj()
                    x.__dict__['__name__'] = strings.Str(s)
                    r = K.ConstructionWrapper.create(x, name=name, **kw)
            return made, r

        def handle2(kind, v):
            end = z3.SuffixOf(z3.StringVal('LayerImpl'), s)
            if kind == 'exc':
                if not isinstance(v, NetworkValidationError):
                    raise Unsupported(verify.rexc(v))
                ob(rec, FN2 + ' (%s): refuses only names that are no layer class' % how, FN2, z3.Not(end), items=items)
                return
            made, r = v
            ob(rec, FN2 + ' (%s): accepts layer classes only' % how, FN2, end, items=items)
            ok = len(made) == 1 and isinstance(r, K.ConstructionWrapper) and (r.input_name, r.output_name) == ('default', 'default')
            rec.add(FN2 + ' (%s): wraps one new layer at its default input and output' % how, FN2, 'proved' if ok else 'undecided', failed=not ok, items=items)
            if not ok:
                return
            a, k = made[0]
            k = dict(k)
            ty = a[0] if a else k.pop('layer_type', None)
            nm = a[1] if len(a) > 1 else k.pop('name', None)
            ok = nm is name and k == kw and len(a) <= 2
            rec.add(FN2 + ' (%s): with the name and arguments given' % how, FN2, 'proved' if ok else 'undecided', failed=not ok, items=items)
            ob(rec, FN2 + ' (%s): of the type named by the class' % how, FN2, z3.Concat(ty.z, z3.StringVal('LayerImpl')) == s if isinstance(ty, strings.Str) else z3.BoolVal(False), items=items)
        paths(rec, FN2 + ' (%s)' % how, [FN2, 'ConstructionWrapper.__init__'], run2, [], handle2)


NSH, BTYPE, PREF, LAST, PLEN = const('shapes'), z3.Function('buffer_type', I, I), z3.Function('leading_features', I, I), z3.Function('last_feature', I, I), z3.Function('number_of_leading_features', I, I)


class Shape(Obj):
    """the i-th shape"""

    def __ghost_isinstance__(self, c):
        return getattr(c, '__name__', '') == 'BufferStructure'
    nr_dims = property(lambda s: Num(BTYPE(s.terms[0]) + 1 + PLEN(PREF(s.terms[0]))))
    buffer_type = first_feature_dim = property(lambda s: Num(BTYPE(s.terms[0])))
    scaling_shape = property(lambda s: Dims('scaling', BTYPE(s.terms[0])))
    feature_shape = property(lambda s: Features(s.terms[0]))
    shape = property(lambda s: Dims('scaling', BTYPE(s.terms[0])) + Dims('leading', PREF(s.terms[0])) + (Num(LAST(s.terms[0])),))


class Features(Obj):
    """leading features and a last one"""

    def __getitem__(self, k):
        if isinstance(k, slice) and (k.start, k.stop, k.step) in ((None, -1, None), (0, -1, None)):
            return Dims('leading', PREF(self.terms[0]))
        if k == -1:
            return Num(LAST(self.terms[0]))
        raise Unsupported('part of the feature shape')

    def __symlen__(self):
        return Num(1 + PLEN(PREF(self.terms[0])))

    def __eq__(self, o):
        if isinstance(o, Features):
            a, b = self.terms[0], o.terms[0]
            return ZB(z3.And(PREF(a) == PREF(b), LAST(a) == LAST(b)))
        raise Unsupported('comparison of feature shapes')
    __hash__ = Obj.__hash__


class Dims(Obj):
    """some dimensions"""

    def __init__(self, kind, z):
        Obj.__init__(self, code(kind), z)
        self.what = kind

    def subst(self, s):
        return Dims(self.what, z3.substitute(self.terms[1], *s))

    def __add__(self, o):
        return Cat([self]) + o

    def __radd__(self, o):
        return Cat(list(o)) + self

    def __symlen__(self):
        return Num(PLEN(self.terms[1]) if self.what == 'leading' else self.terms[1])


class Cat(Obj):
    """dimensions one after the other"""

    def __init__(self, ps):
        Obj.__init__(self)
        self.ps = ps

    def subst(self, s):
        return Cat([sets.subst(p, s) for p in self.ps])

    def __add__(self, o):
        if not isinstance(o, (Cat, Dims, tuple)):
            return NotImplemented
        return Cat(self.ps + (o.ps if isinstance(o, Cat) else [o] if isinstance(o, Dims) else list(o)))

    def __iter__(self):
        return iter(self.ps)


class Shapes(object):
    __ghost__ = True

    def __bag__(self):
        i = const('i')
        return Bag('list', [Part([i], z3.And(i >= 0, i < NSH), Shape(i), i)])

    def __symlen__(self):
        return Num(NSH)

    def __bool__(self):
        return bool(ZB(NSH > 0))

    def __iter__(self):
        raise Unsupported('iteration over the shapes outside a loop')

    def __format__(self, f):
        return 'shapes'

    def __getitem__(self, k):
        if isinstance(k, slice) and (k.start, k.stop, k.step) == (1, None, None):
            i = const('i')
            return Bag('list', [Part([i], z3.And(i >= 1, i < NSH), Shape(i), i)])
        z = sets.num(k)
        if not sets.possible(z < NSH) or sets.proved(z >= NSH):
            raise IndexError('shape')
        if not sets.proved(z3.And(z >= 0, z < NSH)):
            if not sets.proved(z3.And(z < 0, z >= -NSH)):
                raise Unsupported('a shape that may not be there')
            z = NSH + z
        return Shape(z)


def combining(rec):
    """the shape of several outputs together"""
    from brainstorm.structure import buffer_structure as BS
    FN = 'combine_buffer_structures'
    i, j = const('i'), const('j')
    items = [dict(kind='shapes')]
    inside = lambda *v: z3.And(*[z3.And(x >= 0, x < NSH) for x in v])

    class BufferStructure(object):
        def __init__(self, *a, **k):
            self.a, self.k = a, k
    agree = z3.ForAll([i, j], z3.Implies(inside(i, j), z3.And(BTYPE(i) == BTYPE(j), PREF(i) == PREF(j))))

    def handle(kind, v):
        if kind == 'exc':
            if isinstance(v, (TypeError, AttributeError, NameError)):
                raise Unsupported(verify.rexc(v))
            ob(rec, FN + ': refuses mismatches only', FN, z3.Not(agree), items=items)
            return
        ob(rec, FN + ': accepts only shapes that agree up to the last feature', FN, agree, items=items)
        if not isinstance(v, BufferStructure):
            if isinstance(v, Shape):
                v = BufferStructure(*v.shape)
            else:
                raise Unsupported('result')
        if sets.proved(NSH == 0):
            ok = v.a == (0,) and not v.k
            rec.add(FN + ': of nothing is empty', FN, 'proved' if ok else 'undecided', failed=not ok, items=items)
            return
        a = v.a
        ok = len(a) == 3 and isinstance(a[0], Dims) and isinstance(a[1], Dims) and (a[0].what, a[1].what) == ('scaling', 'leading') and isinstance(a[2], (Num, int)) and not v.k.get('context_size') and not v.k.get('is_backward_only')
        rec.add(FN + ': has scaling, leading and one last dimension', FN, 'proved' if ok else 'undecided', failed=not ok, items=items)
        if ok:
            ob(rec, FN + ': keeps the type', FN, a[0].terms[1] == BTYPE(0), items=items)
            ob(rec, FN + ': keeps the leading features', FN, a[1].terms[1] == PREF(0), items=items)
            ob(rec, FN + ': sums the last feature over all shapes', FN, sets.num(a[2]) == sets.SUM(z3.Lambda([i], z3.If(inside(i), LAST(i), 0))), items=items)
    base = [NSH >= 0, z3.ForAll([i], z3.And(BTYPE(i) >= 0, BTYPE(i) <= 2, PLEN(i) >= 0))]
    with patch(BS, BufferStructure=BufferStructure):
        paths(rec, FN, [FN], lambda: BS.combine_buffer_structures(Shapes()), base, handle)


def tasks(tier):
    return [('connected', connected), ('wiring', wiring), ('merging', merging), ('naming', naming), ('strings', strings_), ('describing', describing), ('generating', generating), ('creating', creating), ('combining', combining)]
