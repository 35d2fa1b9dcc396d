"""C10: which references reach which parameters, for any network and any nested dictionary of references."""
import z3
from engine import sets, rt, verify
from engine.poly import *
from engine.prover import *
from engine.rt import *
from engine.sets import Bag, Part, Name, Obj, ZB, const, code, exists, forall
from engine.verify import lemma
from . import common
from .c06 import ob, paths, patch

ASSUMPTIONS = ['dictionaries and sets behave as in engine/sets.py; objects created by different iterations of a comprehension are different objects',
               'two references given for a parameter count as one if they are equal (sets of objects)', 'the value of a top-level "default" or "fallback" is an initialiser or modifier, not a dictionary',
               'the view dictionaries of a network have two levels, layers and views (BufferView)']
TRUSTED = ['engine/*.py', 'z3', common.EXTRACTION]
I, Bo = z3.IntSort(), z3.BoolSort()
P = z3.Function('is_parameter', I, I, Bo)            # layer, view
LAYER = z3.Function('has_parameters', I, Bo)         # layer
R = z3.Function('is_reference', I, Bo)
R2 = z3.Function('is_subreference', I, I, Bo)
ISD = z3.Function('is_dictionary', I, Bo)
VAL = z3.Function('value', I, I)
VAL2 = z3.Function('subvalue', I, I, I)
ISL = z3.Function('is_list', I, Bo)
M = z3.Function('matches', I, I, Bo)                 # reference, name
OKREF = z3.Function('valid_reference', I, Bo)
DEF, FB = code('default'), code('fallback')


class View(Obj):
    """a parameter: (layer, view)"""
    def __ghost_isinstance__(self, c):
        return False


class Val(Obj):
    """an initialiser or modifier, or a list of those"""
    def __ghost_isinstance__(self, c):
        c = c if isinstance(c, tuple) else (c,)
        return ZB(ISL(self.terms[0])) if list in c or tuple in c else False

    def __ghost_call__(self, f):
        if f in (tuple, list):
            return Tup(self.terms[0])
        raise Unsupported('%s of a value' % f)


class Tup(Obj):
    """the tuple of the elements of a list"""
    def __ghost_isinstance__(self, c):
        return tuple in (c if isinstance(c, tuple) else (c,))


class Refs(Obj):
    """the references (of the dictionary given for reference r)"""
    __ghost__ = True

    def has(self, k):
        return R2(self.terms[0], k) if self.terms else R(k)

    def __ghost_isinstance__(self, c):
        return dict in (c if isinstance(c, tuple) else (c,))

    def __symcontains__(self, k):
        return ZB(self.has(sets.zname(k)))

    def __bag__(self):
        k = const('ref')
        return Bag('dict', [Part([k], self.has(k), (Name(k), self._value(k)))], False)

    def _value(self, k):
        return Val(VAL2(self.terms[0], k)) if self.terms else Ref(k)

    def __getitem__(self, k):
        z = sets.zname(k)
        if not ZB(self.has(z)):
            raise KeyError('reference')
        return self._value(z) if self.terms else value(z)

    def get(self, k, d=None):
        return self[k] if ZB(self.has(sets.zname(k))) else d

    def items(self):
        k = const('ref')
        return Bag('list', [Part([k], self.has(k), (Name(k), self._value(k)))], False)

    def keys(self):
        k = const('ref')
        return Bag('set', [Part([k], self.has(k), Name(k))], False)


class Ref(Obj):
    """value of a reference whose kind is not looked at"""


def value(r):
    """references[r]: a dictionary or a leaf"""
    if ZB(ISD(r)):
        return Refs(r)
    return Val(VAL(r))


def kinds(structure=True):
    """facts: top-level default and fallback are leaves"""
    return [z3.Not(ISD(DEF)), z3.Not(ISD(FB))]


class Regex(Obj):
    """compiled pattern of a reference"""

    def match(self, name):
        return ZB(M(self.terms[0], sets.zname(name)))


def regex(ref):
    """contract of get_regex_for_reference: an object whose match() is the pattern's; refuses what is no pattern"""
    if not ZB(OKREF(sets.zname(ref))):
        raise AssertionError('not a valid reference')
    return Regex(sets.zname(ref))


def named(r, x, has=R):
    return z3.And(has(r), r != DEF, r != FB, M(r, x))


def some(f, n='q'):
    q = const(n)
    return z3.Exists([q], f(q))


def selected(r, x, has=R):
    """reference r is used for name x: it matches, or it is the default and nothing else matches"""
    return z3.Or(named(r, x, has), z3.And(r == DEF, has(DEF), z3.Not(some(lambda q: named(q, x, has)))))


KEYS = z3.Function('is_key', I, Bo)


def mapping(rec):
    from brainstorm.structure import view_references as V
    FN = 'get_key_to_references_mapping'
    items = [dict(kind='select')]
    x, r = const('x'), const('r')

    def good(r):
        return z3.And(R(r), r != DEF, r != FB)

    def handle(kind, v):
        if kind == 'exc':
            ob(rec, FN + ': refuses only references that match nothing or are no pattern', FN, some(lambda q: z3.And(good(q), z3.Or(z3.Not(OKREF(q)), z3.Not(some(lambda k: z3.And(KEYS(k), M(q, k))))))), items=items)
            return
        ob(rec, FN + ': a reference that matches nothing is refused', FN, z3.ForAll([r], z3.Implies(good(r), some(lambda k: z3.And(KEYS(k), M(r, k))))), items=items)
        ob(rec, FN + ': an entry for every key', FN, z3.ForAll([x], v.member(Name(x)) == KEYS(x)), items=items)
        for p in v.parts:
            p = p.fresh()
            ob(rec, FN + ': a key gets exactly the references that match it, or else the default', FN, z3.ForAll(p.vars + [r], z3.Implies(p.cond, sets.bag(p.value[1]).member(Name(r)) == selected(r, p.value[0].z))), items=items)
    k = const('k')
    with patch(V, get_regex_for_reference=regex):
        paths(rec, FN, [FN], lambda: V.get_key_to_references_mapping(Bag('dict', [Part([k], KEYS(k), (Name(k), None))], False), Refs()), kinds(), handle)


OPAQUE = ['\ue000', '\ue001', '\ue002', '\ue003']          # stand for arbitrary words of letters, digits and underscores


def patterns():
    """all patterns with up to three wildcards around arbitrary words"""
    import itertools
    for n in range(4):
        for words in itertools.product([0, 1], repeat=n + 1):
            yield '*'.join(OPAQUE[k] if w else '' for k, w in enumerate(words))


def regexes(rec):
    import re
    from brainstorm.structure import view_references as V
    from engine import strings
    FN = 'get_regex_for_reference'
    rec.under(FN)
    word = z3.Union(z3.Range('a', 'z'), z3.Range('A', 'Z'), z3.Re('_'), z3.Range('0', '9'))
    anyname = z3.Star(z3.Union(word, *[z3.Re(strings.chars(ord(o))) for o in OPAQUE]))

    def direct(items, under=False):
        """the words stand as they are: under no repetition, in no character class"""
        C = strings.C
        for op, a in items:
            if op is C.LITERAL and chr(a) in OPAQUE and under:
                return False
            if op in (C.MAX_REPEAT, C.MIN_REPEAT) and not direct(a[2], True):
                return False
            if op is C.SUBPATTERN and not direct(a[-1], under):
                return False
            if op is C.BRANCH and not all(direct(b, under) for b in a[1]):
                return False
            if op is C.IN and any(o is C.LITERAL and chr(x) in OPAQUE for o, x in a):
                return False
        return True
    x = z3.Const('name', strings.S)
    for ref in patterns():
        if ref == '':
            continue
        label = ref
        for k, o in enumerate(OPAQUE):
            label = label.replace(o, '<w%d>' % k)

        def go():
            # words are valid parts of names; what is a valid name has no wildcard in it
            with patch(V, is_valid_layer_name=lambda s: '*' not in s):
                r = V.get_regex_for_reference(ref)
            if not isinstance(r, re.Pattern) or not direct(strings.sre_parse.parse(r.pattern, r.flags)):
                raise Unsupported('regular expression')
            got = strings.language(r.pattern, r.flags & ~re.U, 'match')
            want = strings.concat([z3.Star(word) if c == '*' else z3.Re(strings.chars(ord(c))) for c in ref])
            res, s = sets.check([z3.InRe(x, anyname), z3.InRe(x, got) != z3.InRe(x, want)], 20000)
            d = '' if res == z3.unsat else 'solver: %s' % res
            ex = None
            if res == z3.sat:
                d += ' %r' % s.model()
            rec.add(FN + ': %s matches exactly the names that have any text for each *' % label, FN, 'proved' if res == z3.unsat else 'undecided', d, failed=res == z3.sat, items=[dict(kind='select'), dict(kind='init')])
        rec.attempt(FN + ': ' + label, FN, go)


# ------------------------------------------------------------------ the whole resolution
def structure():
    l, v = const('layer'), const('view')
    return Bag('dict', [Part([l], LAYER(l), (Name(l), Bag('dict', [Part([v], P(l, v), (Name(v), View(l, v)))], False)))], False)


# contracts used here: get_key_to_references_mapping (proved above; when it refuses, nothing is resolved), add_or_update (proved below)
SEL = z3.Function('selected', I, I, Bo)              # reference, layer
SEL2 = z3.Function('selected_in', I, I, I, Bo)       # reference, reference in its dictionary, view


class Elem(Obj):
    """a value as it is kept in the sets of the resolution"""


def contract_facts():
    r, s, x = const('r'), const('s'), const('x')
    return [z3.ForAll([r, x], z3.Implies(SEL(r, x), z3.And(R(r), r != FB))), z3.ForAll([r, s, x], z3.Implies(SEL2(r, s, x), z3.And(R2(r, s), s != FB)))]


def mapping_contract(keys, references):
    if not isinstance(references, Refs):
        raise Unsupported('mapping of %r' % type(references))
    b = sets.bag(keys)
    out = []
    for p in b.read():
        p = p.fresh()
        key = sets.key_of(b, p)
        r = const('r')
        sel = SEL2(references.terms[0], r, key.z) if references.terms else SEL(r, key.z)
        out.append(Part(p.vars, p.cond, (key, Bag('set', [Part([r], sel, Name(r))]))))
    return Bag('dict', out, False)


def add_contract(s, v):
    if isinstance(v, Bag):
        s.update(v)
    elif isinstance(v, Val):
        s.add(Elem(v.terms[0]))
    else:
        raise Unsupported('value %r' % type(v))


def content(l, v, x):
    """x is given for parameter (l, v) by patterns: by a reference for the layer, or by one for the layer and one in it for the view"""
    r, s = const('r'), const('s')
    leaf = z3.Exists([r], z3.And(SEL(r, l), z3.Not(ISD(r)), x.terms[0] == VAL(r)))
    deep = z3.Exists([r, s], z3.And(SEL(r, l), ISD(r), SEL2(r, s, v), x.terms[0] == VAL2(r, s)))
    return z3.Or(leaf, deep)


def nearest(l, v, x, key):
    """x is the value under `key` in the references used for (l, v): of the innermost dictionary that has one"""
    r = const('r')
    own = z3.Exists([r], z3.And(SEL(r, l), ISD(r), R2(r, key), x.terms[0] == VAL2(r, key)))
    outer = z3.And(R(key), x.terms[0] == VAL(key), z3.Or(z3.Not(some(lambda q: SEL(q, l))), some(lambda q: z3.And(SEL(q, l), z3.Or(z3.Not(ISD(q)), z3.Not(R2(q, key)))))))
    return z3.Or(own, outer)


def any_content(l, v):
    t = const('t')
    return z3.Exists([t], content(l, v, Elem(t)))


def assigned(l, v, x):
    return z3.Or(content(l, v, x), z3.And(z3.Not(any_content(l, v)), nearest(l, v, x, DEF)))


def resolution(rec):
    from brainstorm.structure import view_references as V
    FN = 'resolve_references'
    items = [dict(kind='select')]
    l, v, t = const('l'), const('v'), const('t')

    def handle(kind, val):
        if kind == 'exc':
            if not isinstance(val, (AssertionError, Exception)):
                raise val
            rec.add(FN + ': refuses', FN, 'proved')
            return
        res, fb = val
        for d, what, spec in ((res, 'the assigned values', assigned), (fb, 'the fallbacks', lambda l, v, x: nearest(l, v, x, FB))):
            ob(rec, FN + ': %s: an entry for every layer' % what, FN, z3.ForAll([l], d.member(Name(l)) == LAYER(l)), items=items)
            for p in d.parts:
                p = p.fresh()
                ob(rec, FN + ': %s: an entry for every view' % what, FN, z3.ForAll(p.vars + [v], z3.Implies(p.cond, p.value[1].member(Name(v)) == P(p.value[0].z, v))), items=items)
                for q in p.value[1].parts:
                    q = q.fresh()
                    x = Elem(t)
                    a, b = q.value[1].member(x), spec(p.value[0].z, q.value[0].z, x)
                    g = z3.And(p.cond, q.cond)
                    ob(rec, FN + ': %s of a parameter are those selected for it' % what, FN, z3.ForAll(p.vars + q.vars + [t], z3.Implies(z3.And(g, a), b)), items=items)
                    ob(rec, FN + ': %s selected for a parameter reach it' % what, FN, z3.ForAll(p.vars + q.vars + [t], z3.Implies(z3.And(g, b), a)), items=items)
    with patch(V, get_key_to_references_mapping=mapping_contract, add_or_update=add_contract):
        paths(rec, FN, [FN, 'apply_references_recursively', 'append_to_all_leaves', 'evaluate_defaults', 'get_fallbacks', 'empty_dict_from'],
              lambda: V.resolve_references(structure(), Refs()), kinds() + contract_facts(), handle)


def adding(rec):
    from brainstorm.structure import view_references as V
    FN = 'add_or_update'
    t, u = const('t'), const('u')
    E = z3.Function('old_element', I, Bo)
    for what in ('value', 'set'):
        def run():
            s = Bag('set', [Part([u], E(u), Val(u))])
            V.add_or_update(s, Val(t) if what == 'value' else Bag('set', [Part([u], M(u, t), Val(u))]))
            return s

        def handle(kind, s):
            if kind == 'exc':
                rec.add(FN + ': returns normally', FN, 'undecided', verify.rexc(s), failed=True)
                return
            x = const('x')
            new = z3.And(x == t, z3.Not(ISL(t))) if what == 'value' else M(x, t)
            ob(rec, FN + ': %s: as it is' % what, FN, z3.ForAll([x], s.member(Val(x)) == z3.Or(E(x), new)), items=[dict(kind='select')])
            ob(rec, FN + ': %s: lists as tuples' % what, FN, z3.ForAll([x], s.member(Tup(x)) == (z3.And(x == t, ISL(t)) if what == 'value' else z3.BoolVal(False))), items=[dict(kind='select')])
        paths(rec, FN, [FN], run, [], handle)


# ------------------------------------------------------------------ users of the resolution
ASG = z3.Function('assigned', I, I, I, Bo)           # layer, view, value
FBS = z3.Function('assigned_fallback', I, I, I, Bo)
N = z3.Function('length', I, I)


class Mod(Obj):
    """a modifier: entry i of the list t (or t itself: i = -1)"""
    def __ghost_isinstance__(self, c):
        return False


class Given(Elem):
    """a value (an initialiser, a modifier or a tuple of modifiers)"""
    __ghost__ = True

    def __ghost_isinstance__(self, c):
        c = c if isinstance(c, tuple) else (c,)
        return ZB(ISL(self.terms[0])) if tuple in c or list in c else False

    def __bag__(self):
        i = const('i')
        t = self.terms[0]
        return Bag('list', [Part([i], z3.And(i >= 0, i < N(t)), Mod(t, i), i)])


def family_of(rel):
    l, v, x = const('l'), const('v'), const('x')
    inner = Bag('set', [Part([x], rel(l, v, x), Given(x))])
    inner.core.formals = [l, v]
    mid = Bag('dict', [Part([v], P(l, v), (Name(v), inner))], False)
    mid.core.formals = [l]
    return Bag('dict', [Part([l], LAYER(l), (Name(l), mid))], False)


RESOLVED = []


def resolve_contract(params, refs):
    RESOLVED.append((params, refs))
    return family_of(ASG), family_of(FBS)


class Entry(Obj):
    """what the network's buffer has under a name"""
    def __ghost_isinstance__(self, c):
        from brainstorm.structure.buffer_views import BufferView
        return ZB(self.terms[0] > 1) if BufferView in (c if isinstance(c, tuple) else (c,)) else False

    def __symcontains__(self, k):
        if k not in ('parameters', 'gradients'):
            raise Unsupported('%r in a view' % k)
        return ZB(LAYER(self.terms[0]))

    def __getattr__(self, n):
        if n not in ('parameters', 'gradients'):
            raise AttributeError(n)
        l, v = self.terms[0], const('v')
        return Bag('dict', [Part([v], P(l, v), (Name(v), Weights(n, l, v)))], False)


class Weights(Obj):
    """buffer of a parameter: (parameters or gradients, layer, view)"""
    def __init__(self, what, l, v):
        Obj.__init__(self, l, v)
        self.what = what

    def subst(self, s):
        return Weights(self.what, *[z3.substitute(t, *s) for t in self.terms])

    def __ghost_isinstance__(self, c):
        return False

    shape = 'shape'


NODE = z3.Function('in_buffer', I, Bo)


class Buffer(object):
    def items(self):
        k = const('k')
        return Bag('list', [Part([k], NODE(k), (Name(k), Entry(k)))], False)

    def __getitem__(self, k):
        return Entry(k.z)


def buffer_facts():
    """the buffer has the layers and the two arrays with all parameters and all gradients, which are no views"""
    k = const('k')
    two = [code('parameters'), code('gradients')]
    return [z3.ForAll([k], z3.Implies(LAYER(k), z3.And(NODE(k), k > 1, *[k != t for t in two]))), z3.ForAll([k], z3.Implies(k == two[0], z3.Not(LAYER(k)))), z3.ForAll([k], z3.Implies(k == two[1], z3.Not(LAYER(k))))]


class Rnd(object):
    def generate_seed(self):
        return 'seed'

    def create_random_state(self, seed=None):
        return self

    def set_seed(self, s):
        pass


class Handler(object):
    def set_from_numpy(self, view, value):
        CALLS[-1].append((view,) + value)


CALLS = []


class Initial(object):
    pass


def network():
    from brainstorm.structure.network import Network
    RESOLVED[:] = []
    CALLS[:] = [Bag('list')]
    net = object.__new__(Network)
    net.buffer, net.rnd, net.handler = Buffer(), Rnd(), Handler()
    return net


class Value2(Obj):
    """what evaluate_initializer is called with"""


def check_params(rec, FN, items, what):
    l, v = const('l'), const('v')
    p = RESOLVED[-1][0]
    ob(rec, FN + ': resolved for the layers with parameters', FN, z3.ForAll([l], p.member(Name(l)) == LAYER(l)), items=items)
    for q in p.parts:
        q = q.fresh()
        ob(rec, FN + ': and all their views', FN, z3.ForAll(q.vars + [v], z3.Implies(q.cond, q.value[1].member(Name(v)) == P(q.value[0].z, v))), items=items)
        for w in q.value[1].parts:
            w = w.fresh()
            ok = isinstance(w.value[1], Weights)
            rec.add(FN + ': with the right arrays', FN, 'proved' if ok else 'undecided', failed=not ok, items=items)


def initialize(rec):
    from brainstorm.structure import network as W
    FN = 'Network.initialize'
    items = [dict(kind='init')]
    l, v, x, y = [const(n) for n in 'lvxy']

    def count(rel, l, v, n):
        """at least n values"""
        xs = [const('x') for _ in range(n)]
        return z3.Exists(xs, z3.And(*([rel(l, v, x) for x in xs] + ([z3.Distinct(*xs)] if n > 1 else []))))

    def handle(kind, val):
        wrong = z3.Exists([l, v], z3.And(LAYER(l), P(l, v), z3.Or(z3.Not(count(ASG, l, v, 1)), count(ASG, l, v, 2), count(FBS, l, v, 2))))
        if kind == 'exc':
            ob(rec, FN + ': refuses only missing or ambiguous assignments', FN, wrong, items=items)
            return
        ob(rec, FN + ': every parameter has exactly one initialiser and at most one fallback', FN, z3.Not(wrong), items=items)
        check_params(rec, FN, items, 'parameters')
        ok = RESOLVED[-1][1] == 'references'
        rec.add(FN + ': with the given references', FN, 'proved' if ok else 'undecided', failed=not ok, items=items)
        calls = CALLS[-1]
        views = Bag('list', [Part(p.vars, p.cond, p.value[0], p.pos, p.group) for p in calls.parts])
        ob(rec, FN + ': every parameter is set', FN, z3.ForAll([l, v], views.member(Weights('parameters', l, v)) == z3.And(LAYER(l), P(l, v))), items=items)
        ob(rec, FN + ': each once', FN, sets.distinct_list(views), items=items)
        for p in calls.parts:
            p = p.fresh()
            w, init, shape, fb = p.value
            lv = w.terms
            ob(rec, FN + ': by the initialiser assigned to it', FN, z3.ForAll(p.vars, z3.Implies(p.cond, ASG(lv[0], lv[1], init.terms[0]))), items=items)
            f = z3.Not(count(FBS, lv[0], lv[1], 1)) if fb is None else FBS(lv[0], lv[1], fb.terms[0])
            ob(rec, FN + ': with the fallback assigned to it, if any', FN, z3.ForAll(p.vars, z3.Implies(p.cond, f)), items=items)
            rec.add(FN + ': for its shape', FN, 'proved' if shape == 'shape' else 'undecided', failed=shape != 'shape', items=items)
    with patch(W, resolve_references=resolve_contract, get_description=lambda r: 'described', _update_references_with_dict=lambda a, b: 'references', _replace_lists_with_array_initializers=lambda r: None,
               evaluate_initializer=lambda init, shape, fb=None, seed=None: (init, shape, fb)):
        paths(rec, FN, [FN], lambda: network().initialize('given'), buffer_facts(), handle)


class Mine(Obj):
    """copy of a modifier made for a parameter: (layer, view, list, position)"""


def copied(m, l, v):
    """contract of copy_modifier_for: a new object, a deep copy that knows its layer and view"""
    if isinstance(m, Given):
        return Mine(l.z, v.z, m.terms[0], z3.IntVal(-1))
    return Mine(l.z, v.z, m.terms[0], m.terms[1])


def modifiers(rec):
    from brainstorm.structure import network as W, view_references as V
    items = [dict(kind='mods')]
    l, v, t, i, j = [const(n) for n in 'lvtij']
    for which in ('weight', 'gradient'):
        FN = 'Network.set_%s_modifiers' % which

        def run():
            net = network()
            getattr(net, 'set_%s_modifiers' % which)('given')
            return getattr(net, which + '_modifiers')

        def handle(kind, d):
            fallback = z3.Exists([l, v, t], z3.And(LAYER(l), P(l, v), FBS(l, v, t)))
            if kind == 'exc':
                ob(rec, FN + ': refuses only fallbacks', FN, fallback, items=items)
                return
            ob(rec, FN + ': fallbacks are refused', FN, z3.Not(fallback), items=items)
            check_params(rec, FN, items, which)
            anything = lambda l, v: z3.Exists([t], ASG(l, v, t))
            ob(rec, FN + ': an entry for every layer with modifiers', FN, z3.ForAll([l], d.member(Name(l)) == z3.Exists([v], z3.And(LAYER(l), P(l, v), anything(l, v)))), items=items)
            for p in d.parts:
                p = p.fresh()
                L = p.value[0].z
                ob(rec, FN + ': and every view with modifiers', FN, z3.ForAll(p.vars + [v], z3.Implies(p.cond, p.value[1].member(Name(v)) == z3.And(P(L, v), anything(L, v)))), items=items)
                for q in p.value[1].parts:
                    q = q.fresh()
                    k, b = q.value
                    g = z3.And(p.cond, q.cond)
                    ob(rec, FN + ': the modifiers assigned to a parameter, as copies made for it', FN, z3.ForAll(p.vars + q.vars + [t, i], z3.Implies(g, b.member(Mine(L, k.z, t, i)) ==
                       z3.And(ASG(L, k.z, t), z3.Or(z3.And(ISL(t), i >= 0, i < N(t)), z3.And(z3.Not(ISL(t)), i == -1))))), items=items)
                    ob(rec, FN + ': nothing twice', FN, z3.ForAll(p.vars + q.vars, z3.Implies(g, sets.distinct_list(b))), items=items)
                    ob(rec, FN + ': those of a list in its order', FN, z3.ForAll(p.vars + q.vars + [t, i, j], z3.Implies(z3.And(g, ASG(L, k.z, t), ISL(t), 0 <= i, i < j, j < N(t)), sets.before(b, Mine(L, k.z, t, i), Mine(L, k.z, t, j)))), items=items)
                    foreign = [e.value for e in b.parts if not isinstance(e.value, Mine)]
                    rec.add(FN + ': nothing but copies', FN, 'proved' if not foreign else 'undecided', failed=bool(foreign), items=items)
        with patch(W, resolve_references=resolve_contract, _update_references_with_dict=lambda a, b: 'references'):
            with patch(V, copy_modifier_for=copied):
                paths(rec, FN, [FN, 'prune_view_references', 'order_and_copy_modifiers'], run, buffer_facts(), handle)


def copying(rec):
    from brainstorm.structure import view_references as V
    FN = 'copy_modifier_for'
    log = []

    class M_(object):
        def __init__(self, of=None):
            object.__setattr__(self, 'of', of)

        def __deepcopy__(self, memo):
            r = M_(self)
            log.append(r)
            return r

        def __copy__(self):
            raise Unsupported('shallow copy')

        def __setattr__(self, k, v):
            object.__setattr__(self, k, v)

    def run():
        del log[:]
        m = M_()
        return m, dict(vars(m)), V.copy_modifier_for(m, Name(const('l')), Name(const('v')))

    def handle(kind, r):
        if kind == 'exc':
            rec.add(FN + ': returns normally', FN, 'undecided', verify.rexc(r), failed=True, items=[dict(kind='mods')])
            return
        m, before, c = r
        ok = c is not m and len(log) == 1 and c is log[0] and c.of is m and vars(m) == before
        rec.add(FN + ': a deep copy, the original unchanged', FN, 'proved' if ok else 'undecided', failed=not ok, items=[dict(kind='mods')])
        ok = isinstance(getattr(c, 'layer_name', None), Name) and isinstance(getattr(c, 'view_name', None), Name)
        rec.add(FN + ': that knows its layer and view', FN, 'proved' if ok else 'undecided', failed=not ok, items=[dict(kind='mods')])
    paths(rec, FN, [FN], run, [], handle)


# ------------------------------------------------------------------ running modifiers
ISG = z3.Function('is_gradient_modifier', I, I, I, Bo)


class Run(Obj):
    """modifier number i of a parameter"""
    @property
    def rnd(self):
        return Rnd()

    def __ghost_isinstance__(self, c):
        from brainstorm.value_modifiers import GradientModifier
        if GradientModifier in (c if isinstance(c, tuple) else (c,)):
            return ZB(ISG(*self.terms))
        return False

    def __call__(self, handler, *views):
        CALLS[-1].append((self,) + views)


NM = z3.Function('number_of_modifiers', I, I, I)
HASM = z3.Function('has_modifiers', I, Bo)
HASM2 = z3.Function('view_has_modifiers', I, I, Bo)


def applying(rec):
    items = [dict(kind='mods')]
    l, v, i, j = [const(n) for n in 'lvij']
    for which in ('weight', 'gradient'):
        FN = 'Network.apply_%s_modifiers' % which

        def run():
            net = network()
            d = Bag('dict', [Part([l], HASM(l), (Name(l), Bag('dict', [Part([v], HASM2(l, v), (Name(v), Bag('list', [Part([i], z3.And(0 <= i, i < NM(l, v)), Run(l, v, i), i)])))], False)))], False)
            setattr(net, which + '_modifiers', d)
            getattr(net, 'apply_%s_modifiers' % which)()
            return CALLS[-1]

        def handle(kind, calls):
            if kind == 'exc':
                rec.add(FN + ': returns normally', FN, 'undecided', verify.rexc(calls), failed=True, items=items)
                return
            ms = Bag('list', [Part(p.vars, p.cond, p.value[0], p.pos, p.group) for p in calls.parts])
            if any(not isinstance(p.value, Run) for p in ms.parts):
                raise Unsupported('calls')
            ob(rec, FN + ': every modifier is run', FN, z3.ForAll([l, v, i], ms.member(Run(l, v, i)) == z3.And(HASM(l), HASM2(l, v), 0 <= i, i < NM(l, v))), items=items)
            ob(rec, FN + ': once', FN, sets.distinct_list(ms), items=items)
            for p in calls.parts:
                p = p.fresh()
                m, views = p.value[0], p.value[1:]
                ok = all(isinstance(w, Weights) for w in views) and [w.what for w in views] in ([['parameters']] if which == 'weight' else [['gradients'], ['parameters', 'gradients']])
                rec.add(FN + ': on %s' % ('weights' if which == 'weight' else 'gradients'), FN, 'proved' if ok else 'undecided', failed=not ok, items=items)
                for w in views:
                    ob(rec, FN + ': of its own parameter', FN, z3.ForAll(p.vars, z3.Implies(p.cond, z3.And(w.terms[0] == m.terms[0], w.terms[1] == m.terms[1]))), items=items)
                if which == 'gradient' and ok:
                    g = ISG(*m.terms)
                    ob(rec, FN + ': gradient modifiers also see the parameters', FN, z3.ForAll(p.vars, z3.Implies(p.cond, g if len(views) == 2 else z3.Not(g))), items=items)
            if len(calls.parts) == 1:
                # (with two kinds of calls in one loop the order of the calls is that of the positions within each kind only)
                ob(rec, FN + ': in the order of the list', FN, z3.ForAll([l, v, i, j], z3.Implies(z3.And(HASM(l), HASM2(l, v), 0 <= i, i < j, j < NM(l, v)), sets.before(ms, Run(l, v, i), Run(l, v, j)))), items=items)
        facts = [z3.ForAll([l, v], z3.Implies(z3.And(HASM(l), HASM2(l, v)), z3.And(LAYER(l), P(l, v))))]
        paths(rec, FN, [FN], run, buffer_facts() + facts, handle)


def tasks(tier):
    return [('regexes', regexes), ('mapping', mapping), ('adding', adding), ('resolution', resolution), ('initialize', initialize), ('modifiers', modifiers), ('copying', copying), ('applying', applying)]
