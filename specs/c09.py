"""C09: describing and re-creating for objects with any members, containers of any size, and the file format."""
import z3
from engine import sets, rt, verify
from engine.poly import *
from engine.prover import *
from engine.rt import *
from engine.rt import SETMODE
from engine.sets import Bag, Part, Name, Obj, ZB, const, code, exists, forall
from engine.verify import lemma
from . import common
from .c06 import ob, paths, patch

ASSUMPTIONS = ['dictionaries, lists and sets behave as in engine/sets.py', 'json.loads(json.dumps(d)) is d for descriptions; HDF5 returns the bytes and the array that were written (bounded)',
               'describing a re-created member gives the description it was created from, and it equals a default value if and only if the member described did (induction over nesting; proved for the classes of initializers, value_modifiers, hooks, scorers, steppers and schedules, bounded for Trainer, handlers and arrays)',
               'copy.deepcopy of a default value equals it', 'different describable classes have different names (bounded)', 'no attribute is called "@type"']
TRUSTED = ['engine/*.py', 'z3', 'h5py, json', common.EXTRACTION]
I, Bo = z3.IntSort(), z3.BoolSort()
KIND = z3.Function('kind', I, I)              # 0 describable, 1 list, 2 tuple, 3 array, 4 dictionary, 5 None/bool/number/string, else not describable
LEN = z3.Function('length', I, I)
HASK = z3.Function('has_key', I, I, Bo)
OK = z3.Function('describable', I, Bo)
TYPED = z3.Function('has_type', I, Bo)
TNAME = z3.Function('type_name', I, I)
TYPE = '@type'


class Element(Obj):
    """an element of a list (by its place) or the value under a key of a dictionary"""


class Thing(Obj):
    """an arbitrary object: attributes, elements and so on by its kind"""
    __ghost__ = True

    def __ghost_isinstance__(self, c):
        import numpy as np
        from brainstorm.describable import Describable
        c = c if isinstance(c, tuple) else (c,)
        t = self.terms[0]
        ks = [k for k, ts in enumerate([(Describable,), (list,), (tuple,), (np.ndarray,), (dict,), (bool, float, type(None), int, str)]) if any(x in ts or k == 3 and getattr(x, '__name__', '').lower() == 'ndarray' for x in c)]
        if 5 in ks and not all(x in (bool, float, type(None), int, str) for x in c if x in (bool, float, type(None), int, str)):
            raise Unsupported('basic types')
        basic = [x for x in c if x in (bool, float, type(None), int, str)]
        conds = [KIND(t) == k for k in ks if k != 5]
        for b in basic:
            conds.append(z3.And(KIND(t) == 5, BASIC(t) == [bool, float, type(None), int, str].index(b)))
            if b is int:
                conds.append(z3.And(KIND(t) == 5, BASIC(t) == 0))        # bool is an int
        return ZB(z3.Or(*conds)) if conds else False

    def __bag__(self):
        t = self.terms[0]
        if ZB(z3.Or(KIND(t) == 1, KIND(t) == 2)):
            i = const('i')
            return Bag('list', [Part([i], z3.And(i >= 0, i < LEN(t)), Element(i), i)])
        if ZB(KIND(t) == 4):
            k = const('k')
            return Bag('dict', [Part([k], HASK(t, k), (Name(k), Element(k)))], False)
        raise TypeError('not iterable')

    def items(self):
        return self.__bag__().items()

    def keys(self):
        return self.__bag__().keys()

    def values(self):
        return self.__bag__().values()

    def __symcontains__(self, k):
        return ZB(HASK(self.terms[0], sets.zname(k)))

    def __getitem__(self, k):
        t = self.terms[0]
        if isinstance(k, (Name, str)):
            z = sets.zname(k)
            if not ZB(HASK(t, z)):
                raise KeyError('key')
            return Element(z)
        raise Unsupported('element by position')

    def __len__(self):
        raise Unsupported('length of an unknown object')

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('attribute %s of an unknown object' % n)

    def tolist(self):
        return ToList(self.terms[0])

    def __describe__(self):
        return Own(self.terms[0])


BASIC = z3.Function('basic_kind', I, I)


class ToList(Obj):
    """list with the contents of an array"""


class Own(Obj):
    """description by the object itself"""


class Desc(Obj):
    """contract of get_description for an element: its description"""


class NotDescribable(TypeError):
    pass


def describe_contract(t):
    if not isinstance(t, (Element, Attr)):
        raise Unsupported('description of %r' % type(t))
    if not ZB(OK(t.terms[0])):
        raise TypeError('not describable')
    return Desc(t.terms[0])


class Created(Obj):
    """contract of create_from_description for an element: what it describes"""


class Copied(Obj):
    pass


def created_contract(d):
    if not isinstance(d, (Element, Attr)):
        raise Unsupported('creation from %r' % type(d))
    return Created(d.terms[0])


ITEMS = [dict(kind='single'), dict(kind='basic')]


def each_element(rec, FN, what, b, t, wrap, keyed):
    """b has, for every entry of t, its image, and nothing else"""
    i, j, k = const('i'), const('j'), const('k')
    if keyed:
        ob(rec, FN + ': %s: the keys' % what, FN, z3.ForAll([k], b.member(Name(k)) == HASK(t, k)), items=ITEMS)
        for p in b.parts:
            p = p.fresh()
            key, v = p.value
            ok = isinstance(v, wrap)
            rec.add(FN + ': %s: entries of the right kind' % what, FN, 'proved' if ok else 'undecided', failed=not ok, items=ITEMS)
            if ok:
                ob(rec, FN + ': %s: the image of each value under its key' % what, FN, forall(p.vars, z3.Implies(p.cond, v.terms[0] == key.z)), items=ITEMS)
        return
    ok = all(isinstance(p.value, wrap) for p in b.parts)
    rec.add(FN + ': %s: entries of the right kind' % what, FN, 'proved' if ok else 'undecided', failed=not ok, items=ITEMS)
    if not ok:
        return
    inside = lambda i: z3.And(i >= 0, i < LEN(t))
    ob(rec, FN + ': %s: the image of every element' % what, FN, z3.ForAll([i], z3.Implies(inside(i), b.member(wrap(i)))), items=ITEMS)
    ob(rec, FN + ': %s: nothing else' % what, FN, z3.ForAll([k], z3.Implies(b.member(wrap(k)), z3.Exists([i], z3.And(inside(i), k == i)))), items=ITEMS)
    ob(rec, FN + ': %s: each once' % what, FN, sets.distinct_list(b), items=ITEMS)
    ob(rec, FN + ': %s: in order' % what, FN, z3.ForAll([i, j], z3.Implies(z3.And(inside(i), inside(j), i < j), sets.before(b, wrap(i), wrap(j)))), items=ITEMS)


def describing(rec):
    from brainstorm import describable as D
    FN = 'get_description'
    t = const('t')
    i, k = const('i'), const('k')
    real = D.get_description
    seq_ = z3.Or(KIND(t) == 1, KIND(t) == 2)

    def handle(kind, v):
        bad = z3.Or(z3.And(seq_, z3.Exists([i], z3.And(i >= 0, i < LEN(t), z3.Not(OK(i))))), z3.And(KIND(t) == 4, z3.Exists([k], z3.And(HASK(t, k), z3.Not(OK(k))))), KIND(t) > 5, KIND(t) < 0)
        if kind == 'exc':
            ok = isinstance(v, TypeError)
            rec.add(FN + ': refuses with a TypeError', FN, 'proved' if ok else 'undecided', verify.rexc(v), failed=not ok, items=ITEMS)
            ob(rec, FN + ': refuses only what is not describable', FN, bad, items=ITEMS)
            return
        ob(rec, FN + ': what is not describable is refused', FN, z3.Not(bad), items=ITEMS)
        if isinstance(v, Own):
            ob(rec, FN + ': objects describe themselves', FN, z3.And(KIND(t) == 0, v.terms[0] == t), items=ITEMS)
        elif isinstance(v, ToList):
            ob(rec, FN + ': arrays as lists', FN, z3.And(KIND(t) == 3, v.terms[0] == t), items=ITEMS)
        elif isinstance(v, Thing):
            ob(rec, FN + ': basic values are their own description', FN, z3.And(KIND(t) == 5, v.terms[0] == t), items=ITEMS)
        elif isinstance(v, Bag) and v.kind == 'list':
            ob(rec, FN + ': lists and tuples as lists', FN, seq_, items=ITEMS)
            each_element(rec, FN, 'list', v, t, Desc, False)
        elif isinstance(v, Bag) and v.kind == 'dict':
            ob(rec, FN + ': dictionaries as dictionaries', FN, KIND(t) == 4, items=ITEMS)
            each_element(rec, FN, 'dictionary', v, t, Desc, True)
        else:
            raise Unsupported('description %r' % (v,))
    with patch(D, get_description=describe_contract):
        paths(rec, FN, [FN], lambda: real(Thing(t)), [LEN(t) >= 0, z3.Implies(KIND(t) == 5, z3.And(BASIC(t) >= 0, BASIC(t) <= 4))], handle)


class ClassObj(Obj):
    """a describable class, identified by its name"""
    @property
    def __name__(self):
        return Name(self.terms[0])

    def __new_from_description__(self, d):
        return Made(self.terms[0], d.terms[0])


class Made(Obj):
    """object of a class made from a description"""


ISC = z3.Function('is_describable_class', I, Bo)


class DescIn(Thing):
    """a description"""

    def __symcontains__(self, k):
        if k == TYPE:
            return ZB(TYPED(self.terms[0]))
        return Thing.__symcontains__(self, k)

    def __getitem__(self, k):
        if isinstance(k, str) and k == TYPE:
            if not ZB(TYPED(self.terms[0])):
                raise KeyError(k)
            return Name(TNAME(self.terms[0]))
        return Thing.__getitem__(self, k)


def creating(rec):
    from brainstorm import describable as D
    FN = 'create_from_description'
    t = const('t')
    c = const('c')
    real = D.create_from_description
    known = ISC(TNAME(t))

    def handle(kind, v):
        bad = z3.Or(z3.And(KIND(t) == 4, TYPED(t), z3.Not(known)), KIND(t) > 5, KIND(t) < 0, KIND(t) == 0, KIND(t) == 2, KIND(t) == 3)
        if kind == 'exc':
            ob(rec, FN + ': refuses only unknown types and what is no description', FN, bad, items=ITEMS)
            return
        ob(rec, FN + ': unknown types and what is no description are refused', FN, z3.Not(bad), items=ITEMS)
        if isinstance(v, Made):
            ob(rec, FN + ': made by the class of that name from the description', FN, z3.And(KIND(t) == 4, TYPED(t), ISC(v.terms[0]), v.terms[0] == TNAME(t), v.terms[1] == t), items=ITEMS)
        elif isinstance(v, Thing):
            ob(rec, FN + ': basic values are themselves', FN, z3.And(KIND(t) == 5, v.terms[0] == t), items=ITEMS)
        elif isinstance(v, Bag) and v.kind == 'list':
            ob(rec, FN + ': lists from lists', FN, KIND(t) == 1, items=ITEMS)
            each_element(rec, FN, 'list', v, t, Created, False)
        elif isinstance(v, Bag) and v.kind == 'dict':
            ob(rec, FN + ': dictionaries from dictionaries without a type', FN, z3.And(KIND(t) == 4, z3.Not(TYPED(t))), items=ITEMS)
            each_element(rec, FN, 'dictionary', v, t, Created, True)
        else:
            raise Unsupported('created %r' % (v,))
    with patch(D, create_from_description=created_contract, get_inheritors=lambda b: Bag('set', [Part([c], ISC(c), ClassObj(c))])):
        paths(rec, FN, [FN], lambda: real(DescIn(t)), [LEN(t) >= 0, z3.Implies(KIND(t) == 5, z3.And(BASIC(t) >= 0, BASIC(t) <= 4))], handle)


# ------------------------------------------------------------------ members
HAS = z3.Function('has_member', I, Bo)
VALUE = z3.Function('member_value', I, I)
UND = z3.Function('undescribed', I, Bo)
UV = z3.Function('initial_value', I, I)
DEFM = z3.Function('has_default', I, Bo)
DVAL = z3.Function('default_value', I, I)
EQ = z3.Function('equal', I, I, Bo)
IND = z3.Function('in_description', I, Bo)
DESCR = z3.Function('described_value', I, I)


class Attr(Thing):
    def __eq__(self, o):
        if isinstance(o, Attr):
            return ZB(EQ(self.terms[0], o.terms[0]))
        return Obj.__eq__(self, o)

    def __ne__(self, o):
        return ~self.__eq__(o)
    __hash__ = Obj.__hash__

    def __deepcopy__(self, memo):
        return Copied(self.terms[0])

    def __copy__(self):
        raise Unsupported('shallow copy')


def table(has, val):
    k = const('k')
    return Bag('dict', [Part([k], has(k), (Name(k), Attr(val(k))))], False)


class Instance(object):
    """an object whose attributes are a collection"""
    __slots__ = ('bag', 'log')

    def __init__(self, bag):
        self.bag, self.log = bag, []

    __dict__ = property(lambda self: self.bag)

    def __get_all_undescribed__(self):
        return table(UND, UV)

    def __get_all_default_values__(self):
        return table(DEFM, DVAL)


def facts():
    t, u = const('t'), const('u')
    return [z3.Not(f(code(TYPE))) for f in (HAS, UND, DEFM, IND)] + [z3.ForAll([t, u], EQ(t, u) == EQ(u, t))]


def in_description(k):
    return z3.And(HAS(k), z3.Not(UND(k)), z3.Not(z3.And(DEFM(k), EQ(DVAL(k), VALUE(k)))))


def members(rec):
    from brainstorm import describable as D
    FN = 'Describable.__describe__'
    k = const('k')

    def run():
        o = Instance(table(HAS, VALUE))
        n = len(sets.JOURNAL)
        d = D.Describable.__describe__(o)
        return o, d, [c for c, _, _, _ in sets.JOURNAL[n:]]

    def handle(kind, v):
        bad = z3.Exists([k], z3.And(in_description(k), z3.Not(OK(VALUE(k)))))
        if kind == 'exc':
            ob(rec, FN + ': refuses only if a member is not describable', FN, bad, items=ITEMS)
            return
        o, d, changed = v
        ob(rec, FN + ': members that are not describable are refused', FN, z3.Not(bad), items=ITEMS)
        ob(rec, FN + ': exactly the members that are not left out, and the type', FN, z3.ForAll([k], d.member(Name(k)) == z3.Or(in_description(k), k == code(TYPE))), items=ITEMS)
        for p in d.parts:
            p = p.fresh()
            key, val = p.value
            if isinstance(val, Desc):
                ob(rec, FN + ': with the description of their value', FN, forall(p.vars, z3.Implies(p.cond, z3.And(sets.zname(key) != code(TYPE), val.terms[0] == VALUE(sets.zname(key))))), items=ITEMS)
            else:
                ok = val == 'Instance'
                rec.add(FN + ': the type is the name of the class', FN, 'proved' if ok else 'undecided', failed=not ok, items=ITEMS)
                ob(rec, FN + ': under @type', FN, forall(p.vars, z3.Implies(p.cond, sets.zname(key) == code(TYPE))), items=ITEMS)
        same = not any(c is o.bag.core for c in changed)
        rec.add(FN + ': the object is not changed', FN, 'proved' if same else 'undecided', failed=not same, items=ITEMS)
    with patch(D, get_description=describe_contract):
        paths(rec, FN, [FN], run, facts(), handle)


class Cls(object):
    """a describable class with any undescribed members and default values"""

    def __init__(self):
        self.__dict__['__name__'] = 'Instance'
        self.__dict__['__new__'] = self.new
        self.made = []

    def new(self, c):
        self.made.append(Instance(Bag('dict')))
        return self.made[-1]

    def __get_all_undescribed__(self):
        return table(UND, UV)

    def __get_all_default_values__(self):
        return table(DEFM, DVAL)

    def __init_from_description__(self, instance, description):
        instance.log.append((description, list(instance.bag.parts)))


def recreating(rec):
    from brainstorm import describable as D
    FN = 'Describable.__new_from_description__'
    k = const('k')

    def run():
        cls = Cls()
        d = Bag('dict', [Part([], z3.BoolVal(True), (TYPE, 'Instance')), Part([k], IND(k), (Name(k), Attr(DESCR(k))))], False)
        return cls, d, D.Describable.__new_from_description__.__func__(cls, d)

    def handle(kind, v):
        if kind == 'exc':
            rec.add(FN + ': returns normally', FN, 'undecided', verify.rexc(v), failed=True, items=ITEMS)
            return
        cls, d, o = v
        ok = len(cls.made) == 1 and o is cls.made[0]
        rec.add(FN + ': a new object of the class', FN, 'proved' if ok else 'undecided', failed=not ok, items=ITEMS)
        if not ok:
            return
        b = o.bag
        ob(rec, FN + ': members: those described, those with defaults, those undescribed', FN, z3.ForAll([k], b.member(Name(k)) == z3.Or(IND(k), DEFM(k), UND(k))), items=ITEMS)
        for p in b.parts:
            p = p.fresh()
            key, val = sets.zname(p.value[0]), p.value[1]
            if isinstance(val, Created):
                f = z3.And(IND(key), val.terms[0] == DESCR(key))
            elif isinstance(val, Copied):
                f = z3.And(z3.Not(IND(key)), z3.Or(z3.And(DEFM(key), val.terms[0] == DVAL(key)), z3.And(z3.Not(DEFM(key)), UND(key), val.terms[0] == UV(key))))
            else:
                f = z3.BoolVal(False)
            ob(rec, FN + ': described members are re-created, others are copies of their default or initial value', FN, forall(p.vars, z3.Implies(p.cond, f)), items=ITEMS)
        ok = len(o.log) == 1 and o.log[0][0] is d and len(o.log[0][1]) == len(b.parts) and all(x is y for x, y in zip(o.log[0][1], b.parts))
        rec.add(FN + ': the class gets its own initialisation once, after that', FN, 'proved' if ok else 'undecided', failed=not ok, items=ITEMS)
    with patch(D, create_from_description=created_contract):
        paths(rec, FN, [FN], run, facts(), handle)


def round_trip(rec):
    """the contracts above compose: the re-created object has the same description"""
    k, x = const('k'), const('x')
    Cr, De = z3.Function('created', I, I), z3.Function('description', I, I)
    # object of the description of an object with members HAS/VALUE
    has2 = z3.Or(in_description(k), DEFM(k), UND(k))
    val2 = z3.If(in_description(k), Cr(De(VALUE(k))), z3.If(DEFM(k), DVAL(k), UV(k)))
    in2 = z3.And(has2, z3.Not(UND(k)), z3.Not(z3.And(DEFM(k), EQ(DVAL(k), val2))))
    hyps = [z3.ForAll([x], De(Cr(De(x))) == De(x)), z3.ForAll([x, k], EQ(x, Cr(De(k))) == EQ(x, k)), z3.ForAll([x], EQ(x, x))]
    lemma(rec, 'the re-created object describes the same members', 'round trip', hyps, in2 == in_description(k))
    lemma(rec, 'with the same descriptions', 'round trip', hyps + [in2], De(val2) == De(VALUE(k)))


# ------------------------------------------------------------------ undescribed members and defaults of a class and its ancestors
def inherited(rec):
    """every class hierarchy up to four classes deep, each with a dictionary, a set or nothing; the contents are arbitrary"""
    import itertools
    from brainstorm import describable as D
    items = ITEMS
    for which, fn in (('undescribed', '__get_all_undescribed__'), ('default_values', '__get_all_default_values__')):
        FN = 'Describable.' + fn
        for depth in (1, 2, 3, 4):
            for kinds in itertools.product(['dict', 'set', None] if which == 'undescribed' else ['dict', None], repeat=depth):
                Hs = [z3.Function('own_%d' % n, I, Bo) for n in range(depth)]
                Vs = [z3.Function('own_value_%d' % n, I, I) for n in range(depth)]

                def run():
                    c = D.Describable
                    for n, kd in enumerate(kinds):
                        k = const('k')
                        attrs = {}
                        if kd == 'dict':
                            attrs['__%s__' % which] = Bag('dict', [Part([k], Hs[n](k), (Name(k), Attr(Vs[n](k))))], False)
                        elif kd == 'set':
                            attrs['__%s__' % which] = Bag('set', [Part([k], Hs[n](k), Name(k))])
                        c = type(str('C%d' % n), (c,), attrs)
                    # (classes made here must not stay among the subclasses of Describable)
                    return getattr(c, fn)()

                def handle(kind, v):
                    label = FN + ' %s' % '/'.join(str(x) for x in kinds)
                    if kind == 'exc':
                        rec.add(label + ': returns normally', FN, 'undecided', verify.rexc(v), failed=True, items=items)
                        return
                    v = sets.bag(v)
                    k = const('k')
                    has = [Hs[n](k) for n, kd in enumerate(kinds) if kd]
                    ob(rec, label + ': everything a class or an ancestor names', FN, z3.ForAll([k], v.member(Name(k)) == z3.Or(*has)) if has else z3.ForAll([k], z3.Not(v.member(Name(k)))), items=items)
                    for p in v.parts:
                        p = p.fresh()
                        key, val = sets.zname(p.value[0]), p.value[1]
                        alts = []
                        for n, kd in enumerate(kinds):
                            if not kd:
                                continue
                            later = [z3.Not(Hs[m](key)) for m in range(n + 1, depth) if kinds[m]]
                            here = z3.BoolVal(val is None) if kd == 'set' else val.terms[0] == Vs[n](key) if isinstance(val, Attr) else z3.BoolVal(False)
                            alts.append(z3.And(Hs[n](key), here, *later))
                        ob(rec, label + ': with the value of the most derived class', FN, forall(p.vars, z3.Implies(p.cond, z3.Or(*alts))), items=items)
                paths(rec, FN, [FN, '_traverse_ancestor_attrs'], run, [], handle)
    import gc
    gc.collect()


# ------------------------------------------------------------------ every class: re-created objects are like freshly built ones
NEG = z3.Function('minus', I, I)
LT, TRUTH = z3.Function('less', I, I, Bo), z3.Function('truth', I, Bo)
LISTS = [('MultiStep', 'steps'), ('MultiStep', 'values')]           # (lists of any arguments, up to three)
SUBCLASS = z3.Function('is_instance_of', I, I, Bo)


class Arg(object):
    """an argument about which nothing is known, except that it is not None"""

    def __init__(self, z):
        self.z = z

    def other(self, o):
        if isinstance(o, Arg):
            return o.z
        if o is None or isinstance(o, (list, tuple, dict, set)) or not (isinstance(o, (str, int, float, bool))):
            return None
        return code(o)

    def __eq__(self, o):
        z = self.other(o)
        return False if z is None else ZB(self.z == z)

    def __ne__(self, o):
        z = self.other(o)
        return True if z is None else ZB(self.z != z)

    def rel(self, o, swap=False, neg=False):
        z = self.other(o)
        if z is None:
            raise TypeError('order')
        f = LT(z, self.z) if swap else LT(self.z, z)
        return ZB(z3.Not(f) if neg else f)

    def __lt__(self, o):
        return self.rel(o)

    def __gt__(self, o):
        return self.rel(o, True)

    def __le__(self, o):
        return self.rel(o, True, True)

    def __ge__(self, o):
        return self.rel(o, False, True)

    def __bool__(self):
        return bool(ZB(TRUTH(self.z)))

    def __hash__(self):
        raise Unsupported('hash of an unknown argument')

    def __neg__(self):
        return Arg(NEG(self.z))

    def __deepcopy__(self, memo):
        return self

    def __ghost_isinstance__(self, c):
        c = c if isinstance(c, tuple) else (c,)
        return ZB(z3.Or(*[SUBCLASS(self.z, code('class %s' % x.__name__)) for x in c]))

    def __format__(self, f):
        return 'argument'

    def __repr__(self):
        return 'Arg(%s)' % self.z


class _AnyArray(type):
    def __instancecheck__(cls, x):
        return isinstance(x, Arg)


class Arrays(object):
    """arguments that must be arrays are"""
    ndarray = _AnyArray(str('ndarray'), (), {})

    @staticmethod
    def array(x):
        return Arg(x.z) if isinstance(x, ArgDesc) else x


class ArgDesc(object):
    """description of an argument"""

    def __init__(self, z):
        self.z = z


def alike(a, b, seen=()):
    """condition under which two values are equal; None if that is not known"""
    if a is b:
        return z3.BoolVal(True)
    if isinstance(a, ArgDesc) or isinstance(b, ArgDesc):
        return a.z == b.z if type(a) is type(b) else z3.BoolVal(False)
    if isinstance(a, Arg) or isinstance(b, Arg):
        a, b = (a, b) if isinstance(a, Arg) else (b, a)
        z = a.other(b)
        return z3.BoolVal(False) if z is None else a.z == z
    if type(a) is not type(b) and not (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))):
        return z3.BoolVal(False)
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return z3.BoolVal(False)
        r = [alike(x, y, seen) for x, y in zip(a, b)]
    elif isinstance(a, dict):
        if set(a) != set(b):
            return z3.BoolVal(False)
        r = [alike(a[k], b[k], seen) for k in a]
    elif a is None or isinstance(a, (bool, int, float, str, set, type)):
        return z3.BoolVal(a == b)
    elif getattr(a, '__self__', None) is not None and getattr(b, '__self__', None) is not None and hasattr(a, '__func__'):
        return z3.BoolVal(a.__func__ is b.__func__)
    elif hasattr(a, '__dict__') and type(a).__module__.startswith('brainstorm') and id(a) not in seen:
        return alike(members_of(a), members_of(b), seen + (id(a),))
    else:
        return None
    return None if any(x is None for x in r) else z3.And(*r) if r else z3.BoolVal(True)


def members_of(o):
    return {k: v for k, v in o.__dict__.items() if k not in ('rnd',) and not callable(v)}


def classes(rec):
    import inspect
    import itertools
    from brainstorm import describable as D, initializers, value_modifiers, hooks, scorers
    from brainstorm.training import steppers, schedules
    from brainstorm.utils import get_inheritors
    real_d, real_c = D.get_description, D.create_from_description
    todo = []
    for m in (initializers, value_modifiers, hooks, scorers, steppers, schedules):
        for c in sorted((c for c in vars(m).values() if isinstance(c, type) and issubclass(c, D.Describable) and c.__module__ == m.__name__), key=lambda c: c.__name__):
            todo.append(c)
    skip = ('InfoUpdater', 'BokehVisualizer', 'ArrayInitializer')            # (holds a function / needs a display library / described by its array)
    for c in todo:
        if c.__name__ in skip or inspect.isabstract(c):
            continue
        items = [dict(kind='single'), dict(kind='trainers')]
        FN = c.__name__
        ps = [p for p in list(inspect.signature(c.__init__).parameters.values())[1:]]
        if any(p.kind not in (p.POSITIONAL_OR_KEYWORD, p.KEYWORD_ONLY) for p in ps):
            continue
        ways = [[None, 'any'] if p.default is None and p.name != 'seed' else [None] if p.default is None else [True, False] if isinstance(p.default, bool) else [0, 1, 3] if (FN, p.name) in LISTS else ['any'] for p in ps]

        def go():
            und = set(D.Describable.__get_all_undescribed__.__func__(c))
            for way in itertools.product(*ways):
                given = {p.name: w for p, w in zip(ps, way)}
                if FN == 'MultiStep' and given['steps'] != given['values']:
                    continue
                zs = {n: [const(n) for _ in range(w)] if w is not True and w is not False and isinstance(w, int) else const(n) if w == 'any' else w for n, w in given.items()}
                label = FN + ': ' + ''.join('%s=%s ' % (n, w) for n, w in sorted(given.items()) if w != 'any')

                def build():
                    return {n: [Arg(x) for x in z] if isinstance(z, list) else Arg(z) if z3.is_expr(z) else z for n, z in zs.items()}

                def run():
                    SETMODE[0] = False                 # (the collections here are concrete)
                    a = build()
                    try:
                        o = c(**a)
                    except (AssertionError, ValueError, TypeError, KeyError):
                        raise Infeasible()
                    before = dict(o.__dict__)
                    fresh = c(**build())
                    # the object has been used: what is not described has any value
                    for k in before:
                        if k in und and not callable(before[k]) and k != 'rnd':
                            o.__dict__[k] = Arg(const('used'))
                    used = dict(o.__dict__)
                    d = D.get_description(o)
                    d0 = D.get_description(fresh)
                    same = set(used) == set(o.__dict__) and all(o.__dict__[k] is used[k] for k in used)
                    kept = copy(d)
                    n = D.create_from_description(d)
                    return o, fresh, d, d0, same, kept, n

                def handle(kind, v):
                    if kind == 'exc':
                        if isinstance(v, Unsupported):
                            raise v
                        rec.add(label + 'can be described and re-created', FN, 'undecided', verify.rexc(v), failed=True, items=items)
                        return
                    o, fresh, d, d0, same, kept, n = v
                    rec.add(label + 'describing does not change it', FN, 'proved' if same else 'undecided', failed=not same, items=items)
                    for what, x, y in (('creating does not change the description', d, kept), ('the description is that of a fresh object', d, d0)):
                        f = alike(x, y)
                        if f is None:
                            raise Unsupported('description of %s' % FN)
                        ob(rec, label + what, FN, f, items=items)
                    ok = type(n) is c
                    rec.add(label + 're-created as the same class', FN, 'proved' if ok else 'undecided', failed=not ok, items=items)
                    a, b = members_of(fresh), members_of(n)
                    for k in sorted(set(a) | set(b)):
                        if k in ('__name__', 'layer_name', 'view_name') or k in und and k not in a:
                            continue                                 # (set by the trainer and by the network, resp. on first use)
                        f = z3.BoolVal(False) if k not in a or k not in b else alike(a[k], b[k])
                        if f is None:
                            continue                                 # (arrays and the like: bounded)
                        ob(rec, label + 'attribute %s as in a freshly built object' % k, FN, f, items=items)
                    f = alike(d0, D.get_description(n))
                    if f is not None:
                        ob(rec, label + 'the re-created object has the same description', FN, f, items=items)

                def copy(d):
                    return {k: copy(x) for k, x in d.items()} if isinstance(d, dict) else [copy(x) for x in d] if isinstance(d, list) else d
                with patch(D, get_description=lambda x: ArgDesc(x.z) if isinstance(x, Arg) else real_d(x), create_from_description=lambda d: Arg(d.z) if isinstance(d, ArgDesc) else real_c(d)), patch(value_modifiers, np=Arrays):
                    paths(rec, label.rstrip(': '), [FN + '.__init__', FN + '.__describe__', FN + '.__new_from_description__'], run, [], handle, items)
        rec.attempt(FN, FN, go)


# ------------------------------------------------------------------ networks
class Any(object):
    def __init__(self, what):
        self.what = what

    def __eq__(self, o):
        return isinstance(o, Any) and o.what == self.what

    def __hash__(self):
        return hash(self.what)

    def __getitem__(self, k):
        return Any(('[]', self.what, k))

    def get(self, k, d=None):
        return self[k] if d is None else Any(('get', self.what, k, d))

    def encode(self):
        return Any(('encode', self.what))

    def decode(self):
        assert self.what[0] == 'encode'
        return Any(self.what[1])


class File(object):
    disk = {}

    def __init__(self, name, mode):
        self.name, self.mode = name, mode

    def __enter__(self):
        if self.mode == 'w':
            File.disk[self.name] = {}
        elif self.mode != 'r':
            raise Unsupported('mode')
        self.attrs = self
        return self

    def __exit__(self, *a):
        return False

    def create(self, k, v):
        pass

    def __setitem__(self, k, v):
        File.disk[self.name][k] = v

    def create_dataset(self, k, data=None, **kw):
        if set(kw) - {'compression', 'compression_opts', 'chunks', 'shuffle'}:
            raise Unsupported('dataset options')          # (dtype= would lose information)
        File.disk[self.name][k] = data

    def __getitem__(self, k):
        v = File.disk[self.name][k]

        class Stored(object):
            def __getitem__(self, i):
                if i != ():
                    raise Unsupported('part of a dataset')
                return v
        return Stored()


def files(rec):
    from brainstorm.structure import network as W
    FN = 'Network.save_as_hdf5/from_hdf5'
    items = [dict(kind='networks')]
    rec.under('Network.save_as_hdf5', 'Network.from_hdf5', 'Network.__new_from_description__')
    log = []

    class H5(object):
        pass
    H5.File = File

    class Json(object):
        @staticmethod
        def dumps(d):
            return Any(('json', d))

        @staticmethod
        def loads(s):
            assert s.what[0] == 'json'
            return s.what[1]

    class Hand(object):
        def set_from_numpy(self, a, b):
            log.append(('set', a, b))

    class New(object):
        handler = Hand()

        class buffer(object):
            parameters = Any('new parameters')

    def create(d):
        log.append(('create', d))
        return New

    def go():
        File.disk.clear()
        del log[:]

        class Old(object):
            def get(self, k):
                return Any(('get', k))
        old = Old()
        with patch(W, h5py=H5, json=Json, get_description=lambda o: Any(('description', o)), create_from_description=create, get_brainstorm_info=lambda: b'info'):
            W.Network.save_as_hdf5(old, 'f', comment='c')
            got = W.Network.from_hdf5('f')
        ok = got is New and [l[0] for l in log].count('create') == 1 and log[0] == ('create', Any(('description', old)))
        rec.add(FN + ': the loaded network is created from the description of the saved one', FN, 'proved' if ok else 'undecided', str(log)[:200], failed=not ok, items=items)
        sets_ = [l for l in log if l[0] == 'set']
        ok = sets_ == [('set', Any('new parameters'), Any(('get', 'parameters')))] and log.index(sets_[0]) > 0
        rec.add(FN + ': and then gets its parameters, all of them', FN, 'proved' if ok else 'undecided', str(log)[:200], failed=not ok, items=items)
    rec.attempt(FN, FN, go)

    def go2():
        FN = 'Network.__new_from_description__'
        del log[:]

        class Net(object):
            output_name = None

            def __getattr__(self, n):
                if n.startswith('__'):
                    raise AttributeError(n)
                return lambda *a: log.append((n,) + a)
        net = Net()
        d = Any('d')
        made = []

        class Factory(object):
            @staticmethod
            def from_architecture(a):
                made.append(a)
                return net
        real = W.Network.__new_from_description__.__func__
        with patch(W, Network=Factory, create_from_description=lambda x: Any(('created', x.what))):
            r = real(Factory, d)
        ok = r is net and made == [Any(('[]', 'd', 'architecture'))]
        rec.add(FN + ': a network of the described architecture', FN, 'proved' if ok else 'undecided', failed=not ok, items=items)
        want = {n: Any(('created', ('[]', 'd', k))) for n, k in (('set_handler', 'handler'), ('initialize', 'initializers'), ('set_gradient_modifiers', 'gradient_modifiers'), ('set_weight_modifiers', 'weight_modifiers'))}
        for n, v in want.items():
            calls = [l[1:] for l in log if l[0] == n]
            ok = calls == [(v,)]
            rec.add(FN + ': %s with what is described' % n, FN, 'proved' if ok else 'undecided', str(log)[:200], failed=not ok, items=items)
        names = [l[0] for l in log]
        ok = 'set_handler' in names and 'initialize' in names and names.index('set_handler') < names.index('initialize')
        rec.add(FN + ': the handler is set before the parameters are initialised', FN, 'proved' if ok else 'undecided', failed=not ok, items=items)
        ok = net.__dict__.get('output_name') in (Any(('[]', 'd', 'output_name')),)
        rec.add(FN + ': the output name', FN, 'proved' if ok else 'undecided', failed=not ok, items=items)
    rec.attempt('Network.__new_from_description__', 'Network.__new_from_description__', go2)


def tasks(tier):
    return [('describing', describing), ('creating', creating), ('members', members), ('recreating', recreating), ('round trip', round_trip), ('inherited', inherited), ('classes', classes), ('files', files)]
