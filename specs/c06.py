"""C06: order and validation of architectures with any number of layers and connections."""
import z3
from engine import sets, rt, verify, seq
from engine.poly import *
from engine.prover import *
from engine.rt import *
from engine.sets import Bag, Part, Name, Obj, ZB, const, code, exists, forall
from engine.verify import contract, lemma
from . import common

ASSUMPTIONS = ['dictionaries, sets and sorted() behave as in engine/sets.py: iteration over a dictionary or set visits every element once, in an order that need not follow from its content; sorted() of different names depends on the set of names only',
               'every layer class except Input refuses to be built without inputs (bounded)', 'a registered layer type is found by its name (bounded)', 'str.partition(".") splits a connection string into the name of a layer and of an input', 'a set of naturals that is not empty has a smallest element (well-ordering, used for: without a cycle every non-empty set of layers has one without successors in it)']
TRUSTED = ['engine/*.py', 'z3', common.EXTRACTION]
I, Bo = z3.IntSort(), z3.BoolSort()
K = z3.Function('is_layer', I, Bo)
HASOUT, HASTYPE, TYPESTR, KEYSTR, VALID = [z3.Function(n, I, Bo) for n in ('has_outgoing', 'has_type', 'type_is_string', 'key_is_string', 'valid_name')]
KIND = z3.Function('kind_of_outgoing', I, I)                      # 0 dict, 1 list, 2 tuple, 3 set, else something else
TYPE = z3.Function('type_of', I, I)
CON = z3.Function('connected', I, I, I, I, Bo)                      # layer, output, end layer, input (as written, '' if none)
CONL = z3.Function('connected_by_list', I, I, I, Bo)                # layer, end layer, input


class Con(Obj):
    """connection string 'end.input' or 'end'"""

    def partition(self, sep):
        if sep != '.':
            raise Unsupported('partition at %r' % sep)
        e, i = self.terms
        return Name(e), Name(const('sep')), Name(i)

    def split(self, sep, n=-1):
        raise Unsupported('split of a connection string')


class Key(Name):
    def __ghost_isinstance__(self, c):
        return ZB(KEYSTR(self.z)) if c in ((str,), str) else False

    def subst(self, s):
        return Key(z3.substitute(self.z, *s))


class Type(Obj):
    def __ghost_isinstance__(self, c):
        return ZB(TYPESTR(self.terms[0]))

    def __eq__(self, o):
        return ZB(TYPE(self.terms[0]) == code(o)) if isinstance(o, str) else Obj.__eq__(self, o)

    def __ne__(self, o):
        return ~self.__eq__(o)
    __hash__ = Obj.__hash__

    def __add__(self, s):
        return Type2(self.terms[0], code(s))


class Type2(Obj):
    pass


class Outgoing(Obj):
    __ghost__ = True

    def __ghost_isinstance__(self, c):
        c = c if isinstance(c, tuple) else (c,)
        k = KIND(self.terms[0])
        return ZB(z3.Or(*[k == n for n, t in enumerate((dict, list, tuple, set)) if t in c])) if any(t in c for t in (dict, list, tuple, set)) else False

    def __bag__(self):
        x = self.terms[0]
        if ZB(KIND(x) == 0):
            return self.items().keys() if False else Bag('set', [Part([self._o()[0]], self._o()[1], Name(self._o()[0]))])
        e, i = const('end'), const('inp')
        return Bag('list', [Part([e, i], CONL(x, e, i), Con(e, i))], False)

    def _o(self):
        raise Unsupported('keys of the outgoing connections')

    def items(self):
        x = self.terms[0]
        if not ZB(KIND(x) == 0):
            raise AttributeError('no items')
        o, e, i = const('out'), const('end'), const('inp')
        return Bag('list', [Part([o], HASO(x, o), (Name(o), Bag('list', [Part([e, i], CON(x, o, e, i), Con(e, i))], False)))], False)

    def values(self):
        raise Unsupported('values of the outgoing connections')


HASO = z3.Function('has_output', I, I, Bo)


class Layer(Obj):
    def __symcontains__(self, k):
        x = self.terms[0]
        if k == '@type':
            return ZB(HASTYPE(x))
        if k == '@outgoing_connections':
            return ZB(HASOUT(x))
        raise Unsupported('%r in a layer' % k)

    def __getitem__(self, k):
        if not self.__symcontains__(k):
            raise KeyError(k)
        return Type(self.terms[0]) if k == '@type' else Outgoing(self.terms[0])

    def get(self, k, d=None):
        return self[k] if self.__symcontains__(k) else d

    def items(self):
        return Kwargs(self.terms[0])


class Kwargs(Obj):
    pass


def architecture(written=True):
    x = const('layer')
    return Bag('dict', [Part([x], K(x), (Key(x), Layer(x)))], False)


def effective(c, e):
    """input name of a connection: 'default' where none is written"""
    return z3.If(c == code(''), code('default'), c)


def edge(a, o, e, i):
    """the connection (layer, output, end layer, input) is in the architecture"""
    w = const('w')
    d = z3.And(KIND(a) == 0, HASO(a, o), z3.Exists([w], z3.And(CON(a, o, e, w), effective(w, e) == i)))
    l = z3.And(KIND(a) != 0, o == code('default'), z3.Exists([w], z3.And(CONL(a, e, w), effective(w, e) == i)))
    return z3.And(K(a), HASOUT(a), z3.Or(d, l))


def feeds(a, e):
    o, i = const('o'), const('i')
    return z3.Exists([o, i], edge(a, o, e, i))


VACUITY = {}


def ob(rec, name, fname, f, **k):
    r, s = sets.check(sets.facts() + [z3.Not(f)], 20000)
    d = '' if r == z3.unsat else 'solver: %s' % r
    if r == z3.unknown and sets.finite_model(sets.facts() + [z3.Not(f)]):
        r, d = z3.sat, 'solver: sat with finitely many names'
    # behind a loop the model may be one that a stronger invariant would exclude: only a failing run of the code counts then
    rec.add(name, fname, 'proved' if r == z3.unsat else 'undecided', d, failed=r == z3.sat and not sets.NOTES, **k)
    if r == z3.unsat:
        fs = sets.facts(False)
        key = tuple(x.get_id() for x in fs)
        if key not in VACUITY:
            VACUITY[key] = (fs, sets.check(fs, 1500)[0])          # (the terms are kept, so that their numbers stay theirs)
        r2 = VACUITY[key][1]
        rec.vacuity['contexts_satisfiable' if r2 != z3.unsat else 'failures'] = rec.vacuity['contexts_satisfiable'] + 1 if r2 != z3.unsat else rec.vacuity['failures'] + ['contradictory facts: ' + name]
    return r == z3.unsat


def paths(rec, name, fname, fn, base, handle, items=()):
    """execute fn on every path; handle(kind, value) records the obligations of the path"""
    rec.under(*fname)

    def go():
        n = [0]

        def state(kind, v):
            n[0] += 1
            try:
                handle(kind, v)
            except Unsupported:
                raise
            except (Exception, Infeasible, sets.Cut) as e:
                raise Unsupported('stating the obligations: %s' % verify.rexc(e))

        def one():
            try:
                v = fn()
            except (Unsupported, Infeasible, sets.Cut):
                raise
            except Exception as e:
                if verify.artifact(e):
                    raise Unsupported('%s (of a modelled value)' % verify.rexc(e))
                state('exc', e)
                return
            state('ok', v)
        sets.run(one, base)
        if not n[0]:
            rec.add(name, fname[0], 'undecided', 'no feasible path')
        sets.MAPINV[:] = []
        sets.INVARIANTS[:] = []
        sets.MEASURES[:] = []
    rec.attempt(name, fname[0], go)


VARS = [const('a'), const('o'), const('e'), const('i')]


def connections(rec):
    from brainstorm.structure import architecture as A
    items = [dict(kind='order')]

    def handle(kind, v):
        if kind == 'exc':
            # only an architecture with a layer without outgoing connections, or with connections of another type, is refused
            x = const('x')
            ob(rec, 'collect_all_connections: refuses only if a layer has no proper connections', FN, z3.Exists([x], z3.And(K(x), z3.Or(z3.Not(HASOUT(x)), KIND(x) > 3, KIND(x) < 0))), items=items)
            return
        a, o, e, i = VARS
        c = A.Connection(Name(a), Name(o), Name(e), Name(i))
        ob(rec, 'collect_all_connections: exactly the connections of the architecture', FN, z3.ForAll(VARS, v.member(c) == edge(a, o, e, i)), items=items)
        rec.add('collect_all_connections: the result depends on the content only', FN, 'proved' if v.canon else 'undecided', failed=not v.canon, items=items)
    FN = 'collect_all_connections'
    paths(rec, FN, ['collect_all_connections', 'collect_all_outgoing_connections', 'parse_connection'], lambda: A.collect_all_connections(architecture()), [], handle)


def collected(arch):
    """contract of collect_all_connections (proved above)"""
    from brainstorm.structure.architecture import Connection
    a, o, e, i = [const(n) for n in 'aoei']
    return Bag('list', [Part([a, o, e, i], EDGE(a, o, e, i), Connection(Name(a), Name(o), Name(e), Name(i)))], True)


EDGE = z3.Function('edge', I, I, I, I, Bo)


def edges():
    """the connections, as an uninterpreted relation: all start in layers"""
    a, o, e, i = [const(n) for n in 'aoei']
    return [z3.ForAll([a, o, e, i], z3.Implies(EDGE(a, o, e, i), K(a)))]


def feeds_(a, e):
    o, i = const('o'), const('i')
    return z3.Exists([o, i], EDGE(a, o, e, i))


RANK = z3.Function('rank', I, I)


def order(rec):
    from brainstorm.structure import architecture as A
    FN = 'get_canonical_layer_order'
    items = [dict(kind='order'), dict(kind='refuse')]

    def closed(state):
        for n, b in state.items():
            x, y = const('x'), const('y')
            if b.kind == 'list':
                yield '%s: what a layer feeds comes before it' % n, z3.ForAll([x, y], z3.Implies(z3.And(b.member(Name(x)), feeds_(x, y)), sets.before(b, Name(y), Name(x))))
                yield '%s: what feeds a layer comes before it' % n, z3.ForAll([x, y], z3.Implies(z3.And(b.member(Name(y)), feeds_(x, y)), sets.before(b, Name(x), Name(y))))
            yield '%s: closed under successors' % n, z3.ForAll([x, y], z3.Implies(z3.And(b.member(Name(x)), feeds_(x, y)), b.member(Name(y))))
            yield '%s: closed under predecessors' % n, z3.ForAll([x, y], z3.Implies(z3.And(b.member(Name(y)), feeds_(x, y)), b.member(Name(x))))
            yield '%s: only layers' % n, z3.ForAll([x], z3.Implies(b.member(Name(x)), K(x)))

    def measure(old, new):
        for n, b in old.items():
            if n in new and b.kind == new[n].kind:
                x = const('x')
                yield '%s grows within the layers' % n, z3.And(z3.ForAll([x], z3.Implies(b.member(Name(x)), new[n].member(Name(x)))), z3.ForAll([x], z3.Implies(new[n].member(Name(x)), K(x))),
                                                              z3.Exists([x], z3.And(new[n].member(Name(x)), z3.Not(b.member(Name(x))))))
                yield '%s shrinks' % n, z3.And(z3.ForAll([x], z3.Implies(new[n].member(Name(x)), b.member(Name(x)))), z3.Exists([x], z3.And(b.member(Name(x)), z3.Not(new[n].member(Name(x))))))

    def handle(kind, v):
        x, y = const('x'), const('y')
        if kind == 'exc':
            # with ranks (no cycle) and all ends being layers, some layer that is left has no successor among those left
            rem = [b for b in LEFT]
            m = const('m')
            acyclic = z3.ForAll([x, y], z3.Implies(feeds_(x, y), z3.And(RANK(x) > RANK(y), K(y))))
            left = LEFT[-1] if LEFT else None
            if left is None:
                rec.add(FN + ': refuses only a cycle or an unknown layer', FN, 'undecided', verify.rexc(v), items=items, failed=False)
                return
            wo = z3.Implies(z3.Exists([x], left(x)), z3.And(left(m), z3.ForAll([x], z3.Implies(left(x), RANK(m) <= RANK(x)))))
            r, s = sets.check(sets.facts() + [acyclic, wo], 20000)
            rec.add(FN + ': refuses only a cycle or an unknown layer', FN, 'proved' if r == z3.unsat else 'undecided', 'solver: %s' % r if r != z3.unsat else '', items=items)
            return
        ob(rec, FN + ': every layer', FN, z3.ForAll([x], v.member(Name(x)) == K(x)), items=items)
        ob(rec, FN + ': no layer twice', FN, sets.distinct_list(v), items=items)
        ob(rec, FN + ': a layer comes after the layers that feed it (so no cycle is accepted)', FN, z3.ForAll([x, y], z3.Implies(feeds_(x, y), sets.before(v, Name(x), Name(y)))), items=items)
        rec.add(FN + ': the order follows from the content', FN, 'proved' if v.canon and not sets.TAINT else 'undecided', items=items)
        t = [n for n in sets.NOTES if n[0] == 'termination']
        rec.add(FN + ': terminates', FN, 'proved' if t and all(n[1] for n in t) else 'undecided', str(t), items=items)
    LEFT = []

    def run():
        del LEFT[:]
        arch = architecture()
        try:
            return A.get_canonical_layer_order(arch)
        except Exception as e:
            # the layers left over: those of the architecture that are not in the largest collection the loop kept
            tb = e.__traceback__
            while tb.tb_next is not None:
                tb = tb.tb_next
            for n, b in tb.tb_frame.f_locals.items():
                if isinstance(b, Bag) and b.kind in ('set', 'list'):
                    LEFT.append((n, b))
            ls = [(lambda x, b=b: z3.And(K(x), b.member(Name(x)))) for n, b in LEFT] + [(lambda x, b=b: z3.And(K(x), z3.Not(b.member(Name(x))))) for n, b in LEFT]
            # any set of layers without a layer all of whose successors lie outside will do
            x, y = const('x'), const('y')
            best = None
            for l in ls:
                f = z3.And(z3.Exists([x], l(x)), z3.ForAll([x], z3.Implies(l(x), z3.Exists([y], z3.And(feeds_(x, y), z3.Or(l(y), z3.Not(K(y))))))))
                if sets.check(sets.facts() + [z3.Not(f)], 4000)[0] == z3.unsat:
                    best = l
                    break
            del LEFT[:]
            if best:
                LEFT.append(best)
            raise
    sets.INVARIANTS[:] = [closed]
    sets.MEASURES[:] = [measure]
    keep = A.collect_all_connections
    A.collect_all_connections = collected
    try:
        paths(rec, FN, [FN], run, edges(), handle)
    finally:
        A.collect_all_connections = keep


PROPER = lambda x: z3.And(HASOUT(x), KIND(x) >= 0, KIND(x) <= 3)


def collected_or_refused(arch):
    x = const('x')
    if not ZB(z3.ForAll([x], z3.Implies(K(x), PROPER(x)))):
        raise KeyError('@outgoing_connections')
    return collected(arch)


class patch(object):
    def __init__(self, module, **k):
        self.m, self.k = module, k

    def __enter__(self):
        self.old = {n: self.m.__dict__[n] for n in self.k}
        for n, v in self.k.items():
            setattr(self.m, n, v)

    def __exit__(self, *a):
        for n, v in self.old.items():
            setattr(self.m, n, v)


def each(f):
    x = const('x')
    return z3.ForAll([x], z3.Implies(K(x), f(x)))


def conditions():
    a, o, e, i = [const(n) for n in 'aoei']
    inp = code('Input')
    return [('names are strings', each(KEYSTR)), ('every layer has a type', each(HASTYPE)), ('types are strings', each(TYPESTR)),
            ('connections are a list, tuple or dictionary', each(lambda x: z3.Implies(HASOUT(x), z3.And(KIND(x) >= 0, KIND(x) <= 2)))), ('names are valid', each(VALID)),
            ('every layer has connections', each(PROPER)), ('connections end at layers', z3.ForAll([a, o, e, i], z3.Implies(EDGE(a, o, e, i), K(e)))),
            ('exactly one input layer', z3.And(K(inp), each(lambda x: (TYPE(x) == code('Input')) == (x == inp)))),
            ('nothing feeds the input layer', z3.ForAll([a, o, e, i], z3.Implies(EDGE(a, o, e, i), e != inp)))]


def validation(rec):
    from brainstorm.structure import architecture as A
    FN = 'validate_architecture'
    items = [dict(kind='refuse')]

    def handle(kind, v):
        cs = conditions()
        if kind == 'exc':
            ob(rec, FN + ': a valid architecture is not refused', FN, z3.Not(z3.And(*[c for _, c in cs])), items=items)
            return
        for n, c in cs:
            ob(rec, FN + ': accepted only if ' + n, FN, c, items=items)
    with patch(A, collect_all_connections=collected_or_refused, is_valid_layer_name=lambda n: ZB(VALID(n.z))):
        paths(rec, FN, [FN], lambda: A.validate_architecture(architecture()), edges(), handle)


def names(rec):
    from brainstorm import utils
    from engine import strings
    FN = 'is_valid_layer_name'
    s = z3.Const('s', strings.S)
    letter = z3.Union(z3.Range('a', 'z'), z3.Range('A', 'Z'), z3.Re('_'))
    spec = z3.And(z3.InRe(s, z3.Concat(letter, z3.Star(z3.Union(letter, z3.Range('0', '9'))))), s != z3.StringVal('default'), s != z3.StringVal('fallback'))

    def handle(kind, v):
        if kind == 'exc':
            rec.add(FN + ': returns normally', FN, 'undecided', verify.rexc(v), failed=True, items=[dict(kind='refuse')])
            return
        ob(rec, FN + ': accepts exactly letters, digits and underscores after a letter or underscore, except reserved names', FN, sets.zb(v) == spec, items=[dict(kind='refuse')])
    with strings.patched(utils):
        paths(rec, FN, [FN], lambda: utils.is_valid_layer_name(strings.Str(s)), [], handle)


POS = z3.Function('position', I, I)
OUTP, SHAPE = None, None


class Path(Obj):
    """normalised path outputs.<name>"""


class Shape(Obj):
    """shape of an output: (layer, output)"""


class Inst(Obj):
    """the layer object made for a name"""

    def get_shape(self, path):
        return Shape(self.terms[0], path.terms[0])


class Class(Obj):
    def __call__(self, name, in_shapes, incoming, outgoing, **kw):
        MADE[-1].append((name, self, in_shapes, incoming, outgoing, kw['kwargs_of']))
        return Inst(name.z)


MADE = []


class Combined(Obj):
    """combination of a collection of shapes"""

    def subst(self, s):
        return Combined(self.terms[0].subst(s))


def canonical(arch=None):
    """contract of get_canonical_layer_order (proved above): every layer once, each after what feeds it, refused if there is a cycle"""
    x, y = const('x'), const('y')
    sets.assume(z3.ForAll([x, y], z3.Implies(z3.And(K(x), K(y), POS(x) == POS(y)), x == y)),
                z3.ForAll([x, y], z3.Implies(feeds_(x, y), z3.And(K(x), K(y), POS(x) < POS(y)))))
    return Bag('list', [Part([x], K(x), Name(x), POS(x))], True)


def instances(rec):
    from brainstorm.structure import architecture as A
    FN = 'instantiate_layers_from_architecture'
    items = [dict(kind='order'), dict(kind='execution')]

    def typed(t):
        if not isinstance(t, Type2) or not t.terms[1].eq(code('LayerImpl')):
            raise Unsupported('class name %r' % (t,))
        return Class(t.terms[0])

    def norm(*a):
        if len(a) != 2 or a[0] != 'outputs':
            raise Unsupported('path %r' % (a,))
        return Path(a[1].z)

    def run():
        MADE[:] = [Bag('list')]
        LOOPMAPS[:] = []
        return A.instantiate_layers_from_architecture(architecture()), MADE[-1]
    LOOPMAPS = []

    def od(*a):
        m = sets.call(dict, a, {})
        LOOPMAPS.append(m)
        return m

    def handle(kind, v):
        if kind == 'exc':
            rec.add(FN + ': returns normally for valid architectures', FN, 'undecided', verify.rexc(v), failed=not sets.NOTES, items=items)
            return
        layers, made = v
        x, y, a, o, e, i = [const(n) for n in 'xyaoei']
        ob(rec, FN + ': an object for every layer and nothing else', FN, z3.ForAll([x], layers.member(Name(x)) == K(x)), items=items)
        keys = sets.call(list, (layers,), {})
        ob(rec, FN + ': a layer comes after the layers that feed it', FN, z3.ForAll([x, y], z3.Implies(feeds_(x, y), sets.before(keys, Name(x), Name(y)))), items=items)
        rec.add(FN + ': the order follows from the content', FN, 'proved' if layers.canon else 'undecided', failed=not layers.canon, items=items)
        ob(rec, FN + ': each is made once', FN, sets.distinct_list(Bag('list', [Part(p.vars, p.cond, p.value[0]) for p in made.parts])), items=items)
        for n, p in enumerate(made.parts):
            p = p.fresh()
            name, cls, ins, inc, out, kw = p.value
            if not isinstance(name, Name):
                raise Unsupported('name of a layer object')
            tag = '' if len(made.parts) == 1 else ' [%d]' % n
            con = A.Connection(Name(a), Name(o), Name(e), Name(i))

            def q(label, f):
                ob(rec, FN + ': ' + label + tag, FN, z3.ForAll(p.vars, z3.Implies(p.cond, f)), items=items)
            q('its class is the one of its type', cls.terms[0] == name.z)
            q('its incoming connections', z3.ForAll([a, o, e, i], inc.member(con) == z3.And(EDGE(a, o, e, i), e == name.z)))
            q('its outgoing connections', z3.ForAll([a, o, e, i], out.member(con) == z3.And(EDGE(a, o, e, i), a == name.z)))
            q('its arguments', kw.terms[0] == name.z)
            q('an input for every name that is fed', z3.ForAll([i], ins.member(Name(i)) == z3.Exists([a, o], EDGE(a, o, name.z, i))))
            for r in ins.parts:
                r = r.fresh()
                k, val = r.value
                if not isinstance(val, Combined):
                    raise Unsupported('shape of an input')
                b = val.terms[0]
                ob(rec, FN + ': an input combines exactly the shapes of the outputs that feed it' + tag, FN, z3.ForAll(p.vars + r.vars, z3.Implies(z3.And(p.cond, r.cond),
                   z3.ForAll([a, o], b.member(Shape(a, o)) == EDGE(a, o, name.z, k.z)))), items=items)
                if b.kind == 'list':
                    ob(rec, FN + ': and each of them once' + tag, FN, z3.ForAll(p.vars + r.vars, z3.Implies(z3.And(p.cond, r.cond), sets.distinct_list(b))), items=items)
    sets.MAPINV[:] = [(lambda m: any(m is l for l in LOOPMAPS), lambda m, k: Inst(k.z))]
    with patch(A, collect_all_connections=collected, validate_architecture=lambda a: True, get_canonical_layer_order=canonical, get_layer_class_from_typename=typed,
               get_normalized_path=norm, combine_buffer_structures=lambda l: Combined(l), get_kwargs=lambda l: {'kwargs_of': l}, OrderedDict=od):
        paths(rec, FN, [FN], run, edges() + [c for n, c in conditions()], handle)


class Value(Obj):
    def __copy__(self):
        return Copied(*self.terms)

    def __deepcopy__(self, memo):
        return Copied(*self.terms)


class Copied(Obj):
    pass


def kwargs(rec):
    from brainstorm.structure import architecture as A
    FN = 'get_kwargs'
    HAS = z3.Function('has_argument', I, Bo)

    def handle(kind, v):
        if kind == 'exc':
            rec.add(FN + ': returns normally', FN, 'undecided', verify.rexc(v), failed=True)
            return
        k = const('k')
        ob(rec, FN + ': all entries but type and connections', FN, z3.ForAll([k], v.member(Name(k)) == z3.And(HAS(k), k != code('@type'), k != code('@outgoing_connections'))))
        for p in v.parts:
            p = p.fresh()
            rec.add(FN + ': values are copies', FN, 'proved' if isinstance(p.value[1], Copied) else 'undecided', failed=isinstance(p.value[1], Value))
            if isinstance(p.value[1], Obj):
                ob(rec, FN + ': of the value of that entry', FN, z3.ForAll(p.vars, z3.Implies(p.cond, p.value[1].terms[0] == p.value[0].z)))
    k = const('k')
    paths(rec, FN, [FN], lambda: A.get_kwargs(Bag('dict', [Part([k], HAS(k), (Name(k), Value(k)))], False)), [], handle)


# ------------------------------------------------------------------ running
class Buf(Obj):
    pass


class RunInst(Obj):
    def forward_pass(self, buffers, training_pass=True):
        CALLS[-1].append(('forward', Name(self.terms[0]), buffers, training_pass))

    def backward_pass(self, buffers):
        CALLS[-1].append(('backward', Name(self.terms[0]), buffers, None))


class Buffers(object):
    def __getitem__(self, k):
        if not isinstance(k, Name):
            raise Unsupported('buffer of %r' % (k,))
        return Buf(k.z)


class Manager(object):
    def __getattr__(self, n):
        def f(*a, **k):
            CALLS[-1].append(('manager', n, None, None))
        return f


CALLS = []


def running(rec):
    from brainstorm.structure.network import Network
    items = [dict(kind='execution')]
    inp = code('Input')
    for way in ('forward', 'backward'):
        FN = 'Network.%s_pass' % way

        def run():
            CALLS[:] = [Bag('list')]
            x = const('x')
            net = object.__new__(Network)
            ls = canonical()
            net.layers = Bag('dict', [Part([x], K(x), (Name(x), RunInst(x)), POS(x))], True)
            net.buffer, net._buffer_manager = Buffers(), Manager()
            net.apply_gradient_modifiers = lambda: CALLS[-1].append(('modifiers', '', None, None))
            if way == 'forward':
                net.forward_pass(training_pass='training')
            else:
                net.backward_pass()
            return CALLS[-1]

        def handle(kind, v):
            if kind == 'exc':
                rec.add(FN + ': returns normally', FN, 'undecided', verify.rexc(v), failed=True, items=items)
                return
            x, y = const('x'), const('y')
            mine = [p for p in v.parts if p.value[0] == way]
            other = [p for p in v.parts if p.value[0] not in ('manager', 'modifiers', way)]
            rec.add(FN + ': no other pass is run', FN, 'proved' if not other else 'undecided', failed=bool(other), items=items)
            t = Bag('list', [Part(p.vars, p.cond, p.value[1], p.pos, p.group) for p in mine])
            # the first layer of the order is Input (lemma below); its passes do nothing
            ob(rec, FN + ': every layer but the first (the input layer)', FN, z3.ForAll([x], z3.Implies(x != inp, t.member(Name(x)) == K(x))), items=items)
            ob(rec, FN + ': exactly once', FN, sets.distinct_list(t), items=items)
            for p in mine:
                p = p.fresh()
                ok = isinstance(p.value[2], Buf)
                rec.add(FN + ': with buffers', FN, 'proved' if ok else 'undecided', failed=not ok, items=items)
                if ok:
                    ob(rec, FN + ': with its own buffers', FN, z3.ForAll(p.vars, z3.Implies(p.cond, p.value[2].terms[0] == p.value[1].z)), items=items)
                if way == 'forward':
                    rec.add(FN + ': with the training flag', FN, 'proved' if p.value[3] == 'training' else 'undecided', failed=p.value[3] != 'training', items=items)
            b = sets.before
            rel = b(t, Name(x), Name(y)) if way == 'forward' else b(t, Name(y), Name(x))
            ob(rec, FN + (': a layer runs after the layers that feed it' if way == 'forward' else ': a layer runs after the layers it feeds'), FN, z3.ForAll([x, y], z3.Implies(z3.And(feeds_(x, y), x != inp, y != inp), rel)), items=items)
            rec.add(FN + ': in an order that follows from the content', FN, 'proved' if v.canon else 'undecided', failed=not v.canon, items=items)
            if way == 'backward':
                last = v.parts[-1].value[0]
                rec.add(FN + ': gradient modifiers run after all layers', FN, 'proved' if last == 'modifiers' and sum(p.value[0] == 'modifiers' for p in v.parts) == 1 else 'undecided', failed=last != 'modifiers', items=items)
        paths(rec, FN, [FN], run, first_facts(), handle)
    x, y, m = const('x'), const('y'), const('m')
    lemma(rec, 'the input layer is the first of the order', 'lemma', [K(inp), z3.ForAll([x], z3.Implies(z3.And(K(x), x != inp), z3.Exists([y], z3.And(K(y), POS(y) < POS(x))))), K(m), z3.ForAll([x], z3.Implies(K(x), POS(m) <= POS(x)))], m == inp)


def first_facts():
    """every layer but Input has a layer that feeds it (layers refuse missing inputs), so Input comes first"""
    inp = code('Input')
    x = const('x')
    return edges() + [K(inp), z3.ForAll([x], z3.Implies(z3.And(K(x), x != inp), POS(inp) < POS(x)))]


def tasks(tier):
    return [('connections', connections), ('order', order), ('validation', validation), ('names', names), ('instances', instances), ('kwargs', kwargs), ('running', running)]
