"""Strings of any length (z3 sequences) and regular expressions translated from their parse tree."""
import re
import z3
try:
    from re import _parser as sre_parse, _constants as C
except ImportError:
    import sre_parse, sre_constants as C
from .poly import Unsupported
from .sets import Num, ZB, num

S = z3.StringSort()
ALL = z3.Full(z3.ReSort(S))
ANY = z3.AllChar(z3.ReSort(S))


def lit(s):
    return z3.Re(z3.StringVal(s))


def union(rs):
    rs = list(rs)
    return rs[0] if len(rs) == 1 else z3.Union(*rs)


def concat(rs):
    rs = list(rs)
    return lit('') if not rs else rs[0] if len(rs) == 1 else z3.Concat(*rs)


def chars(c):
    return z3.StringVal(chr(c)) if c < 128 else z3.Unit(z3.CharVal(c))


def one(op, arg, flags):
    if op is C.LITERAL:
        return z3.Re(chars(arg))
    if op is C.NOT_LITERAL:
        return z3.Intersect(ANY, z3.Complement(z3.Re(chars(arg))))
    if op is C.ANY:
        return z3.Intersect(ANY, z3.Complement(lit('\n')))
    if op is C.IN:
        neg, rs = False, []
        for o, a in arg:
            if o is C.NEGATE:
                neg = True
            elif o is C.LITERAL:
                rs.append(z3.Re(chars(a)))
            elif o is C.RANGE:
                rs.append(z3.Range(chars(a[0]), chars(a[1])))
            else:
                raise Unsupported('character class %s' % o)       # \w etc. depend on the unicode tables
        r = union(rs)
        return z3.Intersect(ANY, z3.Complement(r)) if neg else r
    if op in (C.MAX_REPEAT, C.MIN_REPEAT):
        lo, hi, sub = arg
        r = seq(sub, flags)
        if hi is C.MAXREPEAT:
            return z3.Star(r) if lo == 0 else z3.Plus(r) if lo == 1 else z3.Concat(z3.Loop(r, lo, lo), z3.Star(r))
        return z3.Loop(r, lo, hi)
    if op is C.SUBPATTERN:
        return seq(arg[-1], flags)
    if op is C.BRANCH:
        return union(seq(b, flags) for b in arg[1])
    raise Unsupported('regular expression element %s' % op)


def seq(items, flags):
    return concat(one(o, a, flags) for o, a in items)


def language(pattern, flags, mode):
    """z3 regular expression of the strings on which the pattern matches (mode: match, fullmatch, search)"""
    if flags & (re.I | re.M | re.S | re.X):
        raise Unsupported('flags of a regular expression')
    items = list(sre_parse.parse(pattern, flags))
    head, tail = mode != 'search', None
    while items and items[0][0] is C.AT and items[0][1] in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
        items.pop(0); head = True
    while items and items[-1][0] is C.AT:
        k = items.pop()[1]
        if k is C.AT_END_STRING:
            tail = 'exact'
        elif k is C.AT_END and tail is None:
            tail = 'line'
        elif k is not C.AT_END:
            raise Unsupported('anchor')
    if mode == 'fullmatch':
        tail = 'exact'
    body = [] if head else [ALL]
    body.append(seq(items, flags))
    if tail is None:
        body.append(ALL)
    elif tail == 'line':
        body.append(z3.Option(lit('\n')))
    return concat(body)


class Str(object):
    def __init__(self, z):
        self.z = z

    def __eq__(self, o):
        return ZB(self.z == (o.z if isinstance(o, Str) else z3.StringVal(o))) if isinstance(o, (str, Str)) else False

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, ZB) else not r

    def __hash__(self):
        raise Unsupported('hash of an unknown string')

    def __bool__(self):
        return bool(ZB(z3.Length(self.z) > 0))

    def __ghost_isinstance__(self, c):
        return str in (c if isinstance(c, tuple) else (c,))

    def __symin__(self, c):
        if isinstance(c, (set, frozenset, list, tuple, dict)):
            return ZB(z3.Or(*[self.z == z3.StringVal(x) for x in c if isinstance(x, str)]))
        raise Unsupported('membership of an unknown string')

    def __getattr__(self, n):
        if n[:2] == '__':
            raise AttributeError(n)
        raise Unsupported('%s of an unknown string' % n)

    def endswith(self, t):
        return ZB(z3.Or(*[z3.SuffixOf(z3.StringVal(x), self.z) for x in (t if isinstance(t, tuple) else (t,))]))

    def startswith(self, t):
        return ZB(z3.Or(*[z3.PrefixOf(z3.StringVal(x), self.z) for x in (t if isinstance(t, tuple) else (t,))]))

    def __symlen__(self):
        return Num(z3.Length(self.z))

    def __getitem__(self, k):
        if not isinstance(k, slice) or k.step not in (None, 1) or not all(x is None or isinstance(x, (int, Num)) for x in (k.start, k.stop)):
            raise Unsupported('part of an unknown string')
        n = z3.Length(self.z)
        cut = lambda z: z3.If(z < 0, z3.If(n + z < 0, 0, n + z), z3.If(z > n, n, z))
        a, b = cut(num(k.start or 0)), n if k.stop is None else cut(num(k.stop))
        return Str(z3.SubString(self.z, a, z3.If(b < a, 0, b - a)))

    def __add__(self, o):
        return Str(z3.Concat(self.z, o.z if isinstance(o, Str) else z3.StringVal(o))) if isinstance(o, (str, Str)) else NotImplemented

    def __radd__(self, o):
        return Str(z3.Concat(z3.StringVal(o), self.z)) if isinstance(o, str) else NotImplemented

    def __str__(self):
        return 'string'

    def __format__(self, f):
        return 'string'


class Pattern(object):
    def __init__(self, p):
        self.p = p

    def _go(self, s, mode):
        if not isinstance(s, Str):
            return getattr(self.p, mode)(s)
        return object() if ZB(z3.InRe(s.z, language(self.p.pattern, self.p.flags & ~re.U, mode))) else None

    def match(self, s):
        return self._go(s, 'match')

    def fullmatch(self, s):
        return self._go(s, 'fullmatch')

    def search(self, s):
        return self._go(s, 'search')


class Re(object):
    def __getattr__(self, n):
        return getattr(re, n)

    def compile(self, p, flags=0):
        return Pattern(re.compile(p, flags))

    def match(self, p, s, flags=0):
        return self.compile(p, flags).match(s)

    def fullmatch(self, p, s, flags=0):
        return self.compile(p, flags).fullmatch(s)

    def search(self, p, s, flags=0):
        return self.compile(p, flags).search(s)


class patched(object):
    """the regular expressions of a module understand unknown strings"""

    def __init__(self, module):
        self.m = module

    def __enter__(self):
        self.old = {}
        for k, v in list(self.m.__dict__.items()):
            if isinstance(v, re.Pattern):
                self.old[k] = v
                self.m.__dict__[k] = Pattern(v)
            elif v is re:
                self.old[k] = v
                self.m.__dict__[k] = Re()

    def __exit__(self, *a):
        self.m.__dict__.update(self.old)
