"""One-pass version of the loop rule for kernels (deep nests of loops over disjoint elements).

The body runs once at a generic iteration t from a generic state: every array it writes is replaced by an entry symbol,
every carried local number by an entry symbol, or - for integer induction variables whose increment is a constant of the
loop - by base + SUM_{s<t} increment, which is verified afterwards.  From the state after the body:
  rows   all writes hit coordinate t + off of one axis, and the new values read written arrays only at that coordinate:
         the iterations are independent, row t+off becomes the value, everything else keeps its content (frame);
  fold   new value = entry + G with G free of entry symbols: after the loop entry + SUM G;
  max    (locals) the running maximum with strict comparison and everything carried along with it: amv / amp of the list
         of items in iteration order;
  last   the new value is free of entry symbols: value of the last iteration, entry value when there was none.
Anything else is Unsupported (the caller falls back to the general rule)."""
from .poly import *
from .prover import *
from .rt import *
from . import rt, tensor, loops
from .tensor import HEAP, WRITES, memo
from itertools import count

ENABLED = [False]
FALLBACK = [False]     # go on with the general rule when this one does not apply
TOUCH = {}           # body code -> set of storage ids seen written
GUESS = {}           # (body code, local) -> increment
_n = count(1)
NUM = (int, float, S, Fraction)


def numeric(v):
    return isinstance(v, NUM) and not isinstance(v, bool)


def for_fast(it, body, names, get, put):
    lo, hi, step = it.lo, it.hi, it.step
    if step != 1:
        raise Unsupported('fast loop: step')
    if prove_int(lo - hi, 'lt') is False:
        return None
    code = body.__code__
    nonempty = prove_int(lo - hi, 'lt') is True
    k = next(_n)
    t = free_index(lo, hi)
    tb = list(t.free())[0]
    snap = loops.snapshot()
    nsnap = len(snap)
    base = get()
    old = {s: c for s, c in snap}
    byid = {s.id: s for s, _ in snap}

    def explore(setup):
        return loops.run_body(body, t, setup, get, put, nsnap)

    def written(outs):
        w = {}
        for _, r, _, _, writes in outs:
            if r is BREAK or isinstance(r, Ret):
                raise Unsupported('break/return in a symbolic loop')
            for st, fixed in writes:
                if st in old:
                    w.setdefault(st, []).append(fixed)
        return w
    if code not in TOUCH:
        # discovery: which arrays are written, which locals step by a constant
        def setup0():
            loops.restore(snap); put(base)
        g0, tensor.GUESSING[0] = tensor.GUESSING[0], True
        try:
            outs = explore(setup0)
        finally:
            tensor.GUESSING[0] = g0
        TOUCH[code] = {st.id for st in written(outs)}
        for i, n in enumerate(names):
            if numeric(base[i]) and P(base[i]).is_int():
                ds = {(P(loc[i]) - P(base[i])).key: P(loc[i]) - P(base[i]) for _, _, _, loc, _ in outs if numeric(loc[i])}
                if len(ds) == 1:
                    g, = ds.values()
                    if g.is_int() and not g.free() and not arrays_in(g):
                        GUESS[code, n] = g
    if tensor.GUESSING[0]:
        # part of a heuristic run of an outer loop: a state of roughly the right form
        loops.restore(snap)
        for i in TOUCH[code]:
            if i in byid:
                st = byid[i]
                st.content = (lambda nm: lambda coord: rd(nm, *coord))('%s#%d.some%d' % (st.name, st.id, k))
                WRITES.append((st, [None] * len(st.dims)))
        ls = list(base)
        for i, n in enumerate(names):
            if numeric(base[i]):
                g = GUESS.get((code, n))
                ls[i] = mk(P(base[i]) + g * (hi - lo)) if g is not None and P(base[i]).is_int() else base[i]
            elif base[i] is UNBOUND:
                ls[i] = S(sym('some.%s.%d' % (n, k)))
        put(tuple(ls))
        return None
    for attempt in range(6):
        touched = [byid[i] for i in TOUCH[code] if i in byid]
        ent = {st: '%s#%d.in%d' % (st.name, st.id, k) for st in touched}
        lsym, guess = {}, {}
        for i, n in enumerate(names):
            if not numeric(base[i]):
                continue
            g = GUESS.get((code, n))
            if g is not None and P(base[i]).is_int():
                guess[i] = g
            else:
                lsym[i] = 'local.%s.%d.%d' % (n, k, attempt)
                if P(base[i]).is_int() and not (code, n, 'real') in GUESS:
                    INT_ARRAYS.add(lsym[i])

        def setup():
            loops.restore(snap)
            for st in touched:
                st.content = (lambda nm: lambda coord: rd(nm, *coord))(ent[st])
            ls = list(base)
            for i in lsym:
                ls[i] = S(rd(lsym[i]))
            for i, g in guess.items():
                ls[i] = mk(P(base[i]) + g * (t - lo))
            put(tuple(ls))
        try:
            outs = explore(setup)
        finally:
            loops.restore(snap)
            put(base)
        w = written(outs)
        again = False
        for st in w:
            if st.id not in TOUCH[code]:
                TOUCH[code].add(st.id); again = True
        # locals
        lval = {}
        for i, n in enumerate(names):
            if not all(numeric(o[3][i]) for o in outs):
                if all(o[3][i] is base[i] for o in outs):
                    continue
                lval[i] = None
                continue
            lval[i] = loops.merged(outs, lambda cont, loc: P(loc[i]))
        for i, g in guess.items():
            if lval.get(i) is None or lval[i] != P(base[i]) + g * (t - lo) + g:
                del GUESS[code, names[i]]
                again = True
        for i in lsym:
            if lval.get(i) is not None and lsym[i] in INT_ARRAYS and not lval[i].is_int():
                GUESS[code, names[i], 'real'] = True
                again = True
        if not again:
            break
    else:
        raise Unsupported('fast loop: no stable guess')
    lsyms = set(lsym.values())
    entset = set(ent.values())

    # ---- locals after the loop
    newl = list(base)
    handled = set(guess)
    for i, g in guess.items():
        n_it = hi - lo if nonempty else rmax(hi - lo, ZERO)
        newl[i] = mk(P(base[i]) + g * n_it)
    pend = {}
    for i, v in lval.items():
        if i in handled:
            continue
        if v is None:
            newl[i] = Poison(names[i]); continue
        if arrays_in(v) & entset:
            newl[i] = Poison(names[i]); continue
        if i in lsym and v == rd(lsym[i]):
            newl[i] = base[i]
            continue
        if not (arrays_in(v) & lsyms):
            b = base[i]
            last = substitute(v, {tb: hi - 1})
            if nonempty:
                newl[i] = mk(last)
            elif numeric(b):
                newl[i] = mk(ite(lt0(lo - hi, True), last, P(b)))
            else:
                newl[i] = Poison(names[i])
            continue
        if i in lsym:
            g = v - rd(lsym[i])
            if not (arrays_in(g) & lsyms):
                b = fresh_b(); BRANGE[b] = (lo, hi)
                newl[i] = mk(P(base[i]) + sum_over(b, lo, hi, substitute(g, {tb: bvar(b)})))
                continue
        pend[i] = v
    if pend:
        running_max(pend, lsym, base, newl, tb, lo, hi, names)
        for i in pend:
            if newl[i] is base[i]:
                newl[i] = Poison(names[i])
    # ---- arrays after the loop
    params = {st: [fresh_b() for _ in st.dims] for st in touched}
    plan = {}
    for st in touched:
        if st in w:
            if st.ctx:
                raise Unsupported('fast loop: context rows')
            plan[st] = classify(st, w[st], t, tb, lsyms)
    val = {}
    for st in w:
        kind = plan[st]
        idx = []
        for ax, (b, d) in enumerate(zip(params[st], st.dims)):
            BRANGE[b] = (ZERO, d)
            idx.append(bvar(b))
        if kind[0] == 'rows':
            idx[kind[1]] = t + kind[2]
        v = loops.merged(outs, lambda cont, loc: cont[st](tuple(idx)))
        if arrays_in(v) & lsyms:
            raise Unsupported('fast loop: value of %s depends on a carried local' % st.name)
        val[st] = kron(v, set(params[st]))
    # reads of entry symbols in the values
    folds = {}
    for st in w:
        if plan[st][0] == 'rows':
            continue
        g = kron(val[st] - rd(ent[st], *[bvar(b) for b in params[st]]), set(params[st]))
        if not (arrays_in(g) & {ent[st]}):
            folds[st] = g
        elif not (arrays_in(val[st]) & {ent[st]}):
            folds[st] = None
        else:
            raise Unsupported('fast loop: %s is neither written by rows nor accumulated' % st.name)

    def partial(st, coord, upto):
        b = fresh_b(); BRANGE[b] = (lo, hi)
        g = substitute(folds[st], dict(zip(params[st], coord)))
        return sum_over(b, lo, upto, substitute(g, {tb: bvar(b)}))

    def resolve(st, v):
        """entry symbols in terms of the state before the loop"""
        def of(other):
            def f(*coord):
                if other not in w:
                    return old[other](tuple(coord))
                if plan[other][0] == 'rows':
                    d = coord[plan[other][1]] - t - plan[other][2]
                    if d.terms:
                        raise Unsupported('fast loop: %s is read at another row' % other.name)
                    return old[other](tuple(coord))
                if folds[other] is None:
                    raise Unsupported('fast loop: %s is carried' % other.name)
                return old[other](tuple(coord)) + resolve(other, partial(other, coord, t))
            return f
        return replace_reads(v, {ent[o]: of(o) for o in touched}) if arrays_in(v) & entset else v
    order = [st for st in w if st in folds and folds[st] is not None]
    for st in order:
        if arrays_in(folds[st]) & {ent[o] for o in order}:
            raise Unsupported('fast loop: accumulations depend on each other')
        folds[st] = resolve(st, folds[st])
    final = {}
    for st in w:
        if st in folds and folds[st] is not None:
            final[st] = (lambda st: memo(lambda coord: old[st](tuple(coord)) + partial(st, coord, hi)))(st)
            continue
        if st in folds:
            if not nonempty:
                raise Unsupported('fast loop: last value of a possibly empty loop')
            v = resolve(st, val[st])
            v = substitute(v, {tb: hi - 1})
            final[st] = (lambda st, v: memo(lambda coord: substitute(v, dict(zip(params[st], coord)))))(st, v)
            continue
        _, ax, off = plan[st]
        v = resolve(st, val[st])
        final[st] = rowwise(st, ax, off, v, params[st], tb, lo, hi, old[st])
    for st, c in final.items():
        st.content = c
        logged = set()
        for fx in w[st]:
            fx = [None if p is None or tb in p.free() or arrays_in(p) & lsyms else p for p in fx]
            key = tuple(None if p is None else p.key for p in fx)
            if key not in logged:
                logged.add(key)
                WRITES.append((st, fx))
    put(tuple(newl))
    return None


def rowwise(st, ax, off, v, params, tb, lo, hi, old):
    def content(coord):
        r = coord[ax] - off
        g = (1 - lt0(r - lo, True)) * lt0(r - hi, True)
        sub = dict(zip(params, coord))
        del sub[params[ax]]
        sub[tb] = r
        if g == ONE:
            return substitute(v, sub)
        if not g.terms:
            return old(tuple(coord))
        facts = [(lo - r, 'le'), (r - hi, 'lt')]
        inside = loops.scope_facts(facts, lambda: substitute(v, sub))
        return g * inside + (1 - g) * old(tuple(coord))
    return memo(content)


def kron(p, params):
    """[b = e] * f(b) = [b = e] * f(e) for the coordinates b of an array"""
    out = ZERO
    for m, c in p.terms.items():
        eqs = [a for a, e in m.atoms if a.kind == 'eq' and a.free() & params]
        if not eqs:
            out = out + Poly({m: c}); continue
        bs = {s[0] for s in m.sums}
        keep, rest, sub = ONE, [], {}
        for a, e in m.atoms:
            if a.kind == 'eq' and not (a.free() & bs) and a.args[0].is_int():
                b = next((b for b in sorted(a.free() & params) if b not in sub), None)
                l = lin(a.args[0], b) if b is not None else None
                if l is not None and abs(l[0]) == 1 and not (l[1].free() & set(sub)):
                    sub[b] = l[1] * (-1 / l[0])
                    keep = keep * atom(a)
                    continue
            rest.append((a, e))
        if not sub:
            out = out + Poly({m: c}); continue
        for b in sub:
            sub[b] = substitute(sub[b], {x: y for x, y in sub.items() if x != b})
        out = out + keep * substitute(Poly({Mono(m.sums, tuple(rest)): c}), sub)
    return out


def lin(p, b):
    from .poly import _lin_in
    return _lin_in(p, b)


def classify(st, fixeds, t, tb, lsyms):
    best = None
    for ax in range(len(st.dims)):
        off = None
        for fx in fixeds:
            p = fx[ax]
            if p is None:
                break
            d = p - t
            if tb in d.free() or arrays_in(d) & lsyms:
                break
            if off is not None and off != d:
                break
            off = d
        else:
            if off is not None and (best is None or not off.terms):
                best = ('rows', ax, off)
    return best or ('other',)


def running_max(pend, lsym, base, newl, tb, lo, hi, names):
    """locals updated together when a new value exceeds the running maximum"""
    inv = {lsym[i]: i for i in pend if i in lsym}
    if len(inv) != len(pend):
        return
    # which local is compared?  the comparison of a new value with it splits into three regions
    cand = None
    for i, v in pend.items():
        me = rd(lsym[i])
        for br in free_brackets(v):
            if lsym[i] not in arrays_in(br.args[0]):
                continue
            s = br.args[0]
            regs = regions(s)
            for sign in (1, -1):
                new = me - s * sign          # s*sign = me - new
                if arrays_in(new) & set(inv):
                    continue
                gt, eq, lt = [regs[r] for r in ('lt', 'eq', 'gt')] if sign == 1 else [regs[r] for r in ('gt', 'eq', 'lt')]
                # gt: new exceeds the running value
                if gt(v) == new and lt(v) == me and eq(v) in (me, new):
                    cand = (i, gt, eq, lt, new)
    lst = None
    if cand is None:
        # nested: value = amv(own symbol, LIST)
        for i, v in pend.items():
            a = single(v)
            if a is not None and a.kind == 'f' and a.args[0] == 'amv' and a.args[1][0] == rd(lsym[i]):
                lst = (i, a.args[1][1])
        if lst is None:
            return
        top, items = lst
        chan = {}
        for i, v in pend.items():
            if i == top:
                continue
            a = single(v)
            if a is None or a.kind != 'f' or not a.args[0].startswith('amp') or a.args[1][1] != rd(lsym[i]) or a.args[1][0] != rd(lsym[top]):
                return
            if a.args[1][2] != items:
                return
            chan[i] = a.args[0]
        whole = big_list(items, tb, lo, hi)
    else:
        top, gt, eq, lt, new = cand
        others = sorted((i for i in pend if i != top), key=lambda i: names[i])
        pays = []
        for i in others:
            e = gt(pend[i])
            # only the strict comparison (first maximum) is summarised
            if arrays_in(e) & set(inv) or eq(pend[i]) != rd(lsym[i]) or lt(pend[i]) != rd(lsym[i]):
                return
            pays.append(e)
        whole = big_list(func('item', new, *pays), tb, lo, hi)
        chan = {i: 'amp%d' % q for q, i in enumerate(others)}
    if arrays_in(whole) & set(inv):
        return
    newl[top] = mk(func('amv', P(base[top]), whole))
    for i, nm in chan.items():
        INT_FUNCS.add(nm)
        newl[i] = mk(func(nm, P(base[top]), P(base[i]), whole))


def regions(s):
    """p restricted to s < 0, s = 0, s > 0"""
    l, e = Atom('lt', s), Atom('eq', s)

    def fix(lv_, ev_):
        def f(p):
            def g(a):
                if a.kind in ('lt', 'eq') and a.args[0] == s:
                    return P(lv_ if a.kind == 'lt' else ev_)
                return None
            return map_atoms(p, g)
        return f
    return dict(lt=fix(1, 0), eq=fix(0, 1), gt=fix(0, 0))


def big_list(items, tb, lo, hi):
    b = fresh_b(); BRANGE[b] = (lo, hi)
    return _big('LIST', lo, hi, b, substitute(items, {tb: bvar(b)}))


def _big(op, lo, hi, b, body):
    nb = max(lv(body), lv(lo), lv(hi)) + 1
    return atom(Atom('g', op, lo, hi, nb, substitute(body, {b: bvar(nb)})))


def single(p):
    if len(p.terms) == 1:
        (m, c), = p.terms.items()
        if c == 1 and not m.sums and len(m.atoms) == 1 and m.atoms[0][1] == 1:
            return m.atoms[0][0]
    return None


def spec_list(ranges, item):
    """LIST over nested ranges [(lo, hi)] or functions of the outer indices; item(idx) -> (value, payload...)"""
    def go(k, idx):
        if k == len(ranges):
            return func('item', *item(idx))
        lo, hi = ranges[k]
        b = fresh_b(); BRANGE[b] = (P(lo), P(hi))
        return _big('LIST', P(lo), P(hi), b, go(k + 1, idx + [bvar(b)]))
    return go(0, [])
