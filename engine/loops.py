"""The loop rule.

`for t in range(lo, hi)` with symbolic bounds is executed once at a generic t.  For every array written by the body the
invariant is inferred from where the body writes, and the body is then run again from that invariant:

  rows      all writes go to rows t+o with o in {o} or {o, o+1}.  Rows already finished are FINAL(row), the row
            touched by the previous iteration is MID(row), rows not reached yet are unchanged.  After the body the
            touched rows give the defining equations of MID and FINAL; frame: no other row is written.
  fold      the array (or local number) after the body is entry + G(t) with G free of the entry value: its value at
            iteration t is OLD + SUM_{s<t} G(s).
  scratch   the value after the body does not depend on its value at entry: afterwards it is the value of the last
            iteration.
FINAL and MID are array symbols with a recorded definition (DEFS); when the defining expression mentions no symbol of
the same loop it is substituted at once."""
from .poly import *
from .prover import *
from .rt import *
from . import rt, tensor
from .tensor import HEAP, WRITES, View, memo

DEFS = {}        # symbol -> Def
_n = count(1)


class Def(object):
    def __init__(self, name, label, params, expr, guard_lo, guard_hi, axis):
        self.name, self.label, self.params, self.expr = name, label, params, expr
        self.lo, self.hi, self.axis = guard_lo, guard_hi, axis

    def instance(self, idx):
        return substitute(self.expr, dict(zip(self.params, [P(i) for i in idx])))


def reset():
    DEFS.clear()


def snapshot():
    return [(s, s.content) for s in HEAP]


def restore(snap):
    del HEAP[len(snap):]
    for s, c in snap:
        s.content = c


def scope_facts(facts, f):
    if facts:
        Ctx.cur.push(*facts)
        try:
            return f()
        finally:
            Ctx.cur.pop()
    return f()


INDEX = []       # indices of the loop bodies being executed, and a counter for ghost draws in them


def run_body(body, tvar, setup, get, put, nsnap):
    """explore the body from the state made by setup(); returns list of (guards, contents{storage}, locals, writes)"""
    outs = []

    def one():
        setup()
        mark = len(WRITES)
        INDEX.append([P(tvar), 0])
        try:
            r = body(mk(tvar))
        finally:
            INDEX.pop()
        w = WRITES[mark:]
        del WRITES[mark:]
        cont = {s: s.content for s in HEAP[:nsnap]}
        return r, cont, get(), w
    ex = Explorer(limit=64)
    for guards, (kind, res) in ex.run(one):
        if kind == 'exc':
            raise LoopException(res, guards)
        outs.append((guards,) + res)
    return outs


class LoopException(Exception):
    def __init__(self, exc, guards):
        Exception.__init__(self, '%s: %s' % (type(exc).__name__, exc))
        self.exc, self.guards = exc, guards


def merged(outs, fn):
    """SUM over paths of guard * value, evaluated under the path's facts"""
    r = ZERO
    for guards, _, cont, loc, w in outs:
        g = guard_poly(guards)
        if not g.terms:
            continue
        v = scope_facts(guard_facts(guards), lambda: fn(cont, loc))
        r = r + g * v
    return r


def for_symbolic(it, body, names, get, put):
    if isinstance(it, SymStepRange):
        raise Unsupported('stepped symbolic range')
    from . import fastloop
    if fastloop.ENABLED[0]:
        snap = snapshot()
        base_locals = get()
        mark = len(WRITES)
        try:
            return fastloop.for_fast(it, body, names, get, put)
        except Unsupported as e:
            if not fastloop.FALLBACK[0]:
                raise
            restore(snap); put(base_locals); del WRITES[mark:]
    from . import seq
    if isinstance(it, SymRange):
        lo, hi, step, elem = it.lo, it.hi, it.step, mk
    else:
        lo, hi, elem = seq.as_range(it)
        step = 1
        body0 = body
        body = lambda x: body0(elem(P(x)))
    ctx = Ctx.cur
    ne = prove_int(lo - hi, 'lt')
    if ne is False:
        return None                 # empty range
    if ne is None:
        if not decide(lt0(lo - hi, True)):
            return None
    k = next(_n)
    t = free_index(lo, hi)
    tb = list(t.free())[0]
    snap = snapshot()
    nsnap = len(snap)
    base_locals = get()
    old = {s: c for s, c in snap}

    # ---- probe
    def setup0():
        restore(snap); put(base_locals)
    outs = run_body(body, t, setup0, get, put, nsnap)
    if any(r is BREAK or isinstance(r, Ret) for _, r, _, _, _ in outs):
        restore(snap); put(base_locals)
        from . import seq
        return seq.search(it, body, names, get, put, outs, t, base_locals)
    touched = []
    offs = {}
    for guards, r, cont, loc, writes in outs:
        for st, fixed in writes:
            if st not in old:
                continue
            if st not in touched:
                touched.append(st)
            offs.setdefault(st, []).append(fixed)
    plan = {}
    for st in touched:
        plan[st] = classify(st, offs[st], t, tb)

    # ---- entry state
    syms = {}
    params = {st: [fresh_b() for _ in st.dims] for st in touched}
    for st in touched:
        if plan[st][0] == 'rows':
            _, ax, omin, omax = plan[st]
            nm = '%s#%d' % (st.name, st.id)
            fin = '%s.final%d' % (nm, k)
            mid = '%s.mid%d' % (nm, k) if omax > omin else None
            syms[st] = (fin, mid)
        else:
            syms[st] = ('%s#%d.entry%d' % (st.name, st.id, k), None)
    first = lambda omin, omax: omax if step > 0 else omin
    last = lambda omin, omax: omin if step > 0 else omax

    def total(st, which, coord):
        """FINAL / MID as a total function of the row: outside the touched rows it is OLD (FINAL falls back to MID)"""
        _, ax, omin, omax = plan[st]
        fin, mid = syms[st]
        c = coord[ax]
        o = last(omin, omax) if which == 'fin' else first(omin, omax)
        g = (1 - lt0(c - lo - o, True)) * lt0(c - hi - o, True)
        inside = rd(fin if which == 'fin' else mid, *coord)
        if g == ONE:
            return inside
        if which == 'fin' and mid is not None:
            out = total(st, 'mid', coord)
        else:
            out = old[st](tuple(coord))
        return g * inside + (1 - g) * out

    def entry(st):
        _, ax, omin, omax = plan[st]
        def content(coord):
            c = coord[ax]
            if step > 0:
                # rows < t+omin final; t+omin..t+omax-1 mid; >= t+omax old
                isfin = lt0(c - t - omin, True)
                ismid = (1 - isfin) * lt0(c - t - omax, True)
            else:
                isfin = lt0(t + omax - c, True)
                ismid = (1 - isfin) * lt0(t + omin - c, True)
            isold = 1 - isfin - ismid
            r = ZERO
            if isfin.terms:
                r = r + isfin * _under(isfin, lambda: total(st, 'fin', coord))
            if ismid.terms and omax > omin:
                r = r + ismid * _under(ismid, lambda: total(st, 'mid', coord))
            if isold.terms:
                r = r + isold * _under(isold, lambda: old[st](tuple(coord)))
            return r
        return memo(content)

    folds = {}       # storage -> G(params, t) for fold entries (second pass)

    def fold_entry(st):
        nm = syms[st][0]
        if st in folds:
            G = folds[st]

            def content(coord):
                return old[st](tuple(coord)) + partial(G, coord, st)
            return memo(content)
        return lambda coord: rd(nm, *coord)

    def partial(G, coord, st, upto=None):
        sub = dict(zip(params[st], coord))
        b = fresh_b()
        BRANGE[b] = (lo, hi)
        g = substitute(G, dict(sub))
        g = substitute(g, {tb: bvar(b)})
        if upto == 'all':
            return sum_over(b, lo, hi, g)
        return sum_over(b, lo, t, g) if step > 0 else sum_over(b, t + 1, hi, g)

    # locals: numbers assigned in the body and defined before it are carried
    carried = [i for i, n in enumerate(names) if isinstance(base_locals[i], (int, float, S, Fraction)) and not isinstance(base_locals[i], bool)
               and any(not _same(loc[i], base_locals[i]) for _, _, _, loc, _ in outs)]
    lsym = {i: 'local.%s%d' % (names[i], k) for i in carried}
    lfold = {}
    for i in carried:
        if all(isinstance(loc[i], (int, S)) and P(loc[i]).is_int() for _, _, _, loc, _ in outs) and P(base_locals[i]).is_int():
            INT_ARRAYS.add(lsym[i])

    def lentry(i):
        if i in lfold:
            G = lfold[i]
            b = fresh_b(); BRANGE[b] = (lo, hi)
            g = substitute(G, {tb: bvar(b)})
            return mk(P(base_locals[i]) + (sum_over(b, lo, t, g) if step > 0 else sum_over(b, t + 1, hi, g)))
        return S(rd(lsym[i]))

    def setup1():
        restore(snap)
        for st in touched:
            st.content = entry(st) if plan[st][0] == 'rows' else fold_entry(st)
        ls = list(base_locals)
        for i in carried:
            ls[i] = lentry(i)
        put(tuple(ls))

    others = [st for st in touched if plan[st][0] != 'rows']
    for rounds in range(4):
        outs = run_body(body, t, setup1, get, put, nsnap)
        for _, _, _, _, writes in outs:
            for st, fixed in writes:
                if st in old and st not in touched:
                    raise Unsupported('second pass wrote another array')
        # what do the non-row arrays look like?
        again = False
        kinds = {}
        entry_syms = {syms[s][0] for s in others if s not in folds} | {lsym[i] for i in carried if i not in lfold}
        for st in others:
            if st in folds:
                continue
            idx = [bvar(b) for b in params[st]]
            for b, d in zip(params[st], st.dims):
                BRANGE[b] = (ZERO, d) if not st.ctx else (P(-1), d - 1)
            v = merged(outs, lambda cont, loc: cont[st](tuple(idx)))
            used = arrays_in(v) & entry_syms
            if not used:
                kinds[st] = ('scratch', v)
                continue
            G = v - rd(syms[st][0], *idx)
            if not (arrays_in(G) & entry_syms):
                folds[st] = G
                again = True
            else:
                kinds[st] = ('opaque', v)
        for i in carried:
            if i in lfold:
                continue
            v = merged(outs, lambda cont, loc: P(loc[i]))
            used = arrays_in(v) & entry_syms
            if not used:
                kinds[i] = ('scratch', v)
                continue
            G = v - rd(lsym[i])
            if not (arrays_in(G) & entry_syms):
                lfold[i] = G
                again = True
            else:
                kinds[i] = ('opaque', v)
        if not again:
            break
    leak_all = {syms[s][0] for s in others} | {lsym[i] for i in carried}
    # values of scratch symbols must not leak into anything kept
    leak = {syms[s][0] for s in others if s not in folds} | {lsym[i] for i in carried if i not in lfold}
    for key, (kd, v) in kinds.items():
        if kd == 'opaque':
            r = special_fold(key, v, names, base_locals, lsym, kinds, t, lo, hi, step)
            kinds[key] = ('special', r) if r is not None else ('unknown', v)
    # ---- defining equations of the rows
    eqs = {}
    loop_syms = {x for st in touched if plan[st][0] == 'rows' for x in syms[st] if x}
    for st in touched:
        if plan[st][0] != 'rows':
            continue
        _, ax, omin, omax = plan[st]
        fin, mid = syms[st]
        for sname, o in ([(fin, last(omin, omax))] + ([(mid, first(omin, omax))] if mid else [])):
            ps = params[st]
            for b, d in zip(ps, st.dims):
                BRANGE[b] = (ZERO, d)
            idx = [bvar(b) for b in ps]
            idx[ax] = t + o
            v = merged(outs, lambda cont, loc: cont[st](tuple(idx)))
            if arrays_in(v) & leak:
                restore(snap)
                raise Unsupported('row value of %s depends on scratch state' % st.name)
            BRANGE[ps[ax]] = (lo + o, hi + o)
            v = substitute(v, {tb: bvar(ps[ax]) - o})
            eqs[sname] = Def(sname, st.name, list(ps), v, lo + o, hi + o, ax)
    # inline what is not recursive
    inl = {}
    changed = True
    while changed:
        changed = False
        for sname in list(eqs):
            if sname in inl:
                continue
            if not (arrays_in(eqs[sname].expr) & (loop_syms - set())):
                inl[sname] = eqs[sname]
                changed = True
        if changed:
            for sname in eqs:
                if sname not in inl or True:
                    e = eqs[sname]
                    if arrays_in(e.expr) & set(inl):
                        e.expr = replace_reads(e.expr, {n: (lambda *i, d=inl[n]: d.instance(i)) for n in inl})
    for sname, d in eqs.items():
        if sname not in inl:
            DEFS[sname] = d

    # ---- state after the loop
    restore(snap)
    fixup = {n: (lambda *i, d=inl[n]: d.instance(i)) for n in inl}

    def after(st):
        if plan[st][0] == 'rows':
            def content(coord):
                v = total(st, 'fin', coord)
                return replace_reads(v, fixup) if arrays_in(v) & set(inl) else v
            return memo(content)
        if st in folds:
            G = folds[st]
            G2 = replace_reads(G, fixup) if arrays_in(G) & set(inl) else G
            return memo(lambda coord: old[st](tuple(coord)) + partial(G2, coord, st, 'all'))
        kd, v = kinds[st]
        if kd == 'special':
            return v
        if kd == 'unknown' or arrays_in(v) & leak:
            def lost(coord):
                raise Unsupported('the value of %s after the loop is not summarised: %s' % (st.name, show(v, 200)))
            return lost
        v = replace_reads(v, fixup) if arrays_in(v) & set(inl) else v
        lastt = hi - 1 if step > 0 else lo
        v = substitute(v, {tb: lastt})
        return memo(lambda coord: substitute(v, dict(zip(params[st], coord))))
    newc = {st: after(st) for st in touched}
    for st in touched:
        st.content = newc[st]
        logged = set()
        for fx in offs[st]:
            fx = [None if p is None or tb in p.free() or arrays_in(p) & leak_all else p for p in fx]
            key = tuple(None if p is None else p.key for p in fx)
            if key not in logged:
                logged.add(key)
                WRITES.append((st, fx))
    ls = list(base_locals)
    final_loc = outs[-1][3]
    for i, n in enumerate(names):
        if i in carried:
            if i in lfold:
                b = fresh_b(); BRANGE[b] = (lo, hi)
                ls[i] = mk(P(base_locals[i]) + sum_over(b, lo, hi, substitute(replace_reads(lfold[i], fixup), {tb: bvar(b)})))
            else:
                kd, v = kinds[i]
                if kd == 'special':
                    ls[i] = v
                elif kd == 'unknown' or arrays_in(v) & leak:
                    ls[i] = Poison(n)
                else:
                    ls[i] = mk(substitute(replace_reads(v, fixup), {tb: hi - 1 if step > 0 else lo}))
        elif base_locals[i] is UNBOUND or not all(_same(loc[i], base_locals[i]) for _, _, _, loc, _ in outs):
            v = final_loc[i]
            if isinstance(v, (int, float, S)) and len(outs) == 1:
                p = P(v)
                if not (arrays_in(p) & leak):
                    ls[i] = mk(substitute(replace_reads(p, fixup), {tb: hi - 1 if step > 0 else lo}))
                    continue
            ls[i] = Poison(n)
    put(tuple(ls))
    return None


def special_fold(key, v, names, base_locals, lsym, kinds, t, lo, hi, step):
    return None


def _same(a, b):
    if a is b:
        return True
    if isinstance(a, (int, float, S)) and isinstance(b, (int, float, S)):
        return P(a) == P(b)
    return False


def _under(g, f):
    fs = tensor._bracket_facts(g)
    return scope_facts(fs, f)


def classify(st, fixeds, t, tb):
    """where does the body write this array?"""
    for ax in range(len(st.dims)):
        os_ = []
        for fx in fixeds:
            p = fx[ax]
            if p is None:
                break
            d = p - t
            if not d.is_const() or d.const().denominator != 1:
                break
            os_.append(int(d.const()))
        else:
            omin, omax = min(os_), max(os_)
            if omax - omin <= 1:
                return ('rows', ax, omin, omax)
    return ('other',)
