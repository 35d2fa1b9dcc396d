"""Obligations for one layer specification: forward contract (C02) and backward = adjoint of that contract (C01)."""
from .poly import *
from .prover import *
from .rt import *
from . import loops, layers, handler, prover
from .layers import Case, BACK
from .tensor import View


def case_of(sp):
    return Case(sp.cls, sp.in_shapes, sp.kwargs, sp.facts, sp.ints, 'l')


def memo_eq(f):
    return f


def unfold_now(p, nodes, row=None, rounds=30):
    """replace reads of nodes (at time `row` if given) by their equations until none is left"""
    for _ in range(rounds):
        hit = [False]

        def f(a):
            if a.kind != 'r' or a.args[0] not in nodes:
                return None
            if row is not None and (a.args[1][0] - row) != ZERO:
                return None
            hit[0] = True
            return nodes[a.args[0]](list(a.args[1]))
        p = map_atoms(p, f)
        if not hit[0]:
            return p
    raise Unsupported('equations do not terminate')


class Run(object):
    """result of one path: contents after the pass, recursion symbols"""

    def __init__(self, case, cont, defs):
        self.case, self.cont, self.defs = case, cont, defs
        self.label = {n: d.label for n, d in defs.items()}

    def at(self, name, idx):
        return self.cont[name](tuple(idx))

    def expand(self, p, row):
        """one unfolding of every recursion symbol at time `row`"""
        def f(a):
            if a.kind == 'r' and a.args[0] in self.defs:
                d = self.defs[a.args[0]]
                if (a.args[1][d.axis] - row) == ZERO:
                    return d.instance(a.args[1])
            return None
        return map_atoms(p, f)

    def order(self):
        """symbols of the same row, those that depend on others first; and the direction of the recursion"""
        deps, sgn = {}, 0
        for n, d in self.defs.items():
            deps[n] = set()
            row = bvar(d.params[d.axis])

            def f(a):
                nonlocal sgn
                if a.kind == 'r' and a.args[0] in self.defs:
                    o = a.args[1][self.defs[a.args[0]].axis] - row
                    if o == ZERO:
                        deps[n].add(a.args[0])
                    elif o.is_const():
                        sgn = 1 if o.const() > 0 else -1
                return None
            map_atoms(d.expr, f)
        out = []
        left = dict(deps)
        while left:
            ready = [n for n in left if not any(n in v for m, v in left.items() if m != n)]
            if not ready:
                return None, 0
            out += ready
            for n in ready:
                left.pop(n)
        return out, sgn

    def unfolder(self, post=lambda p: p, limit=10):
        """hook for the prover: expand the most dependent recursion symbol left in a residual"""
        order, sgn = self.order()

        def step(p):
            if not order:
                return None
            fr = p.free()
            rows = {}

            def f(a):
                if a.kind == 'r' and a.args[0] in self.defs:
                    d = self.defs[a.args[0]]
                    r = a.args[1][d.axis]
                    if r.free() <= fr and prove_int(d.lo - r - 1, 'lt') and prove_int(r - d.hi, 'lt'):
                        rows.setdefault(r.key, (r, set()))[1].add(a.args[0])
                return None
            map_atoms(p, f)
            if not rows:
                return None
            best = None
            for r, ns in rows.values():
                if best is None or prove_int((r - best[0]) * sgn, 'lt'):
                    best = (r, ns)
            r, ns = best
            n = min(ns, key=order.index)

            def g(a):
                if a.kind == 'r' and a.args[0] == n and (a.args[1][self.defs[n].axis] - r) == ZERO:
                    return self.defs[n].instance(a.args[1])
                return None
            return post(map_atoms(p, g))
        return step

    def named(self, p):
        """recursion symbols of buffers written only by the loop are written as the buffer itself"""
        m = {}
        for n, d in self.defs.items():
            if d.label in self.case.bufs and '.final' in n:
                m[n] = lambda *i, nm=d.label: rd(nm, *i)
        return replace_reads(p, m) if m else p


def paths(rec, sp, kind, fn, training=True):
    """run the pass, report exceptions as refuted obligations; yields Run under the facts of its path"""
    case = case_of(sp)
    with case.context():
        rec.context_ok(Ctx.cur, sp.cls)
        res = case.run(kind, training)
        for guards, (k, r) in res:
            if guards:
                Ctx.cur.push(*guard_facts(guards))
            try:
                if k == 'exc':
                    yield None, r
                else:
                    yield Run(case, *r), None
            finally:
                if guards:
                    Ctx.cur.pop()


def meanings(run, nodes, case, dims_of):
    """definitions of derived symbols for numeric evaluation: (parameter ids, expression, where it applies)"""
    out = {}
    for n, d in run.defs.items():
        out[n] = (d.params, d.expr, lambda idx, env, d=d: ev(d.lo, env) <= idx[d.axis] < ev(d.hi, env))
    for n, f in nodes.items():
        ds = dims_of(n)
        if ds is None:
            continue
        bs = [fresh_b() for _ in ds]
        for b, d in zip(bs, ds):
            BRANGE[b] = (ZERO, d)
        ok = (lambda idx, env, d0=ds[0]: 0 <= idx[0] < ev(d0, env)) if ds else None
        out[n] = (bs, f([bvar(b) for b in bs]), ok)
    return out


def recursion(case, nodes, prefix, rename, dims_of):
    """numeric meaning of `prefix+node`: the equations of the contract, from the starting state in row -1"""
    out = {}
    for n, f in nodes.items():
        ds = dims_of(n)
        bs = [fresh_b() for _ in ds]
        for b, d in zip(bs, ds):
            BRANGE[b] = (ZERO, d)
        e = replace_reads(f([bvar(b) for b in bs]), rename)
        out[prefix + n] = (bs, e, (lambda idx, env, d0=ds[0]: 0 <= idx[0] < ev(d0, env)) if ds else None, n)
    return out


def node_dims(sp, case):
    like = {n: [d - 1 if k in v.st.ctx else d for k, d in enumerate(v.st.dims)] for n, v in case.bufs.items()}

    def f(n):
        if n in like:
            return like[n]
        b = sp.lam.get(n)
        if b in like:
            return like[b]
        return like.get('internals.Ca') or like[Y]
    return f


def spec_meanings(sp, case):
    """'SPEC n' for every node n of the forward contract; the row before the first is the starting state"""
    ren = {n: (lambda *i, n=n: rd('SPEC ' + n, *i)) for n in list(sp.nodes) + list(sp.bnodes)}
    d = recursion(case, sp.bnodes, 'SPEC ', ren, node_dims(sp, case))
    d.update(recursion(case, sp.nodes, 'SPEC ', ren, node_dims(sp, case)))
    return d, ren


def hinted(sp, obls):
    out = []
    for o in obls:
        for h in o.get('hints', ()):
            h = {k: v for k, v in h.items()}
            if h not in out and all(abs(v) <= 9 for v in h.values()):
                out.append(h)
    full = []
    for h in out[:6]:
        for nd in sp.numdims[:2]:
            d = dict(nd); d.update({k: v for k, v in h.items() if k in nd})
            full.append(d)
    return full + list(sp.numdims)


def concrete_items(sp, hints):
    """the configuration of the real layer at given sizes"""
    items = []
    for h in hints:
        for nd in sp.numdims[:2]:
            ints = dict(nd)
            ints.update({k: v for k, v in h.items() if k in ints})
            env = Env(seed=len(items), ints=ints, lohi=sp.lohi)
            env.syms = {'drop_prob': 0.5, 'epsilon': 0.01, 'decay': 0.75, 'factor': -1.5, 'importance': 0.7}

            def val(v):
                if isinstance(v, (tuple, list)):
                    return [val(x) for x in v]
                if isinstance(v, S):
                    x = ev(v.p, env)
                    return int(round(x)) if v.p.is_int() else x
                return v
            try:
                kw = {k: val(v() if callable(v) else v) for k, v in sp.kwargs.items()}
                sh = {k: val([x for x in v if x not in ('T', 'B')] if v[:2] == ('T', 'B') else list(v)) for k, v in sp.in_shapes.items()}
            except (KeyError, Unsupported):
                continue
            it = dict(layer=sp.cls.replace('LayerImpl', ''), kwargs=kw, shapes=sh, T=ints['T'], B=ints['B'])
            if it not in items and it['T'] * it['B'] <= 20000 and all(_size(x) <= 3000 for x in sh.values()):
                items.append(it)
    return items[:8]


def _size(sh):
    n = 1
    for x in sh:
        n *= x if isinstance(x, int) else 1
    return n


def settle(rec, sp, obls, tops):
    settle_(rec, sp, obls, tops)
    for o in obls:
        if o['status'] != 'proved':
            o['items'] = concrete_items(sp, o.get('hints', [])[:6] + [{}])


def settle_(rec, sp, obls, tops):
    """some obligation of this pass is open: compare the results themselves, with every recursion evaluated from the
    start, and say refuted only where the results differ; without a difference they stay open"""
    if all(o['status'] == 'proved' for o in obls):
        return
    hints = [h for o in obls for h in o.get('hints', ())]
    for o in obls:
        if o.get('lemma'):
            continue
        top = tops.get(o['name'])
        if top is None:
            continue
        if all(q['status'] == 'proved' or not q.get('lemma') for q in obls) and o['status'] == 'proved':
            continue
        d, idx, defs = top()
        try:
            num = numeric_difference(d, idx, hinted(sp, obls), nseeds=10, lohi=sp.lohi, defs=defs)
        except (Unsupported, KeyError) as e:
            num = None
            o['detail'] = 'numeric comparison impossible: %r; ' % (e,) + o.get('detail', '')
        if num is not None:
            o['status'] = 'refuted'
            o['detail'] = 'result differs at %r; %s' % (num, o.get('detail', ''))
            o.setdefault('hints', []).insert(0, num['dims'])
        else:
            o['status'] = 'undecided'
            o['detail'] = 'rests on an intermediate equation that was not established; ' + o.get('detail', '')
        o.setdefault('hints', []).extend(hints)


def forward(rec, sp):
    for training in sp.training:
        fname = '%s.forward_pass' % sp.cls
        tag = '%s[%s%s]' % (sp.cls.replace('LayerImpl', ''), sp.label, '' if training else ', not training')
        rec.under(fname)

        def go():
            for run, exc in paths(rec, sp, 'forward', fname, training):
                if exc is not None:
                    if isinstance(exc, (Unsupported, loops.LoopException)) and not isinstance(exc, AssertionError):
                        rec.add(tag + ' runs', fname, 'undecided', repr(exc))
                    else:
                        rec.add(tag + ' runs', fname, 'undecided', 'raises %s: %s' % (type(exc).__name__, exc))
                    continue
                n = len(rec.obls)
                tops = {}
                try:
                    one_forward(rec, sp, run, tag, fname, tops)
                finally:
                    settle(rec, sp, rec.obls[n:], tops)
        rec.attempt(tag, fname, go)


def one_forward(rec, sp, run, tag, fname, tops):
    case = run.case
    rec.defs = meanings(run, {}, case, None)
    for nm in case.bufs:
        grp = nm.split('.')[0]
        if grp in ('gradients', 'input_deltas', 'output_deltas'):
            continue
        idx = case.free(nm)
        got = run.at(nm, idx)
        row = idx[0] if sp.recurrent else None
        if nm in sp.nodes:
            if nm.startswith('internals.') and nm not in sp.lam and sp.recurrent is False and nm not in sp.inline and nm not in sp.values:
                pass
            want = sp.nodes[nm](idx)
            if sp.recurrent:
                got = run.named(run.expand(got, row))
                want = unfold_now(want, sp.nodes, row)
            else:
                want = unfold_now(want, sp.nodes)
            lemma = grp == 'internals'
            if not lemma:
                def top(nm=nm, idx=idx):
                    sm, ren = spec_meanings(sp, case)
                    sm.update(meanings(run, {}, case, None))
                    return run.at(nm, idx) - rd('SPEC ' + nm, *idx), idx, sm
                tops['%s: %s' % (tag, nm)] = top
            rec.check('%s: %s' % (tag, nm), fname, got, want, free=idx, dims=sp.numdims, lohi=sp.lohi, lemma=lemma)
            v = case.bufs[nm]
            if v.st.ctx:
                c = [P(-1)] + idx[1:]
                rec.check('%s: %s keeps its context row' % (tag, nm), fname, run.at(nm, c), rd(nm, *c), free=idx, dims=sp.numdims, lohi=sp.lohi, vac=False, lemma=lemma)
        elif nm in sp.params_written:
            rec.check('%s: running statistic %s' % (tag, nm), fname, got, unfold_now(sp.params_written[nm](idx), sp.nodes) if False else sp.params_written[nm](idx), free=idx, dims=sp.numdims, lohi=sp.lohi)
        elif grp in ('inputs', 'parameters'):
            rec.check('%s: frame, %s unchanged' % (tag, nm), fname, got, rd(nm, *idx), free=idx, dims=sp.numdims, lohi=sp.lohi, vac=False)


# ------------------------------------------------------------------ adjoints
class Adjoint(object):
    def __init__(self, sp, case, run, lam_content):
        self.sp, self.case, self.run = sp, case, run
        self.lam_content = lam_content     # node -> (lambda idx: value) or absent
        self.nodes = {n: f for n, f in sp.bnodes.items() if n not in sp.inline}
        # the tracked equations, inlined nodes substituted (same row)
        self.inl = {n: sp.bnodes[n] for n in sp.inline if n in sp.bnodes}
        self.dims = {}
        for n in self.nodes:
            st = case.bufs[n].st if n in case.bufs else case.bufs[sp.lam[n]].st
            self.dims[n] = [d - 1 if k in st.ctx else d for k, d in enumerate(st.dims)]
        self._eq = {}

    def eq(self, n, idx):
        r = self._eq.get(n)
        if r is None:
            bs = [fresh_b() for _ in self.dims[n]]
            for b, d in zip(bs, self.dims[n]):
                BRANGE[b] = (ZERO, d)
            e = self.nodes[n]([bvar(b) for b in bs])
            e = unfold_now(e, self.inl)
            vals = self.sp.values.get(n)
            if callable(vals):
                e = unfold_now(vals([bvar(b) for b in bs]), self.inl)
            r = self._eq[n] = (bs, e)
        return substitute(r[1], dict(zip(r[0], idx)))

    def lam(self, n, idx):
        if n in self.lam_content:
            return rd('LAMBDA ' + n, *idx)
        return self.total(n, idx)

    def delta(self, n, idx):
        if n in self.sp.unit:
            return ONE            # the loss itself: the root of the derivative
        return rd(n.replace('outputs.', 'output_deltas.'), *idx) if n in self.sp.sinks else ZERO

    def total(self, n, idx):
        """defining equation of the adjoint of node n"""
        return self.delta(n, idx) + self.pull(n, idx)

    def pull(self, arr, idx):
        """SUM over nodes of (d node / d arr[idx]) * adjoint of the node"""
        r = ZERO
        for n in self.nodes:
            probe = self.eq(n, [bvar(b) for b in self._eq_ids(n)])
            if arr not in arrays_in(probe):
                continue
            ds = self.dims[n]

            def body(js, n=n):
                if n in self.sp.squares:      # n = sqrt(e):  dn = de / (2 n)
                    d = diff(unfold_now(self.sp.squares[n](js), self.inl), arr, tuple(idx)) / (2 * rd(n, *js))
                else:
                    d = diff(self.eq(n, js), arr, tuple(idx))
                if not d.terms:
                    return ZERO
                return d * self.lam(n, js)
            r = r + self._sum(ds, body)
        return r

    def _eq_ids(self, n):
        if n not in self._eq:
            self.eq(n, [ZERO] * len(self.dims[n]))
        return self._eq[n][0]

    def _sum(self, ds, f, acc=()):
        if len(acc) == len(ds):
            return f(list(acc))
        return SUMR(0, ds[len(acc)], lambda i: self._sum(ds, f, acc + (i,)))


def backward(rec, sp):
    if not sp.bwd:
        return
    fname = '%s.backward_pass' % sp.cls
    tag = '%s[%s]' % (sp.cls.replace('LayerImpl', ''), sp.label)
    rec.under(fname)

    def go():
        for run, exc in paths(rec, sp, 'backward', fname):
            if exc is not None:
                rec.add(tag + ' runs', fname, 'undecided', 'raises %s: %s' % (type(exc).__name__, exc))
                continue
            n = len(rec.obls)
            tops = {}
            try:
                one_backward(rec, sp, run, tag, fname, tops)
            finally:
                settle(rec, sp, rec.obls[n:], tops)
    OPAQUE[0] = sp.recurrent
    try:
        rec.attempt(tag, fname, go)
    finally:
        OPAQUE[0] = False


def one_backward(rec, sp, run, tag, fname, tops):
    case = run.case
    state = {}

    def true_defs():
        """numeric meanings: forward buffers as the current forward pass leaves them, adjoints by their recursion"""
        if 'd' not in state:
            d, ren = spec_meanings(sp, case)
            fw = case_of(sp)
            fpaths = fw.run('forward', True)
            if len(fpaths) != 1 or fpaths[0][1][0] != 'ok':
                raise Unsupported('forward pass has several paths')
            cont, fdefs = fpaths[0][1][1]
            fren = {n: (lambda *i, n=n: rd('F:' + n, *i)) for n in fdefs}
            for n, x in fdefs.items():
                d['F:' + n] = (x.params, replace_reads(x.expr, fren), lambda idx, env, x=x: ev(x.lo, env) <= idx[x.axis] < ev(x.hi, env))
            for nm, v in case.bufs.items():
                if nm.split('.')[0] not in ('outputs', 'internals') or nm not in cont or fw.layer.internal_shapes.get(nm.split('.', 1)[1]) is not None and fw.layer.internal_shapes[nm.split('.', 1)[1]].is_backward_only and nm.startswith('internals'):
                    continue
                ds = node_dims(sp, case)(nm)
                bs = [fresh_b() for _ in ds]
                for b, q in zip(bs, ds):
                    BRANGE[b] = (ZERO, q)
                d[nm] = (bs, replace_reads(cont[nm](tuple(bvar(b) for b in bs)), fren),
                         (lambda idx, env, d0=ds[0]: 0 <= idx[0] < ev(d0, env)) if ds else None)
            full = Adjoint(sp, case, run, {n: None for n in sp.bnodes if n not in sp.inline})
            nr = {n: (lambda *i, n=n: rd('SPEC ' + n, *i)) for n in list(sp.nodes) + list(sp.bnodes)}
            for n in full.nodes:
                ds = full.dims[n]
                bs = [fresh_b() for _ in ds]
                for b, q in zip(bs, ds):
                    BRANGE[b] = (ZERO, q)
                d['LAMBDA ' + n] = (bs, replace_reads(full.total(n, [bvar(b) for b in bs]), nr),
                                    (lambda idx, env, d0=ds[0]: 0 <= idx[0] < ev(d0, env)) if ds else None)
            d.update(meanings(run, {}, case, None))
            state['d'], state['adj'], state['ren'] = d, full, nr
        return state['d'], state['adj'], state['ren']
    lamc = {}
    for n, bufname in sp.lam.items():
        if bufname == '?alloc':
            cand = sorted({d.label for d in run.defs.values() if d.label == 'alloc'})
            fins = [s for s, d in run.defs.items() if d.label == 'alloc' and '.final' in s and len(d.params) == 3]
            if len(fins) != 1:
                raise Unsupported('cannot identify the array holding the adjoint of %s' % n)
            lamc[n] = lambda idx, s=fins[0]: rd(s, *idx)
        elif bufname in case.bufs:
            lamc[n] = lambda idx, b=bufname: run.at(b, idx)
        else:
            raise Unsupported('no buffer %s' % bufname)
    adj = Adjoint(sp, case, run, lamc)
    inline_reads = dict(adj.inl)
    alldims = {n: [d - 1 if k in case.bufs[n].st.ctx else d for k, d in enumerate(case.bufs[n].st.dims)] for n in sp.nodes if n in case.bufs}
    rec.defs = meanings(run, {n: f for n, f in sp.bnodes.items() if n not in sp.values or callable(sp.values[n])}, case, alldims.get)
    tracked_out = {} if sp.recurrent else {n: f for n, f in adj.nodes.items() if n not in sp.values or callable(sp.values[n])}

    def fwd(p):
        """what the forward contract says about the buffers read"""
        p = unfold_now(p, inline_reads)
        if not sp.recurrent:
            keep = set(sp.squares)
            p = unfold_now(p, {n: f for n, f in tracked_out.items() if n not in keep})
        else:
            # activations are stored, their derivatives expressed by the stored value
            pass
        return p

    def lam_sub(p, row, expanded):
        def f(a):
            if a.kind == 'r' and a.args[0].startswith('LAMBDA '):
                n = a.args[0][7:]
                v = lamc[n](list(a.args[1]))
                if row is not None and (a.args[1][0] - row) == ZERO:
                    v = run.expand(v, row)
                elif expanded:
                    v = run.expand(v, a.args[1][0])
                return v
            return None
        return map_atoms(p, f)

    def rowwise(p, t):
        """stored activations: y(t) = f(Ha(t)) for rows 0..T-1"""
        nd = {n: sp.nodes[n] for n in sp.nodes if sp.recurrent and n not in ()}
        return unfold_now(p, {n: nd[n] for n in sp.inline if n in nd})

    # 0. the equations used below define the same outputs as the forward contract
    for n in sp.same:
        idx = case.free(n)
        a = unfold_now(sp.nodes[n](idx), {m: f for m, f in sp.nodes.items()}, idx[0])
        b = unfold_now(sp.bnodes[n](idx), {m: f for m, f in sp.bnodes.items()}, idx[0])
        rec.check('%s: equations of %s' % (tag, n), fname, a, b, free=idx, dims=sp.numdims, lohi=sp.lohi, lemma=True)
    # 1. adjoint equations of the arrays that carry the recursion
    for n in sp.lam:
        bufname = sp.lam[n]
        idx = case.free(n if n in case.bufs else bufname)
        t = idx[0]

        got = run.expand(lamc[n](idx), t)
        want = lam_sub(adj.total(n, idx), t, False)
        post = lambda p: activations(sp, fwd(p), t)
        prover.UNFOLD.append(run.unfolder(post))
        try:
            rec.check('%s: %s is the adjoint of %s' % (tag, bufname, n), fname, post(got), post(want), free=idx, dims=sp.numdims, lohi=sp.lohi, lemma=True)
        finally:
            prover.UNFOLD.pop()
    # 2. results
    scale = sp.scale if sp.scale is not None else ONE
    for nm in case.bufs:
        grp, nn = nm.split('.', 1)
        idx = case.free(nm)
        facts = []
        if grp == 'input_deltas':
            src = 'inputs.' + nn
            old = rd(BACK + nm, *idx)
            mk_want = lambda adj, old=old, src=src, nn=nn, idx=idx: old if nn in sp.no_delta else old + scale * adj.pull(src, idx)
            facts = [f(idx) for f in sp.bwd_facts]
        elif grp == 'gradients':
            if sp.grads is not None and nn not in sp.grads:
                continue
            # precondition: the network clears all gradients before a backward pass
            mk_want = lambda adj, nn=nn, idx=idx: adj.pull('parameters.' + nn, idx)
        elif grp in ('parameters', 'inputs', 'outputs'):
            rec.check('%s: frame, %s unchanged' % (tag, nm), fname, run.at(nm, idx), rd(nm, *idx), free=idx, dims=sp.numdims, lohi=sp.lohi, vac=False)
            continue
        else:
            continue
        want = mk_want(adj)

        def top(nm=nm, idx=idx, mk_want=mk_want):
            d, full, nr = true_defs()
            return cleared(run.at(nm, idx)) - replace_reads(mk_want(full), nr), idx, d
        tops['%s: %s' % (tag, nm)] = top
        if facts:
            Ctx.cur.push(*facts)
        try:
            got = activations(sp, fwd(cleared(run.at(nm, idx))), None)
            w = activations(sp, fwd(lam_sub(want, None, False)), None)
            rec.check('%s: %s' % (tag, nm), fname, fold_sigma(sp, got), fold_sigma(sp, w), free=idx, dims=sp.numdims, lohi=sp.lohi)
        finally:
            if facts:
                Ctx.cur.pop()


def cleared(p):
    def f(a):
        if a.kind == 'r' and a.args[0].startswith(BACK + 'gradients.'):
            return ZERO
        return None
    return map_atoms(p, f)


def activations(sp, p, t):
    """stored activations: y(t) = f(Ha(t)) where the equation of y has been stated by the forward contract"""
    if t is None or not sp.recurrent or Y not in sp.nodes or Y in sp.inline or Y not in sp.lam:
        return p

    fr = p.free()

    def f(a):
        if a.kind == 'r' and a.args[0] == Y and a.args[1][0].free() <= fr:
            r = a.args[1][0]
            g = lt0(r - isym('T'), True) * (1 - lt0(r, True))
            if not g.terms:
                return None
            return ite(g, sp.nodes[Y](list(a.args[1])), atom(a))
        return None
    return map_atoms(p, f)


Y = 'outputs.default'


def fold_sigma(sp, p):
    return p
