"""C03: continuing sequences. (1) every layer computes row t from row t of its inputs and, where it is recurrent, from row t - 1 of
buffers that have a context row, in the same way for every t and T; (2) the network saves, restores and clears exactly those rows;
(3) hence, by induction over time, any cut gives the rows of the whole."""
from engine.poly import *
from engine.prover import *
from engine.rt import *
from engine import rt, verify, prover, loops, layerproof
from engine.layers import BACK
from engine.strided import Arr, allocate, touches
from engine.verify import contract, lemma
from . import common, c04, gnet, layers as SL
from .c04 import same

ASSUMPTIONS = [common.REALS, common.NUMPY, common.HANDLER, 'numpy view semantics as in engine/strided.py', 'a layer pass writes only what C01 and C02 prove it writes', 'layers run in dependency order (C06)',
               'connection graphs: the generated ones (bounded); layer sizes, lengths, batch sizes are unbounded', 'context sizes are 0 or 1, as in all layers shipped']
TRUSTED = ['engine/*.py', 'z3', common.EXTRACTION, common.KERNEL, 'composition: layers in dependency order, each computing row t from row t of its inputs and the state in row t - 1, compute row t of the network from row t of the data and the state in row t - 1']
T, B, T2, K = isym('T'), isym('B'), isym('T2'), isym('k')
FUNCS = ['BufferManager.get_context', 'BufferManager.apply_context', 'BufferManager.clear_context', 'BufferManager.resize', 'Network.forward_pass', 'Network.get_context', 'Network.provide_external_data', 'create_layout', 'create_buffer_views_from_layout', 'BufferStructure.create_from_buffer_hub']


# ------------------------------------------------------------------ (1) layers
def rows(rec, sp):
    clock = 'Clockwork' in sp.cls
    fname = '%s.forward_pass' % sp.cls
    rec.under(fname)
    for training in sp.training:
        tag = '%s[%s%s]' % (sp.cls.replace('LayerImpl', ''), sp.label, '' if training else ', not training')

        def go():
            for run, exc in layerproof.paths(rec, sp, 'forward', fname, training):
                if exc is not None:
                    rec.add(tag + ' runs', fname, 'undecided', repr(exc))
                    continue
                one(rec, sp, run, tag, fname, clock)
        rec.attempt(tag, fname, go)


def one(rec, sp, run, tag, fname, clock):
    case = run.case
    layer = case.layer
    timed, ctxs = set(), {}
    for g, shapes in (('inputs', layer.in_shapes), ('outputs', layer.out_shapes), ('internals', layer.internal_shapes)):
        for n, s in shapes.items():
            if s.scales_with_time:
                timed.add('%s.%s' % (g, n))
            ctxs['%s.%s' % (g, n)] = s.context_size
    item = dict(items=[dict(kind='history')])
    for n, s in layer.out_shapes.items():
        nm = 'outputs.' + n
        if nm not in timed:
            continue
        todo, seen = [nm], set()
        while todo:
            b = todo.pop()
            if b in seen:
                continue
            seen.add(b)
            idx = case.free(b)
            t = idx[0]
            e = run.named(run.expand(run.at(b, idx), t))
            bad, used = [], set()

            def look(a):
                if a.kind == 'r':
                    name, i = a.args
                    if name.startswith(BACK):
                        bad.append('old content of %s' % name[1:])
                    elif name in run.defs:
                        bad.append('hidden state %s' % run.defs[name].label)
                    elif name in timed:
                        d = i[0] - t
                        if name.startswith('inputs.'):
                            if d.terms:
                                bad.append('%s at row %s' % (name, show(i[0], 60)))
                        elif d == P(-1):
                            used.add(name)
                            if not ctxs[name]:
                                bad.append('%s at row t - 1, which is not carried over' % name)
                        elif d.terms:
                            bad.append('%s at row %s' % (name, show(i[0], 60)))
                        else:
                            used.add(name)
                return None
            map_atoms(e, look)
            label = '%s: row t of %s depends only on row t of the inputs and carried rows' % (tag, b)
            if bad:
                rec.add(label, fname, 'undecided', '; '.join(sorted(set(bad)))[:1500], failed=True, **item)
            else:
                rec.add(label, fname, 'proved')
            todo += sorted(used)
            if not clock:
                moved = replace_syms(substitute(e, {list(t.free())[0]: t + K}), {'T': T + K})
                moved = replace_reads(moved, {m: (lambda *i, m=m: rd(m, i[0] - K, *i[1:])) for m in timed})
                Ctx.cur.push((1 - K, 'le'))
                try:
                    rec.check('%s: %s is computed in the same way at every row' % (tag, b), fname, moved, e, free=idx, dims=[dict(d, k=1 + j) for j, d in enumerate(sp.numdims)], lohi=sp.lohi)
                    if rec.obls[-1]['status'] != 'proved':
                        rec.obls[-1].update(item)
                finally:
                    Ctx.cur.pop()


# ------------------------------------------------------------------ (2) the state of the network
def facts(count):
    return c04.size_facts(count) + [(1 - T2, 'le')]


def data(net, t, b):
    return {k: gnet.Data(k, (S(t), S(b)) + v.shape[2:]) for k, v in net.buffer.Input.outputs.items()}


def rows_of(s, v, t, c):
    """the c rows from row t on of a view with time axis"""
    return [v[mk(t + j)] for j in range(c)]


def state(lo, hi):
    def go(rec):
        from brainstorm.utils import NetworkValidationError
        for seed in range(lo, hi):
            ok, count = gnet.usable(seed)
            if not ok:
                continue

            def start():
                mem = gnet.Memory()
                layers, net = gnet.make_net(seed, mem)
                net.provide_external_data(data(net, T, B))
                net._buffer_manager.full_buffer.buf.fresh = False
                del mem.ops[:]
                for k, v in net.buffer.Input.outputs.items():
                    mem.write(v, ('data', k), 'data')
                return layers, net, mem

            def snapshot(net, layers):
                return {k: (s, v) for k, s, v in gnet.arrays(net, layers)}

            def given(net, mem, arrs, names, since, t):
                """writes since then that touch the first t rows of an array, the parameters or the data"""
                out = []
                for dst, value, what in mem.ops[since:]:
                    if what in ('forward', 'backward'):
                        continue
                    for k, (s, v) in arrs.items():
                        w = v[:mk(t)] if s.scales_with_time else v
                        if touches(dst, w):
                            out.append('%s.%s.%s' % k)
                return sorted(set(out))

            # taking the state
            def take():
                try:
                    layers, net, mem = start()
                except NetworkValidationError:
                    return None
                k = mem.now()
                net.get_context()
                return layers, net, mem, k

            def took(x):
                if x is None:
                    return
                layers, net, mem, k = x
                arrs = snapshot(net, layers)
                touched = sorted(set('%s.%s.%s' % n for dst, _, _ in mem.ops[k:] for n, (s, v) in arrs.items() if touches(dst, v)))
                yield 'taking the state writes nothing in the network%s' % (': %s' % touched[:3] if touched else ''), not touched
            contract(rec, 'network %d, get_context' % seed, FUNCS, facts(count), take, took, items=[dict(kind='history')])

            # continuing, possibly with another length, after other passes
            for between, t2 in ((False, T), (True, T2), (False, T2)):
                def cont(between=between, t2=t2):
                    try:
                        layers, net, mem = start()
                    except NetworkValidationError:
                        return None
                    old = snapshot(net, layers)
                    k0 = mem.now()
                    ctx = net.get_context()
                    kc = mem.now()
                    if between:
                        net.forward_pass()
                        net.forward_pass(context=net.get_context())
                    d = data(net, t2, B)
                    net.provide_external_data(d)
                    k1 = mem.now()
                    for l in layers.values():
                        del l.calls[:]
                    net.forward_pass(context=ctx)
                    return layers, net, mem, old, k0, kc, k1, d, ctx

                def continued(x, between=between, t2=t2):
                    if x is None:
                        return
                    layers, net, mem, old, k0, kc, k1, d, ctx = x
                    new = snapshot(net, layers)
                    first = min([c[3] for l in layers.values() for c in l.calls] or [mem.now()])
                    for key, (s, v) in new.items():
                        n, g, k = key
                        if not s.context_size or s.is_backward_only or g in ('gradients', 'input_deltas', 'output_deltas', 'inputs'):
                            continue
                        w = old[key][1]
                        for j, (r, q) in enumerate(zip(rows_of(s, v, t2, s.context_size), rows_of(s, w, T - s.context_size, s.context_size))):
                            a, b = mem.content(r, first), mem.content(q, k0)
                            yield '%s.%s.%s continues from the last step of the pass before' % key, a is not None and b is not None and a[0] == b[0] == 'initial' and same(a[1], b[1])
                    touched = given(net, mem, new, None, k1, t2)
                    yield 'applying the state leaves all other data as it was%s' % (': %s' % touched[:3] if touched else ''), not touched
                    yield 'the data given is what the layers see', all(mem.content(v, first) == ('data', d[k]) for k, v in net.buffer.Input.outputs.items())
                    kept = [a.buf for a in ctx or [] if isinstance(a, Arr)]
                    yield 'the state taken stays as it was', not any(dst.buf in kept for dst, _, _ in mem.ops[kc:])
                    yield 'every layer ran once, in order', [len(l.calls) for l in list(layers.values())[1:]] == [1] * (len(layers) - 1) and sorted([c[3] for l in layers.values() for c in l.calls]) == [c[3] for l in layers.values() for c in l.calls]
                contract(rec, 'network %d, continued%s' % (seed, (' after other passes' if between else '') + (', the same length' if t2 is T else '')), FUNCS, facts(count) + ([(T2 - T, 'ne')] if t2 is T2 else []), cont, continued, items=[dict(kind='history')])

            # starting without a state
            def begin():
                try:
                    layers, net, mem = start()
                except NetworkValidationError:
                    return None
                net.forward_pass(context=net.get_context())
                k1 = mem.now()
                for l in layers.values():
                    del l.calls[:]
                net.forward_pass()
                return layers, net, mem, k1

            def begun(x):
                if x is None:
                    return
                layers, net, mem, k1 = x
                new = snapshot(net, layers)
                first = min([c[3] for l in layers.values() for c in l.calls] or [mem.now()])
                for key, (s, v) in new.items():
                    if not s.context_size or s.is_backward_only or key[1] in ('gradients', 'input_deltas', 'output_deltas', 'inputs'):
                        continue
                    for r in rows_of(s, v, T, s.context_size):
                        a = mem.content(r, first)
                        yield '%s.%s.%s starts from zero' % key, a is not None and a[0] == 'fill' and a[1] == 0
                touched = given(net, mem, new, None, k1, T)
                yield 'resetting the state leaves all other data as it was%s' % (': %s' % touched[:3] if touched else ''), not touched
            contract(rec, 'network %d, started without a state' % seed, FUNCS, facts(count), begin, begun, items=[dict(kind='history')])
    return go


# ------------------------------------------------------------------ (3) induction
def induction(rec):
    """whole sequence w, chunk c that starts at step a with the state of step a - 1; one step is an arbitrary function of the data and the state"""
    X, St = z3.DeclareSort('Row'), z3.DeclareSort('State')
    step = z3.Function('step', X, St, St)
    x, xc = z3.Function('x', z3.IntSort(), X), z3.Function('xc', z3.IntSort(), X)
    w, c = z3.Function('w', z3.IntSort(), St), z3.Function('c', z3.IntSort(), St)
    a, t, n, m, i = z3.Ints('a t n m i')
    W = lambda i: z3.Implies(z3.And(0 <= i, i < n), w(i) == step(x(i), w(i - 1)))
    C = lambda i: z3.Implies(z3.And(0 <= i, i < m), c(i) == step(xc(i), c(i - 1)))
    D = lambda i: z3.Implies(z3.And(0 <= i, i < m), xc(i) == x(i + a))
    lemma(rec, 'chunk: first step', 'lemma', [a >= 0, m >= 1, a + m <= n, W(a), C(z3.IntVal(0)), D(z3.IntVal(0)), c(-1) == w(a - 1)], c(0) == w(a))
    lemma(rec, 'chunk: next step', 'lemma', [a >= 0, t >= 0, t + 1 < m, a + m <= n, W(a + t + 1), C(t + 1), D(t + 1), c(t) == w(a + t)], c(t + 1) == w(a + t + 1))
    lemma(rec, 'the state after a chunk is the state of the whole sequence there', 'lemma', [a >= 0, m >= 1, c(m - 1) == w(a + m - 1)], c(m - 1) == w((a + m) - 1))


def tasks(tier):
    yield 'induction', induction
    for sp in SL.all_specs():
        if sp.cls == 'LossLayerImpl' or sp.label.startswith('training'):
            continue
        yield '%s[%s]' % (sp.cls, sp.label), (lambda rec, sp=sp: rows(rec, sp))
    n = 64 if tier == 'quick' else 1200
    step = 2 if tier == 'quick' else 30
    for k in range(0, n, step):
        yield 'state%d' % k, state(k, k + step)
