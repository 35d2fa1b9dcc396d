"""Contracts of the layers: the equations every forward pass must establish, and which buffers hold the adjoints of
which quantities in the backward pass.  Index tuples are (time, batch, features...) with axes of size one left out."""
from engine.poly import *
from engine.prover import *
from engine.rt import *
from engine.handler import FUN, el_fn

T, B = isym('T'), isym('B')
X = 'inputs.default'
Y = 'outputs.default'
EPS6 = Fraction(1, 10 ** 6)


def dims(prefix, k):
    return [isym(prefix + (str(i) if k > 1 else '')) for i in range(k)]


def pos(*ds):
    return [(1 - d, 'le') for d in ds]


def syms(ds):
    return tuple(S(d) for d in ds)


def nsum(ds, f, acc=()):
    if len(acc) == len(ds):
        return f(list(acc))
    return SUMR(0, ds[len(acc)], lambda i: nsum(ds, f, acc + (i,)))


def clip(p, lo, hi):
    return rmin(rmax(p, P(lo)), P(hi))


class Spec(object):
    """nodes: name -> equation(list of indices); lam: node -> buffer with its adjoint; inline: nodes that are not kept
    as separate unknowns in the derivative; sinks: outputs that receive deltas"""

    def __init__(self, cls, label, in_shapes, kwargs=None, facts=(), nodes=None, lam=None, inline=(), sinks=(Y,), wrt=None, ints=(), fwd_facts=(), bwd_facts=(),
                 recurrent=False, training=(True,), params_written=None, numdims=(), lohi=None, no_delta=(), scale=None, grads=None, values=None, bwd=True, bnodes=None, unit=(), squares=None):
        self.unit, self.squares = set(unit), squares or {}
        self.cls, self.label, self.in_shapes, self.kwargs, self.facts = cls, label, in_shapes, kwargs or {}, list(facts)
        self.nodes, self.lam, self.inline, self.sinks, self.wrt, self.ints = nodes or {}, lam or {}, set(inline), sinks, wrt, ints
        self.fwd_facts, self.bwd_facts, self.recurrent, self.training = list(fwd_facts), list(bwd_facts), recurrent, training
        self.params_written, self.numdims, self.lohi = params_written or {}, list(numdims), lohi or {}
        self.no_delta, self.scale, self.grads, self.values, self.bwd = set(no_delta), scale, grads, values or {}, bwd
        # equations used by the backward proof where they differ from the stored quantities: they must give the same
        # values to the nodes listed in `same`
        self.bnodes = bnodes or self.nodes
        self.same = [] if bnodes is None else [n for n in (Y, 'internals.Ca') if n in bnodes]


def sizes(names, n=4, base=None):
    out = []
    for k in range(n):
        d = {'T': 1 + (k % 4), 'B': 1 + (k % 2)}
        for j, nm in enumerate(names):
            d[nm] = 1 + ((k + j) % 3)
        d.update(base or {})
        out.append(d)
    return out


ACTS = ['linear', 'tanh', 'sigmoid', 'rel', 'el']


def fc(act, kin, kout):
    F, O = dims('F', kin), dims('S', kout)
    f = FUN[act][0]
    eq = lambda i: f(nsum(F, lambda k: rd(X, i[0], i[1], *k) * rd('parameters.W', *(i[2:] + k))) + rd('parameters.bias', *i[2:]))
    return Spec('FullyConnectedLayerImpl', '%s in%d out%d' % (act, kin, kout), {'default': ('T', 'B') + syms(F)},
                {'size': lambda: syms(O) if kout > 1 else S(O[0]), 'activation': act}, pos(*(F + O)), {Y: eq}, numdims=sizes([str(d) for d in names(F + O)]))


def names(ds):
    return [list(syms_in(d))[0] for d in ds]


def rnn(act, kin):
    F, O = dims('F', kin), isym('S')
    f = FUN[act][0]
    H = 'internals.Ha'
    nodes = {H: lambda i: nsum(F, lambda k: rd(X, i[0], i[1], *k) * rd('parameters.W', i[2], *k)) + rd('parameters.bias', i[2])
             + SUMR(0, O, lambda j: rd(Y, i[0] - 1, i[1], j) * rd('parameters.R', i[2], j)),
             Y: lambda i: f(rd(H, *i))}
    return Spec('RecurrentLayerImpl', '%s in%d' % (act, kin), {'default': ('T', 'B') + syms(F)}, {'size': lambda: S(O), 'activation': act}, pos(O, *F), nodes,
                lam={H: 'internals.dHa', Y: 'internals.dHb'}, recurrent=True, numdims=sizes(names(F) + ['S']))


def clock_active(t, timing):
    """a unit is updated at step t when t is 0 or the period divides t"""
    return eq0(t, True) + (1 - eq0(t, True)) * eq0(func('fmod', t, timing), False)


def cwrnn(act, kin):
    F, O = dims('F', kin), isym('S')
    f = FUN[act][0]
    H = 'internals.Ha'
    nodes = {H: lambda i: nsum(F, lambda k: rd(X, i[0], i[1], *k) * rd('parameters.W', i[2], *k)) + rd('parameters.bias', i[2])
             + SUMR(0, O, lambda j: rd(Y, i[0] - 1, i[1], j) * rd('parameters.R', i[2], j)),
             Y: lambda i: ite(clock_active(i[0], rd('parameters.timing', i[2])), f(rd(H, *i)), rd(Y, i[0] - 1, i[1], i[2]))}
    return Spec('ClockworkLayerImpl', '%s in%d' % (act, kin), {'default': ('T', 'B') + syms(F)}, {'size': lambda: S(O), 'activation': act}, pos(O, *F), nodes,
                lam={H: 'internals.dHa', Y: 'internals.dHb'}, recurrent=True, numdims=sizes(names(F) + ['S']), grads=['W', 'R', 'bias'], lohi={'parameters.timing': (1, 4)},
                ints=('parameters.timing',))


def lstm(act, kin, clockwork=False):
    F, O = dims('F', kin), isym('S')
    f = FUN[act][0]
    sg = FUN['sigmoid'][0]
    q = 'parameters.'
    I = 'internals.'

    def pre(g):
        return lambda i: (nsum(F, lambda k: rd(X, i[0], i[1], *k) * rd(q + 'W' + g, i[2], *k)) + rd(q + 'b' + g, i[2])
                          + SUMR(0, O, lambda j: rd(Y, i[0] - 1, i[1], j) * rd(q + 'R' + g, i[2], j)))
    C = I + 'Ca'
    prev = lambda i: [i[0] - 1, i[1], i[2]]
    new_c = lambda i: rd(I + 'Ib', *i) * rd(I + 'Zb', *i) + rd(I + 'Fb', *i) * rd(C, *prev(i))
    nodes = {I + 'Za': pre('z'), I + 'Zb': lambda i: f(rd(I + 'Za', *i)),
             I + 'Ia': lambda i: pre('i')(i) + rd(q + 'pi', i[2]) * rd(C, *prev(i)), I + 'Ib': lambda i: sg(rd(I + 'Ia', *i)),
             I + 'Fa': lambda i: pre('f')(i) + rd(q + 'pf', i[2]) * rd(C, *prev(i)), I + 'Fb': lambda i: sg(rd(I + 'Fa', *i))}
    lam = {I + g + 'a': I + 'd' + g + 'a' for g in 'ZIFO'}
    lam[C] = I + 'dCa'
    if not clockwork:
        nodes[C] = new_c
        nodes[I + 'Oa'] = lambda i: pre('o')(i) + rd(q + 'po', i[2]) * rd(C, *i)
        nodes[I + 'Cb'] = lambda i: f(rd(C, *i))
        nodes[I + 'Ob'] = lambda i: sg(rd(I + 'Oa', *i))
        nodes[Y] = lambda i: rd(I + 'Ob', *i) * rd(I + 'Cb', *i)
        inline = [I + g + 'b' for g in 'ZIFOC']
    else:
        on = lambda i: clock_active(i[0], rd(q + 'timing', i[2]))
        # the cell value before inactive units are reset is not stored
        nodes['Cnew'] = new_c
        nodes[C] = lambda i: ite(on(i), rd('Cnew', *i), rd(C, *prev(i)))
        nodes[I + 'Oa'] = lambda i: pre('o')(i) + rd(q + 'po', i[2]) * rd('Cnew', *i)
        nodes[I + 'Cb'] = lambda i: f(rd('Cnew', *i))
        nodes[I + 'Ob'] = lambda i: sg(rd(I + 'Oa', *i))
        nodes[Y] = lambda i: ite(on(i), rd(I + 'Ob', *i) * rd(I + 'Cb', *i), rd(Y, *prev(i)))
        inline = [I + g + 'b' for g in 'ZIFOC'] + ['Cnew']
        lam[Y] = '?alloc'
        # backward: the quantities of inactive units do not matter, so the reset cell can take the place of the new one
        bn = {n: f2 for n, f2 in nodes.items() if n != 'Cnew'}
        bn[C] = lambda i: ite(on(i), new_c(i), rd(C, *prev(i)))
        bn[I + 'Oa'] = lambda i: pre('o')(i) + rd(q + 'po', i[2]) * rd(C, *i)
        bn[I + 'Cb'] = lambda i: ite(on(i), f(rd(C, *i)), rd('inactive Cb', *i))
        binl = [I + g + 'b' for g in 'ZIFOC']
    ps = ['W', 'R', 'b']
    grads = [p + g for p in ps for g in 'zifo'] + ['pi', 'pf', 'po']
    return Spec('ClockworkLstmLayerImpl' if clockwork else 'LstmLayerImpl', '%s in%d' % (act, kin), {'default': ('T', 'B') + syms(F)}, {'size': lambda: S(O), 'activation': act},
                pos(O, *F), nodes, lam=lam, inline=inline, recurrent=True, numdims=sizes(names(F) + ['S']), grads=grads, lohi={'parameters.timing': (1, 4)},
                ints=('parameters.timing',) if clockwork else (), bnodes=bn if clockwork else None)


def rank_cases():
    for k in (1, 2, 3):
        F = dims('F', k)
        fs = pos(*F)
        nd = sizes(names(F))
        sh = ('T', 'B') + syms(F)
        x = lambda i: rd(X, *i)
        for act in ACTS:
            yield Spec('ElementwiseLayerImpl', '%s rank%d' % (act, k), {'default': sh}, {'activation': act}, fs, {Y: lambda i, act=act: FUN[act][0](rd(X, *i))}, numdims=nd)
        yield Spec('NoOpLayerImpl', 'rank%d' % k, {'default': sh}, {}, fs, {Y: x}, numdims=nd)
        fac = sym('factor')
        yield Spec('DeltasScalingLayerImpl', 'rank%d' % k, {'default': sh}, {'factor': lambda: S(sym('factor'))}, fs, {Y: x}, numdims=nd, scale=fac)
        yield Spec('HighwayLayerImpl', 'rank%d' % k, {'H': sh, 'T': sh, 'x': sh}, {}, fs,
                   {Y: lambda i: rd('inputs.T', *i) * rd('inputs.H', *i) + (1 - rd('inputs.T', *i)) * rd('inputs.x', *i)}, numdims=nd)
        yield Spec('SquaredDifferenceLayerImpl', 'rank%d' % k, {'inputs_1': sh, 'inputs_2': sh}, {}, fs,
                   {'internals.diff': lambda i: rd('inputs.inputs_1', *i) - rd('inputs.inputs_2', *i), Y: lambda i: (rd('inputs.inputs_1', *i) - rd('inputs.inputs_2', *i)) ** 2},
                   inline=['internals.diff'], numdims=nd)
        yield Spec('SquaredErrorLayerImpl', 'rank%d' % k, {'default': sh, 'targets': sh}, {}, fs,
                   {'outputs.predictions': x, 'internals.diff': lambda i: rd(X, *i) - rd('inputs.targets', *i),
                    'outputs.loss': lambda i: (rd(X, *i) - rd('inputs.targets', *i)) ** 2 * Fraction(1, 2)},
                   inline=['internals.diff', 'outputs.predictions'], sinks=('outputs.loss',), numdims=nd, no_delta=['targets'])
        yield Spec('L2DecayLayerImpl', 'rank%d' % k, {'default': sh}, {}, fs,
                   {'outputs.loss': lambda i, F=F: nsum(F, lambda j: rd(X, i[0], i[1], *j) ** 2 * Fraction(1, 2))}, sinks=('outputs.loss',), numdims=nd)
        yield Spec('L1DecayLayerImpl', 'rank%d' % k, {'default': sh}, {}, fs,
                   {'outputs.loss': lambda i, F=F: nsum(F, lambda j: absval(rd(X, i[0], i[1], *j)))}, sinks=('outputs.loss',), numdims=nd,
                   bwd_facts=[lambda idx: (rd(X, *idx), 'ne')])
        # dropout
        p = sym('drop_prob')
        M = 'internals.mask'
        yield Spec('DropoutLayerImpl', 'training rank%d' % k, {'default': sh}, {'drop_prob': lambda: S(sym('drop_prob'))}, fs,
                   {M: lambda i: rd('rndmask1', *i), Y: lambda i, p=p: rd(X, *i) * rd(M, *i) / (1 - p)}, inline=[], numdims=nd, lohi={'drop_prob': (0.1, 0.9)}, values={M: 1})
        yield Spec('DropoutLayerImpl', 'not training rank%d' % k, {'default': sh}, {'drop_prob': lambda: S(sym('drop_prob'))}, fs, {Y: x}, training=(False,), bwd=False, numdims=nd,
                   lohi={'drop_prob': (0.1, 0.9)})
        # masks
        for kind, msh in (('sequence', (1,)), ('last', syms(F[:-1]) + (1,)), ('full', syms(F))):
            if k == 1 and kind == 'last':
                continue
            n = dict(sequence=2, last=1 + k, full=2 + k)[kind]
            yield Spec('MaskLayerImpl', '%s rank%d' % (kind, k), {'default': sh, 'mask': ('T', 'B') + msh}, {}, fs + ([(2 - F[-1], 'le')] if kind == 'full' else []),
                       {Y: lambda i, n=n: rd(X, *i) * rd('inputs.mask', *i[:n])}, numdims=sizes(names(F), base={'F' if k == 1 else 'F%d' % (k - 1): 2} if kind == 'full' else None),
                       no_delta=['mask'])
        # merge
        G = isym('G')
        last = F[-1]
        yield Spec('MergeLayerImpl', 'rank%d' % k, {'inputs_1': sh, 'inputs_2': sh[:-1] + (S(G),)}, {}, fs + pos(G),
                   {Y: lambda i, last=last: ite(lt0(i[-1] - last, True), rd('inputs.inputs_1', *i), rd('inputs.inputs_2', *(i[:-1] + [i[-1] - last])))},
                   numdims=sizes(names(F) + ['G']))
        # cross entropies
        yield Spec('SigmoidCELayerImpl', 'rank%d' % k, {'default': sh, 'targets': sh}, {}, fs,
                   {'outputs.predictions': lambda i: FUN['sigmoid'][0](rd(X, *i)),
                    'outputs.loss': lambda i: bce(FUN['sigmoid'][0](rd(X, *i)), rd('inputs.targets', *i))},
                   inline=['outputs.predictions'], sinks=('outputs.loss',), numdims=nd, no_delta=['targets'],
                   values={'outputs.loss': lambda i: bce_plain(FUN['sigmoid'][0](rd(X, *i)), rd('inputs.targets', *i))})
        tg = lambda i: rd('inputs.targets', *i)
        W = isym('C')
        shc = sh[:-1] + (S(W),)
        soft = lambda i, W=W: exp(rd(X, *i)) / SUMR(0, W, lambda j: exp(rd(X, *(list(i[:-1]) + [j]))))
        yield Spec('SoftmaxCELayerImpl', 'rank%d' % k, {'default': shc, 'targets': sh[:-1] + (1,)}, {}, fs + [(2 - W, 'le')],
                   {'outputs.predictions': soft, 'outputs.loss': lambda i, soft=soft: -log(clip(soft(list(i) + [rd('inputs.targets', *i)]), EPS6, 1))},
                   inline=['outputs.predictions'], sinks=('outputs.loss',), numdims=sizes(names(F) + ['C'], base={'C': 3}), no_delta=['targets'], ints=('inputs.targets',),
                   lohi={'inputs.targets': (0, 3)},
                   values={'outputs.loss': lambda i, soft=soft: -log(soft(list(i) + [rd('inputs.targets', *i)]))})
        # batch normalisation
        yield from bn(k)
        # losses
    F = dims('F', 2)
    yield Spec('BinomialCrossEntropyLayerImpl', 'rank1', {'default': ('T', 'B', S(isym('F'))), 'targets': ('T', 'B', S(isym('F')))}, {}, pos(isym('F')),
               {'outputs.default': lambda i: SUMR(0, isym('F'), lambda j: bce(rd(X, i[0], i[1], j), rd('inputs.targets', i[0], i[1], j)))}, numdims=sizes(['F']), no_delta=['targets'],
               lohi={X: (0.05, 0.95)}, values={'outputs.default': lambda i: SUMR(0, isym('F'), lambda j: bce_plain(rd(X, i[0], i[1], j), rd('inputs.targets', i[0], i[1], j)))},
               bwd_facts=[lambda idx: (EPS6 - (rd(X, *idx) - rd(X, *idx) ** 2), 'lt'), lambda idx: (rd(X, *idx) - 1, 'lt'), lambda idx: (-rd(X, *idx), 'lt')])
    imp = sym('importance')
    for k in (1, 2, 3):
        F = dims('F', k)
        for kind in ('TB', 'B', ''):
            pre = dict(TB=['T', 'B'], B=['B'])
            sc = [isym(c) for c in kind]
            yield Spec('LossLayerImpl', '%s rank%d' % (kind or 'plain', k), {'default': tuple(kind) + syms(F)}, {'importance': lambda: S(sym('importance'))}, pos(*F),
                       {'outputs.loss': lambda i, F=F, sc=sc, kind=kind: nsum(sc + F, lambda j: rd(X, *j)) * imp / (B if kind else 1)}, sinks=('outputs.loss',), unit=('outputs.loss',), numdims=sizes(names(F)))


def bce(p, t):
    return -(t * log(clip(p, EPS6, 1)) + (1 - t) * log(clip(1 - p, EPS6, 1)))


def bce_plain(p, t):
    return -(t * log(p) + (1 - t) * log(1 - p))


def bn(k):
    F = dims('F', k)
    rest = [T, B] + F[:-1]
    N = ONE
    for d in rest:
        N = N * d
    eps, dec = sym('epsilon'), sym('decay')
    SB, CEN, XH = 'internals.sigma_b', 'internals.centered', 'internals.x_hat'
    mu = lambda f: nsum(rest, lambda j: rd(X, *(j + [f]))) / N
    var = lambda f: nsum(rest, lambda j: (rd(X, *(j + [f])) - mu(f)) ** 2) / N + eps
    g, b = (lambda f: rd('parameters.gamma', f)), (lambda f: rd('parameters.beta', f))
    kw = {'epsilon': lambda: S(sym('epsilon')), 'decay': lambda: S(sym('decay'))}
    fs = pos(*F) + [(-eps, 'lt'), (-dec, 'le'), (dec - 1, 'le')]
    nodes = {SB: lambda i: power(var(i[0]), Fraction(1, 2)), CEN: lambda i: rd(X, *i) - mu(i[-1]), XH: lambda i: rd(CEN, *i) / rd(SB, i[-1]),
             Y: lambda i: g(i[-1]) * rd(XH, *i) + b(i[-1])}
    lohi = {'epsilon': (0.1, 0.5), 'decay': (0.1, 0.9), 'parameters.sigma': (0.5, 1.5), SB: (0.5, 1.5)}
    yield Spec('BatchNormLayerImpl', 'training rank%d' % k, {'default': ('T', 'B') + syms(F)}, kw, fs, nodes, inline=[CEN, XH], squares={SB: lambda i: var(i[0])}, numdims=sizes(names(F)), lohi=lohi,
               grads=['gamma', 'beta'], params_written={'parameters.mu': lambda i: dec * rd('parameters.mu', *i) - (1 - dec) * mu(i[0]),
                                                        'parameters.sigma': lambda i: dec * rd('parameters.sigma', *i) + (1 - dec) * power(var(i[0]), Fraction(1, 2))})
    nodes2 = {CEN: lambda i: rd(X, *i) + rd('parameters.mu', i[-1]), Y: lambda i: g(i[-1]) * (rd(X, *i) + rd('parameters.mu', i[-1])) / rd('parameters.sigma', i[-1]) + b(i[-1])}
    yield Spec('BatchNormLayerImpl', 'not training rank%d' % k, {'default': ('T', 'B') + syms(F)}, kw, fs, nodes2, training=(False,), bwd=False, numdims=sizes(names(F)), lohi=lohi)


def all_specs():
    for act in ACTS:
        for kin in (1, 2, 3):
            for kout in (1, 2, 3):
                yield fc(act, kin, kout)
        for kin in (1, 2, 3):
            yield rnn(act, kin)
            yield cwrnn(act, kin)
            yield lstm(act, kin)
            yield lstm(act, kin, True)
    yield from rank_cases()
