"""C18: scores of batches, their aggregation over any number of batches, evaluate and extract."""
from engine.poly import *
from engine.prover import *
from engine.rt import *
from engine import rt, verify, handler, tensor, seq, fastloop
from engine.tensor import input_array, View, assign_to
from engine.verify import contract, lemma
from . import common
from .ghost import Tok

ASSUMPTIONS = [common.REALS, common.NUMPY, 'numpy.argmax returns the first position of the maximum']
TRUSTED = ['engine/*.py', 'z3', common.EXTRACTION, common.KERNEL]
N, F, T, B = isym('N'), isym('F'), isym('T'), isym('B')
DIMS = [dict(N=3, F=3, T=2, B=2), dict(N=2, F=2, T=1, B=3), dict(N=1, F=4, T=3, B=1)]


def first_max(row, n):
    INT_FUNCS.add('amp0')
    return func('amp0', row(ZERO) - 1, P(-1), fastloop.spec_list([(ZERO, P(n))], lambda q: (row(q[0]), q[0])))


def per_row(kind, p, y, f, thr):
    """score of one row: p(c), y(c) entries"""
    if kind == 'Accuracy':
        return eq0((first_max(p, f) if f != ONE else p(ZERO)) - y(ZERO))
    if kind == 'Hamming':
        def one(c):
            low, pos = lt0(p(c) - thr), 1 - eq0(y(c))
            return low * (1 - pos) + (1 - low) * pos
        return SUM(ZERO, f, one) / f
    return P(Fraction(1, 2)) * SUM(ZERO, f, lambda c: (y(c) - p(c)) ** 2)


def scorer(rec):
    import brainstorm.scorers as M
    thr = sym('threshold')
    for kind in ('Accuracy', 'Hamming', 'MeanSquaredError'):
        for f in (ONE, F):
            for masked in (False, True):
                tf = ONE if kind == 'Accuracy' else f

                def run():
                    y, p = input_array('y', [N, tf]), input_array('p', [N, f])
                    m = input_array('m', [N, ONE]) if masked else None
                    s = M.Hamming(S(thr)) if kind == 'Hamming' else getattr(M, kind)()
                    r = s(y, p, m) if masked else s(y, p)
                    return r, y, p, m

                def at(n, i, c, w):
                    return rd(n, i) if w == ONE else rd(n, i, c)

                def post(x):
                    r, y, p, m = x
                    yield 'sum of the scores of the rows%s' % (' weighted by the mask' if masked else ''), P(r), SUM(ZERO, N, lambda i: per_row(kind, lambda c: at('p', i, c, f), lambda c: at('y', i, c, tf), f, thr) * (rd('m', i) if masked else 1))
                    i, c = free_index(0, N), free_index(0, f)
                    yield 'predictions unchanged', p.get([i] + ([] if f == ONE else [c])), at('p', i, c, f), (i, c)
                    c2 = free_index(0, tf)
                    yield 'targets unchanged', y.get([i] + ([] if tf == ONE else [c2])), at('y', i, c2, tf), (i, c2)
                    if masked:
                        yield 'mask unchanged', m.get([i]), rd('m', i), (i,)
                contract(rec, '%s[%s features%s]' % (kind, 'one' if f == ONE else 'several', ', masked' if masked else ''), ['%s.__call__' % kind], [(1 - N, 'le'), (2 - F, 'le')], run, post, dims=DIMS,
                         arrays=None, items=[dict(kind=kind)])


def aggregate(rec):
    import brainstorm.scorers as M
    n = isym('n')
    tot = SUM(ZERO, n, lambda j: rd('w', j))
    for nm, fn, want in (('Scorer.aggregate', lambda l: M.Scorer.aggregate(l), SUM(ZERO, n, lambda j: rd('s', j)) / tot),
                         ('_weighted_average', lambda l: M._weighted_average(l), SUM(ZERO, n, lambda j: rd('w', j) * rd('s', j)) / tot)):
        def run():
            l = seq.SymList('pairs', n, elem=lambda j: (mk(rd('w', j)), mk(rd('s', j))))
            return fn(l)
        contract(rec, nm, nm, [(1 - n, 'le'), (-tot, 'lt')], run, lambda r: [('over any number of batches', P(r), want)], dims=[dict(n=1), dict(n=4)], lohi=dict(w=(1., 9.)), items=[dict(kind='aggregate')])
    # cutting the data set [0, N) anywhere: the sums over the parts add up to the sum over the whole (induction step over batches)
    c1, c2 = isym('c1'), isym('c2')
    with Context([(-c1, 'le'), (c1 - c2, 'le'), (c2 - N, 'le')]):
        j = free_index(0, N)
        f = lambda lo, hi: le0(lo - j, True) * lt0(j - hi, True)
        rec.check('cutting the data into batches: every entry up to the end of a batch is in the earlier batches or in this one, never both', 'lemma', f(ZERO, c1) + f(c1, c2), f(ZERO, c2), free=(j,), dims=[dict(c1=2, c2=5, N=7), dict(c1=0, c2=3, N=3)])
    z = [z3.Real(x) for x in ('S1', 'W1', 'S2', 'W2')]
    lemma(rec, 'loss: weighting a batch average by its batch size gives the sum over its sequences', 'lemma', [z[1] > 0], z[1] * (z[0] / z[1]) == z[0])


class GNet(object):
    """a network as far as scoring may rely on it"""

    def __init__(self, losses=('L1', 'total_loss')):
        self.handler = Tok('handler')
        self.output_name = 'net.out'
        self._buffer_manager = Tok('manager')
        self._buffer_manager.batch_size = S(B)
        self.losses = losses

    def get_loss_values(self):
        from collections import OrderedDict
        return OrderedDict((l, S(sym('loss_' + l))) for l in self.losses)

    def get(self, name):
        return input_array('get_' + name, [T, B, F])

    def get_input(self, name):
        return input_array('in_' + name, [T, B, ONE] if name.startswith('m') else [T, B, F])

    def provide_external_data(self, data, all_inputs=True):
        seq.emit('data', data, all_inputs)

    def forward_pass(self, training_pass=False, context=None):
        seq.emit('forward', training_pass, context)

    def backward_pass(self):
        seq.emit('backward')


class AnyScorer(object):
    """a scorer nothing is known about: its value is recorded with the arrays it is given"""

    def __init__(self, out, targets, mask, name='sc'):
        self.out_name, self.targets_name, self.mask_name, self.__name__ = out, targets, mask, name
        self.calls = []

    def __call__(self, true_labels, predicted, mask=None):
        self.calls.append((true_labels, predicted, mask))
        return S(sym('score_%s_%d' % (self.__name__, len(self.calls))))

    def aggregate(self, pairs):
        return Tok('aggregated', self, pairs)


def gather(rec):
    import brainstorm.scorers as M
    combos = [(so, st, sm, co, ct, cm) for so in ('', 's.o') for st in ('', 'ts') for sm in ('', 'ms') for co in ('', 'c.o') for ct in ('targets', 'tc') for cm in ('', None, 'mc')]

    for combo in combos:
        so, st, sm, co, ct, cm = combo

        def run():
            net = GNet()
            sc = [AnyScorer(so, st, sm, 'a'), AnyScorer('x.y', 'z', '', 'b')]
            scores = {'a': [], 'b': [('old', 1)], 'L1': [], 'total_loss': [('older', 2)], 'unrelated': []}
            M.gather_losses_and_scores(net, sc, scores, out_name=co, targets_name=ct, mask_name=cm)
            return net, sc, scores

        def post(x):
            net, sc, scores = x
            yield 'one entry per loss and scorer', [len(scores[k]) for k in ('a', 'b', 'L1', 'total_loss', 'unrelated')] == [1, 2, 1, 2, 0]
            if [len(scores[k]) for k in ('a', 'b', 'L1', 'total_loss', 'unrelated')] != [1, 2, 1, 2, 0]:
                return
            for l in ('L1', 'total_loss'):
                yield 'loss %s weighted by the batch size' % l, P(scores[l][-1][0]), B
                yield 'loss %s' % l, P(scores[l][-1][1]), sym('loss_' + l)
            for s, names in ((sc[0], (so or co or 'net.out', st or ct, sm or cm)), (sc[1], ('x.y', 'z', cm))):
                yield 'scorer called once', len(s.calls) == 1
                y, p, m = s.calls[0]
                yield 'score recorded', P(scores[s.__name__][-1][1]), sym('score_%s_1' % s.__name__)
                t, b, c = free_index(0, T), free_index(0, B), free_index(0, F)
                yield 'rows', P(p.shape[0]), T * B
                yield 'outputs named by the scorer, the call or the network, flattened by time and batch', p.get([t, b, c]), rd('get_' + names[0], t, b, c), (t, b, c)
                yield 'targets', y.get([t, b, c]), rd('in_' + names[1], t, b, c), (t, b, c)
                if names[2]:
                    yield 'mask given', m is not None
                    if m is not None:
                        yield 'mask', m.get([t, b]), rd('in_' + names[2], t, b), (t, b)
                        yield 'weight: sum of the mask', P(scores[s.__name__][-1][0]), SUM(ZERO, T, lambda t: SUM(ZERO, B, lambda b: rd('in_' + names[2], t, b)))
                else:
                    yield 'no mask', m is None
                    yield 'weight: number of entries', P(scores[s.__name__][-1][0]), T * B
        contract(rec, 'gather_losses_and_scores%r' % (combo,), ['gather_losses_and_scores', '_flatten_all_but_last'], [(1 - T, 'le'), (1 - B, 'le'), (1 - F, 'le')], run, post, dims=DIMS, items=[dict(kind='names')])


def results(rec):
    """aggregate_losses_and_scores: every loss by the batch weighted average, every scorer by its own aggregation"""
    import brainstorm.scorers as M
    n = isym('n')
    tot = SUM(ZERO, n, lambda j: rd('w', j))

    def run():
        net = GNet()
        sc = [AnyScorer('', '', '', 'a'), AnyScorer('', '', '', 'b')]
        lists = {k: seq.SymList(k, n, elem=lambda j, k=k: (mk(rd('w', j)), mk(rd('v_' + k, j)))) for k in ('a', 'b', 'L1', 'total_loss', 'unrelated')}
        return M.aggregate_losses_and_scores(lists, net, sc), sc, lists

    def post(x):
        r, sc, lists = x
        yield 'names', list(r) == ['L1', 'total_loss', 'a', 'b']
        for l in ('L1', 'total_loss'):
            yield 'weighted average of %s' % l, P(r[l]), SUM(ZERO, n, lambda j: rd('w', j) * rd('v_' + l, j)) / tot
        for s in sc:
            a = r[s.__name__]
            yield 'aggregated by the scorer over its own list', isinstance(a, Tok) and a.what[0] == 'aggregated' and a.what[1] is s and a.what[2] is lists[s.__name__]
    contract(rec, 'aggregate_losses_and_scores', 'aggregate_losses_and_scores', [(1 - n, 'le'), (-tot, 'lt')], run, post, dims=[dict(n=1), dict(n=4)], lohi=dict(w=(1., 9.)), items=[dict(kind='names')])


def loss_values(rec):
    from brainstorm.structure.network import Network
    for k in range(0, 5):
        def run():
            net = Network.__new__(Network)
            net.loss_layers = ['l%d' % j for j in range(k)]
            net.get = lambda path: S(sym('value_of_' + path))
            return net.get_loss_values()

        def post(r):
            vals = {'l%d' % j: sym('value_of_l%d.outputs.loss' % j) for j in range(k)}
            if k == 1:
                yield 'single loss', list(r) == ['total_loss']
            else:
                yield 'one entry per loss layer and the total', sorted(r) == sorted(list(vals) + ['total_loss'])
                for n_, v in vals.items():
                    if n_ in r:
                        yield 'loss of %s' % n_, P(r[n_]), v
            if 'total_loss' in r:
                t = ZERO
                for v in vals.values():
                    t = t + v
                yield 'total is the sum', P(r['total_loss']), t
        contract(rec, 'Network.get_loss_values[%d loss layers]' % k, 'Network.get_loss_values', [], run, post, items=[dict(kind='losses')])


def evaluation(rec):
    """evaluate: every batch of the iterator, in order: data in, one inference forward pass, scores gathered"""
    import brainstorm.tools as Tl
    import brainstorm.scorers as M

    def run():
        seq.TRACE[:] = [[]]
        net = GNet()
        batches = seq.Coll('batches', lambda i, v: Tok('batch', i))

        def it(handler=None):
            seq.emit('iterate', handler)
            return batches
        sc = [AnyScorer('', '', '', 'a'), AnyScorer('', '', '', 'b')]
        start = {}

        def gather_(net_, scorers, scores, out_name='', targets_name='targets', mask_name=''):
            start.setdefault('scores', {k: list(v) for k, v in scores.items()})
            seq.emit('gather', net_, scorers, scores, out_name, targets_name, mask_name)

        def aggregate_(scores, net_, scorers):
            seq.emit('aggregate', scores, net_, scorers)
            return Tok('results')
        with patched((Tl, M), gather_losses_and_scores=gather_, aggregate_losses_and_scores=aggregate_):
            r = Tl.evaluate(net, it, sc, out_name='o', targets_name='t', mask_name='m')
        return r, net, batches, sc, start, seq.TRACE[0]

    def post(x):
        r, net, batches, sc, start, tr = x
        kinds = [e[0] if isinstance(e, tuple) else 'block' for e in tr]
        if kinds == ['iterate', 'aggregate']:
            yield 'no batch processed only if there is none', batches.n, ZERO
        else:
            ok = kinds == ['iterate', 'block', 'aggregate']
            yield 'the iterator is run once, all batches are processed, then aggregated', ok
            if not ok:
                return
            b = tr[1]
            yield 'all batches, in order', b.coll.n == batches.n and b.until is None and len(b.cases) == 1
            ev = b.cases[0][2]
            ok = [e[0] for e in ev] == ['data', 'forward', 'gather']
            yield 'per batch: data, one forward pass, scores', ok
            if ok:
                yield 'data of this batch, all of it', ev[0][1] is batches.at(b.index, None) and bool(ev[0][2])
                yield 'not a training pass', ev[1][1] is False and ev[1][2] is None
                g = ev[2]
                yield 'names are handed on', g[1] is net and list(g[2]) == sc and g[4:] == ('o', 't', 'm')
                yield 'the same lists in every batch', g[3] is tr[-1][1]
        yield 'uses the handler of the network', tr[0][1] is net.handler
        if start:
            yield 'lists are empty before the first batch, one per scorer and loss', start['scores'] == {'a': [], 'b': [], 'L1': [], 'total_loss': []}
        yield 'result is the aggregation', isinstance(r, Tok) and r.what == ('results',) and tr[-1][2] is net and list(tr[-1][3]) == sc
    contract(rec, 'evaluate', ['evaluate', 'run_network'], [(-isym('len_batches'), 'le')], run, post, items=[dict(kind='scores')])


from contextlib import contextmanager


@contextmanager
def patched(mods, **fns):
    """callees replaced by their contracts"""
    old = []
    for m in mods:
        for k, f in fns.items():
            if hasattr(m, k):
                old.append((m, k, getattr(m, k)))
                setattr(m, k, f)
    try:
        yield
    finally:
        for m, k, f in reversed(old):
            setattr(m, k, f)


def extraction(rec):
    """extract with one to three batches of any sizes (number of batches bounded, sizes and contents not)"""
    import brainstorm.tools as Tl
    for k in (1, 2, 3):
        for bufs in (['u'], ['u', 'v'], 'u'):
            bs = [isym('B%d' % j) for j in range(k)]
            tot = ZERO
            for b in bs:
                tot = tot + b

            class ENet(GNet):
                def __init__(self):
                    GNet.__init__(self)
                    self.now = None
                    self.log = []

                def provide_external_data(self, data, all_inputs=True):
                    self.now = data
                    self.log.append('data')

                def forward_pass(self, training_pass=False, context=None):
                    self.log.append(('forward', training_pass, context))

                def get(self, name):
                    v = input_array('%s_%d' % (name, self.now), [T, bs[self.now], F] + ([isym('G')] if name == 'v' else []))
                    return v

            class It(object):
                data_shapes = {'default': (S(T), S(tot), S(F))}

                def __call__(self, handler=None):
                    return iter(range(k))

            def run():
                net = ENet()
                return Tl.extract(net, It(), bufs), net

            def post(x):
                r, net = x
                names = [bufs] if isinstance(bufs, str) else bufs
                yield 'requested names', sorted(r) == sorted(names)
                yield 'every batch is run once, outside training', net.log == ['data', ('forward', False, None)] * k
                for n_ in names:
                    a = r[n_]
                    tail = [F] + ([isym('G')] if n_ == 'v' else [])
                    yield '%s: shape' % n_, [P(s).key for s in a.shape] == [P(s).key for s in [T, tot] + tail]
                    off = ZERO
                    for j in range(k):
                        t, b = free_index(0, T), free_index(0, bs[j])
                        rest = [free_index(0, q) for q in tail]
                        yield '%s: batch %d in its place' % (n_, j), a.get([t, off + b] + rest), rd('%s_%d' % (n_, j), t, b, *rest), [t, b] + rest
                        off = off + bs[j]
            contract(rec, 'extract[%d batches, %s]' % (k, bufs), ['extract', 'run_network'], [(1 - x, 'le') for x in bs + [T, F, isym('G')]], run, post,
                     dims=[dict(T=2, F=2, G=2, B0=2, B1=3, B2=1), dict(T=1, F=1, G=3, B0=1, B1=1, B2=2)], items=[dict(kind='extract')])


def tasks(tier):
    for f in (scorer, aggregate, gather, results, loss_values, evaluation, extraction):
        yield f.__name__, f
