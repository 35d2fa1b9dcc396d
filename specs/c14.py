"""C14: stopping and saving hooks for every history of logged values."""
import contextlib, io
from engine.poly import *
from engine.prover import *
from engine.rt import *
from engine import rt, verify, handler, tensor, seq
from engine.tensor import bigmax
from engine.verify import contract, lemma
from . import common
from .ghost import Tok
from .c18 import first_max

ASSUMPTIONS = ['logged values are real numbers or marked as not finite; comparisons of NaN are outside the proofs', 'numpy.argmin/argmax return the first position of the extreme value',
               'handler.is_fully_finite tells whether all values are finite (C07)', 'Network.get returns an independent copy (C05)']
TRUSTED = ['engine/*.py', 'z3', common.EXTRACTION, common.KERNEL]
n, EP, UP = isym('n'), isym('epoch_nr'), isym('update_nr')
BASE = [(-EP, 'le'), (-UP, 'le'), (1 - n, 'le')]
DIMS = [dict(n=1, epoch_nr=0, update_nr=0, patience=1, max_epochs=1), dict(n=4, epoch_nr=3, update_nr=9, patience=2, max_epochs=3), dict(n=6, epoch_nr=7, update_nr=7, patience=1, max_epochs=9), dict(n=3, epoch_nr=2, update_nr=5, patience=3, max_epochs=2)]
e = lambda i: rd('log', i)
LOHI = None


def logs_with(path):
    d = {'other': Tok('other')}
    c = d
    ks = path.split('.')
    for k in ks[:-1]:
        c[k] = {}
        c = c[k]
    c[ks[-1]] = seq.SymList('log', n)
    return d


def outcome(h, logs, net=None, epoch=None):
    h.start(net, None, False, {})
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            r = h(epoch_nr=S(EP) if epoch is None else epoch, update_nr=S(UP), net=net, stepper=None, logs=logs)
    except StopIteration:
        return 'stop'
    return 'go', r


def stops(x):
    return ONE if x == 'stop' else ZERO


def early(rec):
    from brainstorm.hooks import EarlyStopper
    pat = isym('patience')
    for crit in ('min', 'max'):
        for path in ('l', 'a.b.c'):
            for ts in ('epoch', 'update'):
                best = first_max(lambda i: -e(i) if crit == 'min' else e(i), n)
                old = le0(pat - (n - 1 - best), True)
                contract(rec, 'EarlyStopper[%s, %s, %s]' % (crit, path, ts), ['EarlyStopper.__call__', 'EarlyStopper.__init__', 'get_by_path'], BASE + [(1 - pat, 'le')],
                         lambda: outcome(EarlyStopper(path, S(pat), crit, timescale=ts), logs_with(path)),
                         lambda x: [('stops exactly if the first best value is at least patience checks old', stops(x), old)], dims=DIMS, items=[dict(kind='early')])
    for epoch in (0, 3):
        def run():
            try:
                return outcome(EarlyStopper('not.there', S(pat)), {'other': 1}, epoch=epoch)
            except KeyError:
                return 'error'
        contract(rec, 'EarlyStopper[no log, epoch %d]' % epoch, 'EarlyStopper.__call__', BASE, run, lambda x: [('before training a missing log is accepted, later it is an error', x == (('go', None) if epoch == 0 else 'error'))], items=[dict(kind='early')])
    refuse(rec, 'EarlyStopper', lambda: EarlyStopper('x', 1, 'mean'))


def refuse(rec, name, make):
    def run():
        try:
            make()
        except (ValueError, AssertionError):
            return 'refused'
        return 'accepted'
    contract(rec, '%s[unknown criterion]' % name, '%s.__init__' % name, BASE, run, lambda x: [('refused', x == 'refused')], items=[dict(kind='early')])


def threshold(rec):
    from brainstorm.hooks import StopAfterThresholdReached
    th = sym('threshold')
    for crit in ('min', 'max'):
        for path in ('l', 'a.b.c'):
            reached = le0(bigmax(ZERO, n, e) * -1 + th) if crit == 'max' else le0(-th - bigmax(ZERO, n, lambda i: -e(i)))
            contract(rec, 'StopAfterThresholdReached[%s, %s]' % (crit, path), ['StopAfterThresholdReached.__call__', 'StopAfterThresholdReached.__init__'], BASE,
                     lambda: outcome(StopAfterThresholdReached(path, S(th), crit), logs_with(path)),
                     lambda x: [('stops exactly if the %s value has reached the threshold' % ('largest' if crit == 'max' else 'smallest'), stops(x), reached)], dims=DIMS, items=[dict(kind='others')])
    refuse(rec, 'StopAfterThresholdReached', lambda: StopAfterThresholdReached('x', 1, 'mean'))
    # the extreme value has reached the threshold iff some value has
    f, k, m, q, N = z3.Function('f', z3.IntSort(), z3.RealSort()), z3.Int('k'), z3.Int('m'), z3.Real('q'), z3.Int('N')
    is_max = z3.And(m >= 0, m < N, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < N), f(k) <= f(m))))
    lemma(rec, 'the largest value is at least the threshold iff some value is', 'lemma', [is_max], (f(m) >= q) == z3.Exists([k], z3.And(k >= 0, k < N, f(k) >= q)))


def epochs(rec):
    from brainstorm.hooks import StopAfterEpoch
    mx = isym('max_epochs')
    for ts in ('epoch', 'update'):
        contract(rec, 'StopAfterEpoch[%s]' % ts, ['StopAfterEpoch.__call__', 'StopAfterEpoch.__init__'], BASE, lambda: outcome(StopAfterEpoch(S(mx), timescale=ts), {}),
                 lambda x: [('stops exactly from the given epoch on', stops(x), le0(mx - EP, True))], dims=DIMS, items=[dict(kind='others')])


class Handler(object):
    def is_fully_finite(self, a):
        return SB(1 - eq0(sym('finite_' + a.what[0])))


class Net(object):
    class B(object):
        pass

    def __init__(self):
        self.handler = Handler()
        self.buffer = Net.B()
        self.buffer.parameters = Tok('parameters')


def notfinite(rec):
    from brainstorm.hooks import StopOnNan
    import itertools

    def bad(nm):
        return 1 - eq0(SUM(ZERO, n, lambda i: 1 - eq0(func('nonfinite', rd(nm, i)))))
    for names, cp, ct, rt_ in itertools.product([(), 'a', ('a', 'b.c')], (False, True), (False, True), (None, 'total_loss', 'Loss', 'both')):
        lst = [names] if isinstance(names, str) else list(names)

        def run():
            logs = {'a': seq.SymList('a', n), 'b': {'c': seq.SymList('b.c', n)}, 'unchecked': seq.SymList('unchecked', n)}
            if rt_:
                logs['rolling_training'] = {}
                if rt_ in ('total_loss', 'both'):
                    logs['rolling_training']['total_loss'] = seq.SymList('loss', n)
                if rt_ == 'Loss':
                    logs['rolling_training']['Loss'] = seq.SymList('loss', n)
                if rt_ == 'both':
                    logs['rolling_training']['Loss'] = seq.SymList('other loss', n)
            return outcome(StopOnNan(names, cp, ct), logs, Net())

        def post(x):
            ok = ONE
            for nm in lst:
                ok = ok * (1 - bad(nm))
            if cp:
                ok = ok * (1 - eq0(sym('finite_parameters')))
            if ct and rt_:
                ok = ok * (1 - bad('loss'))
            yield 'stops exactly if something that is checked is not finite', stops(x), 1 - ok
        contract(rec, 'StopOnNan[%r, parameters %s, training loss %s, %s]' % (names, cp, ct, rt_), ['StopOnNan.__call__', 'StopOnNan.__init__'], BASE, run, post, items=[dict(kind='nan')])


class PNet(object):
    def __init__(self):
        self.calls = []

    def get(self, name):
        self.calls.append(('get', name))
        return Tok('copy of', name, 'now')

    def save_as_hdf5(self, f, *a, **k):
        self.calls.append(('save', f))


def best(rec):
    from brainstorm.hooks import SaveBestNetwork
    b = sym('best_so_far')
    inf = sym('inf')
    last = rd('log', n - 1)
    for crit in ('min', 'max'):
        for ts in ('epoch', 'update'):
            for to_file in (False, True):
                for state in ('first', 'later'):
                    def run():
                        h = SaveBestNetwork('a.l', 'some file' if to_file else None, crit, timescale=ts)
                        if state == 'later':
                            h.best_so_far, h.best_t, h.parameters = S(b), Tok('t'), Tok('old parameters')
                        net = PNet()
                        was = (h.best_so_far, h.best_t, getattr(h, 'parameters', None))
                        r = outcome(h, logs_with('a.l'), net)
                        return h, net, was, r

                    better = (lt0(last - b) if crit == 'min' else lt0(b - last)) if state == 'later' else ONE

                    def post(x):
                        h, net, was, r = x
                        saved = bool(net.calls)
                        yield 'never asks to stop', r != 'stop'
                        yield 'saves exactly if the newest value is better than the best so far', P(int(saved)) if not any(c[0] == 'save' for c in net.calls) or to_file else P(-1), better
                        yield 'best value so far', P(h.best_so_far), better * last + (1 - better) * (b if state == 'later' else ZERO)
                        if saved:
                            yield 'time of the best value', P(h.best_t), EP if ts == 'epoch' else UP
                            if to_file:
                                yield 'network saved to the file once', [c for c in net.calls if c[0] == 'save'] == [('save', 'some file')]
                            else:
                                yield 'a copy of the current parameters is kept', isinstance(h.parameters, Tok) and h.parameters.what == ('copy of', 'parameters', 'now')
                                yield 'and returned', h.load_best_network() is h.parameters
                        else:
                            yield 'the earlier best is kept', h.best_t is was[1] and getattr(h, 'parameters', None) is was[2]
                    # before the first call the best value is +-infinity, which every finite value improves on
                    facts = BASE + ([(last - inf, 'lt'), (-inf - last, 'lt')] if state == 'first' else [])
                    contract(rec, 'SaveBestNetwork[%s, %s, %s, %s]' % (crit, ts, 'file' if to_file else 'memory', state), ['SaveBestNetwork.__call__', 'SaveBestNetwork.__init__', 'SaveBestNetwork.load_best_network'], facts, run, post, dims=DIMS, lohi=dict(inf=(1e6, 1e7)), items=[dict(kind='best')])
    # the invariant over any history: the state belongs to the earliest best value (strict improvement only)
    f, k = z3.Function('f', z3.IntSort(), z3.RealSort()), z3.Int('k')
    m, t, m2 = z3.Ints('m t m2')
    inv = lambda t, m: z3.And(0 <= m, m <= t, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k <= t), f(m) <= f(k))), z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < m), f(m) < f(k))))
    lemma(rec, 'the kept value stays the earliest best value of the history (induction step)', 'lemma', [t >= 0, inv(t, m), m2 == z3.If(f(t + 1) < f(m), t + 1, m)], inv(t + 1, m2))
    refuse(rec, 'SaveBestNetwork', lambda: SaveBestNetwork('x', None, 'mean'))
    for epoch in (0, 3):
        def run():
            try:
                return outcome(SaveBestNetwork('not.there'), {'other': 1}, PNet(), epoch=epoch)
            except KeyError:
                return 'error'
        contract(rec, 'SaveBestNetwork[no log, epoch %d]' % epoch, 'SaveBestNetwork.__call__', BASE, run, lambda x: [('before training a missing log is accepted, later it is an error', x == (('go', None) if epoch == 0 else 'error'))], items=[dict(kind='best')])

    def again():
        from brainstorm.describable import create_from_description, get_description
        out = []
        for crit in ('min', 'max'):
            h = SaveBestNetwork('a.l', None, crit)
            h.best_so_far, h.best_t = 3.5, 4
            out.append(create_from_description(get_description(h)))
        return out
    import numpy as np
    contract(rec, 'SaveBestNetwork[re-created]', 'SaveBestNetwork.__init_from_description__', BASE, again, lambda hs: [('starts anew', hs[0].best_so_far == np.inf and hs[1].best_so_far == -np.inf and hs[0].best_t is None)], items=[dict(kind='best')])


def save(rec):
    from brainstorm.hooks import SaveNetwork

    def run():
        net = PNet()
        r = outcome(SaveNetwork('some file'), {}, net)
        return r, net
    contract(rec, 'SaveNetwork', 'SaveNetwork.__call__', BASE, run, lambda x: [('saves the network once to the file', x[1].calls == [('save', 'some file')] and x[0] != 'stop')], items=[dict(kind='save')])


def tasks(tier):
    for f in (early, threshold, epochs, notfinite, best, save):
        yield f.__name__, f
