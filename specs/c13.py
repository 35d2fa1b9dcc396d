"""C13: Trainer.train and its helpers for any number of hooks, epochs and batches."""
import contextlib, io
from engine.poly import *
from engine.prover import *
from engine.rt import *
from engine import rt, verify, handler, tensor, seq
from engine.verify import contract, lemma
from . import common
from .ghost import Tok
from .c18 import patched

ASSUMPTIONS = ['hooks, steppers, iterators and the network do not change the epoch and update counters, the list of hooks or the timescale and interval of hooks while they run',
               'intervals are positive integers']
TRUSTED = ['engine/*.py', 'z3', common.EXTRACTION, common.KERNEL]
E, U = isym('epoch_nr'), isym('update_nr')


class Stop(StopIteration):
    pass


class GHook(object):
    """any hook: what it does when called is given by the variant"""

    def __init__(self, i, variant):
        self.i, self.variant = i, variant
        self.timescale, self.outcome = variant
        INT_ARRAYS.add('interval')
        self.interval = mk(rd('interval', i))
        self.__name__ = Tok('name', i.key)
        self.verbose = Tok('verbose', i.key)
        self.priority = 1

    def start(self, net, stepper, verbose, named_data_iters):
        seq.emit('start', self, net, stepper, verbose, named_data_iters)

    def __call__(self, *a, **k):
        seq.emit('call', self, a, tuple(sorted(k.items(), key=lambda x: x[0])))
        if self.outcome == 'value':
            return Tok('log', self.i.key)
        if self.outcome == 'nothing':
            return None
        if self.outcome == 'stop':
            raise StopIteration()
        if self.outcome == 'stop value':
            e = StopIteration(Tok('log', self.i.key))
            raise e
        raise RuntimeError('hook fails')


def any_trainer(variants):
    from brainstorm.training.trainer import Trainer
    seq.TRACE[:] = [[]]
    seq.TRACKED[:] = []
    tr = Trainer.__new__(Trainer)
    tr.stepper = Stepper()
    tr.verbose = False
    tr.train_scorers = Tok('scorers')
    tr.logs, tr.results = {}, {}
    tr.current_epoch_nr, tr.current_update_nr = S(E), S(U)
    hooks = seq.Coll('hooks', lambda i, v: GHook(i, v), variants)

    class Hooks(object):
        def items(self):
            return seq.Coll2(hooks, lambda i, v: (hooks.at(i, v).__name__, hooks.at(i, v)))

        def values(self):
            return hooks
    tr.hooks = Hooks()
    return tr, hooks


class Stepper(object):
    def start(self, net):
        seq.emit('stepper.start', net)

    def run(self):
        seq.emit('step')


VARIANTS = [(t, o) for t in ('update', 'epoch') for o in ('value', 'nothing', 'stop', 'stop value')]
INTERVALS = [(-isym('len_hooks'), 'le'), (-E, 'le'), (-U, 'le')]


def emit_hooks(rec):
    for scale in ('update', 'epoch'):
        for given in (False, True):
            def run():
                tr, hooks = any_trainer(VARIANTS)
                logs = Tok('given logs') if given else None
                tr._add_log = lambda name, val, verbose=None, logs=None, indent=0: seq.emit('log', name, val, verbose, logs) if val is not None else None
                net = Tok('net')
                r = tr._emit_hooks(net, scale, logs=logs) if given else tr._emit_hooks(net, scale)
                return r, tr, hooks, net, logs, seq.TRACE[0]

            def post(x):
                r, tr, hooks, net, logs, trace = x
                if not trace:
                    yield 'nothing runs only if there are no hooks', hooks.n, ZERO
                    yield 'no stop requested', b01(r) if not isinstance(r, bool) else P(int(r)), ZERO
                    return
                ok = len(trace) == 1 and isinstance(trace[0], seq.Block) and seq.base_coll(trace[0].coll) is hooks and trace[0].until is None
                yield 'one pass over all hooks in the order they were added', ok
                if not ok:
                    return
                b = trace[0]
                count = U if scale == 'update' else E
                due = lambda h: eq0(rt.modulo(count, P(h.interval)), True)
                seen = set()
                for v, g, ev in b.cases:
                    h = hooks.at(b.index, v)
                    ran = bool(ev)
                    d = seq.under(g, due(h), [(1 - P(h.interval), 'le')])
                    seen.add((v, ran))
                    if v[0] != scale:
                        yield 'hooks of the other timescale do not run', not ran
                        continue
                    yield 'runs exactly when the count is a multiple of the interval (%s)' % v[1], d == (1 if ran else 0)
                    if not ran:
                        continue
                    yield 'called once', [e[0] for e in ev][:1] == ['call'] and sum(e[0] == 'call' for e in ev) == 1 and ev[0][1] is h
                    kw = dict(ev[0][3])
                    yield 'with the current numbers, network, stepper and logs', ev[0][2] == () and set(kw) == {'epoch_nr', 'update_nr', 'net', 'stepper', 'logs'} and kw['net'] is net and kw['stepper'] is tr.stepper and kw['logs'] is tr.logs
                    if 'epoch_nr' in kw:
                        yield 'epoch number', P(kw['epoch_nr']), E
                        yield 'update number', P(kw['update_nr']), U
                    logged = [e for e in ev if e[0] == 'log']
                    if v[1] in ('value', 'stop value'):
                        yield 'its value is logged once under its name (%s)' % v[1], len(logged) == 1 and logged[0][1] is h.__name__ and isinstance(logged[0][2], Tok) and logged[0][2].what == ('log', h.i.key)
                        if logged:
                            yield 'with its verbosity, in the right logs', logged[0][3] is h.verbose and (logged[0][4] is logs)
                    else:
                        yield 'nothing is logged (%s)' % v[1], not logged
                want = {(v, x) for v in VARIANTS for x in ((True, False) if v[0] == scale else (False,))}
                yield 'all kinds of hooks, due and not', seen == want
                # the returned flag: some hook that ran asked to stop
                ns = sorted(syms_in(b01(r))) if not isinstance(r, bool) else []
                ok = len(ns) == 1 and ns[0] in seq.ANY and r is not None and (b01(r) - lt0(isym(ns[0]))) == ZERO
                yield 'stop is requested if any hook asks for it', ok
                if ok:
                    coll, i, cs = seq.ANY[ns[0]]
                    yield 'over all hooks', seq.base_coll(coll) is hooks
                    for v, g, c in cs:
                        h = hooks.at(i, v)
                        d = seq.under(g, due(h), [(1 - P(h.interval), 'le')])
                        asks = 1 if v[0] == scale and v[1].startswith('stop') and d == 1 else 0
                        yield 'exactly the hooks that ran and raised StopIteration ask to stop (%s, %s)' % v, c, P(asks)
            contract(rec, 'Trainer._emit_hooks[%s%s]' % (scale, ', other logs' if given else ''), ['Trainer._emit_hooks', 'Trainer._call_hook'], INTERVALS, run, post, items=[dict(kind='protocol')])


def failing_hook(rec):
    """an error of a hook is not swallowed"""
    def run():
        tr, hooks = any_trainer([('update', 'error')])
        with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
            try:
                r = tr._call_hook(hooks.at(isym('k'), ('update', 'error')), Tok('net'))
            except RuntimeError:
                return 'raised'
        return r
    contract(rec, 'Trainer._call_hook[failing hook]', 'Trainer._call_hook', INTERVALS + [(-isym('k'), 'le')], run, lambda r: [('the error reaches the caller', r == 'raised')], items=[dict(kind='protocol')])


def start_hooks(rec):
    def run():
        tr, hooks = any_trainer([('update', 'value'), ('epoch', 'value')])
        net, its = Tok('net'), Tok('iters')
        tr._start_hooks(net, its)
        return tr, hooks, net, its, seq.TRACE[0]

    def post(x):
        tr, hooks, net, its, trace = x
        if not trace:
            yield 'no hooks', hooks.n, ZERO
            return
        ok = len(trace) == 1 and isinstance(trace[0], seq.Block) and seq.base_coll(trace[0].coll) is hooks and trace[0].until is None
        yield 'all hooks in order', ok
        for v, g, ev in (trace[0].cases if ok else ()):
            yield 'started once with network, stepper, verbosity and iterators', len(ev) == 1 and ev[0][:2] == ('start', hooks.at(trace[0].index, v)) and ev[0][2] is net and ev[0][3] is tr.stepper and ev[0][4] is tr.verbose and ev[0][5] is its
    contract(rec, 'Trainer._start_hooks', 'Trainer._start_hooks', INTERVALS, run, post, items=[dict(kind='protocol')])


class TNet(object):
    class _B(object):
        class Input(object):
            outputs = {'default': 0, 'targets': 0}

    def __init__(self):
        self.buffer = self._B()
        self.handler = Tok('handler')

    def get_loss_values(self):
        return {'total_loss': 0}

    def provide_external_data(self, data, all_inputs=True):
        seq.emit('data', data, all_inputs)

    def apply_weight_modifiers(self):
        seq.emit('modify')

    def forward_pass(self, *a, **k):
        seq.emit('forward')

    def backward_pass(self):
        seq.emit('backward')


def train(rec):
    import brainstorm.training.trainer as TR
    import brainstorm.scorers as M

    def run():
        tr, hooks = any_trainer([('update', 'value')])
        tr.train_scorers = [Tok('scorer')]
        tr.train_scorers[0].__name__ = 'sc'
        net = TNet()
        batches = seq.Coll('batches', lambda i, v: Tok('batch', i.key))
        seq.TRACKED[:] = [(tr, 'current_epoch_nr'), (tr, 'current_update_nr')]

        class It(object):
            data_shapes = {'targets': 0, 'default': 0}

            def __call__(self, handler=None):
                seq.emit('iterate', handler, P(tr.current_epoch_nr))
                return batches

        def start_hooks(net_, its):
            seq.emit('start hooks', net_, dict(its))

        def emit_hooks(net_, scale, logs=None):
            # its contract: the due hooks run; whether one asks to stop is arbitrary
            s = SB(lt0(isym(seq.name('stop_' + scale))))
            seq.emit('hooks', scale, net_, logs, s, P(tr.current_epoch_nr), P(tr.current_update_nr))
            return s

        def gather_(net_, scorers, scores, *a, **k):
            seq.emit('gather', net_, scorers, scores, a, k, sorted(scores))

        def aggregate_(scores, net_, scorers):
            seq.emit('aggregate', scores, net_, scorers)
            return Tok('results')
        tr._start_hooks, tr._emit_hooks = start_hooks, emit_hooks
        tr._add_log = lambda name, val, verbose=None, logs=None, indent=0: seq.emit('log', name, val)
        it = It()
        val = Tok('validation')
        seq.WHILE[0] = True
        try:
            with patched((TR, M), gather_losses_and_scores=gather_, aggregate_losses_and_scores=aggregate_):
                tr.train(net, it, valid=val)
        finally:
            seq.WHILE[0] = False
        return tr, net, it, val, batches, seq.TRACE[0]

    def post(x):
        tr, net, it, val, batches, trace = x
        k = [e[0] if isinstance(e, tuple) else 'block' for e in trace]
        yield 'stepper started once, then the hooks', k[:2] == ['stepper.start', 'start hooks'] and trace[0][1] is net and trace[1][1] is net and set(trace[1][2]) == {'valid', 'training_data_iter'} and trace[1][2]['training_data_iter'] is it and trace[1][2]['valid'] is val
        pre = trace[2:]
        yield 'update hooks before training', bool(pre) and pre[0][:2] == ('hooks', 'update') and pre[0][2] is net and pre[0][3] is None
        first = pre[0]
        yield 'at the current numbers', (first[5] - E).key + (first[6] - U).key == ZERO.key + ZERO.key
        s1 = seq.under([], b01(first[4]))
        if s1 == 1:
            yield 'a stop request before training prevents it', len(pre) == 1
            return
        yield 'epoch hooks before training', len(pre) > 1 and pre[1][:2] == ('hooks', 'epoch')
        s2 = seq.under([], b01(pre[1][4]))
        if s2 == 1:
            yield 'a stop request before training prevents it', len(pre) == 2
            return
        ok = len(pre) >= 3 and isinstance(pre[2], seq.Block) and pre[2].until is not None and seq.base_coll(pre[2].coll).endless
        yield 'then epochs until one asks to stop', ok
        if not ok:
            return
        loop = pre[2]
        flags = [(k_, v_[2]) for k_, v_ in seq.ANY.items() if v_[0] is loop.coll]
        asked = []
        for n_, (v, g, ev) in enumerate(loop.cases):
            a = []
            if not seq.possible(g):
                asked.append(None)
                continue
            for e in epoch(g, ev, net, it, batches, tr, E + 1 + loop.index, a):
                yield e
            asked.append(a[0] if a else None)
            if not a:
                return
            if not flags:
                yield 'training goes on only if nobody asked to stop', seq.under(g, a[0]) == 0
        rest = pre[3:]
        if flags:
            yield 'one stop flag, nothing happens after the last epoch', len(flags) == 1 and not rest and len(flags[0][1]) == len(asked)
            for (v, g, c), a in zip(flags[0][1], asked):
                if a is None:
                    continue
                yield 'the flag is set exactly if a hook asked to stop in this epoch', seq.assigned(c, g), seq.assigned(a, g)
        else:
            a = []
            for e in epoch([], rest, net, it, batches, tr, E + 1 + loop.until, a):
                yield e
            yield 'training ends only after an epoch in which a hook asked to stop', bool(a) and seq.under([], a[0]) == 1

    def epoch(g, ev, net, it, batches, tr, number, asked):
        kinds = [e[0] if isinstance(e, tuple) else 'block' for e in ev]
        blocks = [e for e in ev if isinstance(e, seq.Block)]
        yield 'each epoch runs the iterator once, from its start, with the handler', kinds[:1] == ['iterate'] and kinds.count('iterate') == 1 and ev[0][1] is net.handler
        stop, u0, done = ZERO, None, ZERO
        lists = []
        if not blocks:
            yield 'no batch is processed only if there is none', seq.under(g, eq0(batches.n, True)) == 1
            rest = ev[1:]
        else:
            b = blocks[0]
            yield 'one pass over the batches in order', len(blocks) == 1 and kinds[1] == 'block' and b.coll.n == batches.n and len(b.cases) == 1
            for v, g2, ev2 in b.cases:
                for e in batch(ev2, batches.at(b.index, None), net, tr, number, lists):
                    yield e
                u0 = ev2[-1][6] - b.index - 1
                yield 'the next batch follows only if no update hook asked to stop', seq.under(g2, b01(ev2[-1][4])) == 0
            rest = ev[2:]
            done = batches.n
            if b.until is not None:
                last = rest[:5]
                for e in batch(last, batches.at(b.until, None), net, tr, number, lists):
                    yield e
                if len(last) == 5 and last[-1][0] == 'hooks':
                    yield 'update number', last[-1][6], u0 + b.until + 1
                    yield 'batches are left out only if an update hook asked to stop', seq.under(g, b01(last[-1][4])) == 1
                stop = ONE
                done = b.until + 1
                rest = rest[5:]
            yield 'updates are counted one by one', not any('first' in y or 'i_batches' in y for y in syms_in(u0))
        rk = [e[0] if isinstance(e, tuple) else 'block' for e in rest]
        ok = rk == ['aggregate', 'log', 'hooks']
        yield 'after the batches the training scores are logged, then the epoch hooks run', ok and rest[1][1] == 'rolling_training' and isinstance(rest[1][2], Tok) and rest[1][2].what == ('results',) and rest[2][1] == 'epoch' and rest[2][2] is net
        if not ok:
            return
        yield 'scores of this epoch only', all(x is rest[0][1] for x in lists) and all(l == [] for l in rest[0][1].values())
        yield 'epoch number', rest[2][5], number
        if u0 is not None:
            yield 'update number at the end of the epoch', rest[2][6], u0 + done
        e = b01(rest[2][4])
        asked.append(stop + e - stop * e)

    def batch(ev, data, net, tr, number, lists):
        kinds = [e[0] if isinstance(e, tuple) else 'block' for e in ev]
        ok = kinds == ['data', 'step', 'gather', 'modify', 'hooks']
        yield 'a batch: its data, one step, scores, weight modifiers, then the update hooks', ok
        if not ok:
            return
        yield 'the data of this batch, all of it', ev[0][1] is data and bool(ev[0][2])
        yield 'update hooks of this network', ev[4][1] == 'update' and ev[4][2] is net and ev[4][3] is None
        yield 'scores of this network', ev[2][1] is net and ev[2][2] is tr.train_scorers and ev[2][6] == ['sc', 'total_loss']
        yield 'epoch number', ev[4][5], number
        lists.append(ev[2][3])
    contract(rec, 'Trainer.train', ['Trainer.train', 'run_network'], [(-isym('len_batches'), 'le'), (-E, 'le'), (-U, 'le')], run, post, items=[dict(kind='protocol')], limit=512)


def mismatch(rec):
    """data whose names are not those of the network are refused before anything happens"""
    def run():
        tr, hooks = any_trainer([('update', 'value')])
        it = Tok('it')
        it.data_shapes = {'default': 0}
        try:
            tr.train(TNet(), it)
        except Exception as e:
            return 'refused', seq.TRACE[0], e
        return 'accepted', [], None
    contract(rec, 'Trainer.train[other data names]', 'Trainer.train', INTERVALS, run, lambda x: [('refused, nothing ran', x[0] == 'refused' and not x[1])], items=[dict(kind='protocol')])


def add_log(rec):
    n = isym('n')
    for label, val in (('value', lambda: Tok('v')), ('number', lambda: S(sym('logged'))), ('zero', lambda: 0), ('empty', lambda: []), ('nested', lambda: {'x': Tok('vx'), 'y': {'z': Tok('vz'), 'none': None}, 'new': Tok('vn')}), ('nothing', lambda: None)):
        for existing in (False, True):
            for given in (False, True):
                for verbose in (None, False, True):
                    def run():
                        tr, hooks = any_trainer([('update', 'value')])
                        lst = lambda nm: seq.SymList(nm, n, elem=lambda i: Tok('old', nm, P(i).key))
                        other = lst('other')
                        logs = {'other': other}
                        if existing:
                            logs['h'] = lst('h') if label != 'nested' else {'x': lst('x'), 'y': {'z': lst('z'), 'keep': lst('keep')}}
                        if given:
                            target = logs
                        else:
                            tr.logs = target = logs
                        before = dict(tr.logs)
                        v = val()
                        with contextlib.redirect_stdout(io.StringIO()):
                            tr._add_log('h', v, verbose, logs=target) if given else tr._add_log('h', v, verbose)
                        return tr, target, v, other, before

                    def post(x):
                        tr, logs, v, other, before = x
                        yield 'other entries untouched', logs['other'] is other and P(other.__symlen__()) == n
                        if given:
                            yield 'only the given logs change', tr.logs == {} or set(tr.logs) == set(before)
                        if v is None:
                            yield 'nothing is recorded', set(logs) == ({'other', 'h'} if existing else {'other'})
                            return
                        want = [(('h',), v)] if label != 'nested' else [(('h', 'x'), v['x']), (('h', 'y', 'z'), v['y']['z']), (('h', 'new'), v['new'])]
                        for path, w in want:
                            l = logs
                            for q in path:
                                l = l[q]
                            was = existing and path[-1] != 'new'
                            if was:
                                yield 'one more entry: %s' % (path,), P(l.__symlen__()), n + 1
                                yield 'the new value is last', l.at(n) is w or type(w) is int and l.at(n) == w
                                i = isym('i_any')
                                Ctx.cur.push((-i, 'le'), (i + 1 - n, 'le'))
                                yield 'earlier values unchanged', isinstance(l.at(i), Tok) and l.at(i).what == ('old', path[-1], i.key)
                                Ctx.cur.pop()
                            else:
                                yield 'a list with the value: %s' % (path,), list(l) == [w]
                        if label == 'nested':
                            yield 'keys', set(logs['h']) == {'x', 'y', 'new'} and set(logs['h']['y']) == ({'z', 'keep'} if existing else {'z'})
                            if existing:
                                yield 'siblings untouched', P(logs['h']['y']['keep'].__symlen__()), n
                    contract(rec, 'Trainer._add_log[%s%s%s%s]' % (label, ', existing' if existing else '', ', given logs' if given else '', '' if verbose is None else ', verbose=%s' % verbose), 'Trainer._add_log', [(-n, 'le')], run, post, items=[dict(kind='protocol')])


def evaluation(rec):
    def run():
        tr, hooks = any_trainer([('update', 'value')])
        tr._start_hooks = lambda net, its: seq.emit('start', net, dict(its))
        tr._emit_hooks = lambda net, scale, logs=None: seq.emit('hooks', net, scale, logs)
        net, d = Tok('net'), Tok('data')
        return tr.evaluate(net, test=d), tr, net, d, seq.TRACE[0]

    def post(x):
        r, tr, net, d, ev = x
        yield 'hooks are started with the named data, then run once for each timescale into the results', [e[0] for e in ev] == ['start', 'hooks', 'hooks'] and ev[0][1:] == (net, {'test': d}) and {e[2] for e in ev[1:]} == {'epoch', 'update'} and all(e[1] is net and e[3] is tr.results for e in ev[1:])
        yield 'results returned', r is tr.results
    contract(rec, 'Trainer.evaluate', 'Trainer.evaluate', INTERVALS, run, post, items=[dict(kind='protocol')])


def add_hook(rec):
    """with any priorities of the hooks already there (up to four of them)"""
    from brainstorm.training.trainer import Trainer
    for k in range(5):
        for dup in ([False, True] if k else [False]):
            def run():
                tr = Trainer(Tok('stepper'), verbose=False)
                old = []
                for j in range(k):
                    h = Tok('h')
                    h.__name__, h.priority = 'n%d' % j, S(isym('priority%d' % j))
                    tr.hooks['n%d' % j] = h
                    old.append(h)
                new = Tok('new')
                new.__name__, new.priority = ('n%d' % (k - 1) if dup else 'fresh'), 0
                try:
                    tr.add_hook(new)
                except ValueError:
                    return 'refused', tr, old, new
                return 'added', tr, old, new

            def post(x):
                what, tr, old, new = x
                yield 'a second hook of the same name is refused', (what == 'refused') == dup
                yield 'hooks stay in the order they were added', list(tr.hooks.values()) == (old if dup else old + [new])
                if not dup:
                    yield 'known under its name', tr.hooks.get('fresh') is new
                    for j in range(k):
                        yield 'priority above that of earlier hooks', lt0(isym('priority%d' % j) - P(new.priority), True), ONE
            contract(rec, 'Trainer.add_hook[%d hooks%s]' % (k, ', same name' if dup else ''), ['Trainer.add_hook', 'Trainer.__init__'], [(-isym('priority%d' % j), 'le') for j in range(k)], run, post, dims=[{'priority%d' % j: (j * 7 + 3) % 5 for j in range(5)}], items=[dict(kind='protocol')])


def tasks(tier):
    for f in (emit_hooks, failing_hook, start_hooks, train, mismatch, add_log, evaluation, add_hook):
        yield f.__name__, f
