"""C13: the training loop's protocol, against an independent model of the event sequence."""
import io, contextlib, copy
import numpy as np
from .util import Fail


def setup(ctx, n_seq, bsz):
    import brainstorm as bs
    from brainstorm.layers import Input, FullyConnected, SquaredError, Loss
    from brainstorm.data_iterators import Minibatches
    x = np.zeros((1, n_seq, 1)); x[0, :, 0] = np.arange(n_seq)
    y = ctx.rng.rand(1, n_seq, 1)
    inp = Input(out_shapes={'default': ('T', 'B', 1), 'targets': ('T', 'B', 1)})
    fc = FullyConnected(1, name='fc'); se = SquaredError(name='se')
    inp >> fc >> 'default' - se
    inp - 'targets' >> 'targets' - se
    net = bs.Network.from_layer(se - 'loss' >> Loss())
    net.initialize(0.1)
    net.output_name = 'fc.outputs.default'
    return net, Minibatches(bsz, False, default=x, targets=y), x


class Log(list):
    limit = 10 ** 9

    def append(self, x):
        list.append(self, x)
        if len(self) > self.limit:
            raise Fail('training goes on after it should have stopped', dict(last_events=self[-5:]))


class Tracer(object):
    def __init__(self):
        self.ev = Log()


def make_parts(tr):
    from brainstorm.hooks import Hook
    from brainstorm.training.steppers import TrainingStepper
    from brainstorm.value_modifiers import ValueModifier

    class Stepper(TrainingStepper):
        def start(self, net):
            super(Stepper, self).start(net); tr.ev.append(('start',))

        def run(self):
            tr.ev.append(('step', tuple(self.net.get_input('default')[0, :, 0])))
            self.net.forward_pass(training_pass=True); self.net.backward_pass()

    class Mod(ValueModifier):
        def __call__(self, handler, view):
            tr.ev.append(('modify',))

        def __deepcopy__(self, memo):
            return self

    class H(Hook):
        def __init__(self, name, timescale, interval, stop_at, value, stop_value=None):
            super(H, self).__init__(name, timescale, interval, False)
            self.stop_at, self.value, self.stop_value, self.n = stop_at, value, stop_value, 0

        def start(self, net, stepper, verbose, named):
            super(H, self).start(net, stepper, verbose, named); tr.ev.append(('hookstart', self.__name__, tuple(sorted(named))))

        def __call__(self, epoch_nr, update_nr, net, stepper, logs):
            self.n += 1
            tr.ev.append(('hook', self.__name__, epoch_nr, update_nr))
            if self.stop_at is not None and (epoch_nr, update_nr) >= self.stop_at[:2] and self.n >= self.stop_at[2]:
                raise StopIteration(self.stop_value)
            return self.value(self.n) if self.value else None
    return Stepper, Mod, H


def model(hooks, batches, e0, u0, logs, names, max_ev=5000):
    """hooks: list of H in order (spec only). yields events"""
    ev = [('start',)] + [('hookstart', h['name'], names) for h in hooks]
    cnt = {h['name']: h['n0'] for h in hooks}

    def add(name, val, logs):
        if val is None:
            return
        if isinstance(val, dict):
            sub = logs.setdefault(name, {})
            for k, v in val.items():
                add(k, v, sub)
        else:
            logs.setdefault(name, []).append(val)

    def emit(ts, e, u):
        stop = False
        c = e if ts == 'epoch' else u
        for h in hooks:
            if h['timescale'] != ts or c % h['interval']:
                continue
            cnt[h['name']] += 1; n = cnt[h['name']]
            ev.append(('hook', h['name'], e, u))
            if h['stop_at'] is not None and (e, u) >= tuple(h['stop_at'][:2]) and n >= h['stop_at'][2]:
                stop = True; add(h['name'], h['stop_value'], logs)
            else:
                add(h['name'], h['value'](n) if h['value'] else None, logs)
        return stop
    e, u = e0, u0
    if emit('update', e, u) or emit('epoch', e, u):
        return ev, e, u, cnt
    while True:
        e += 1; stop = False
        for b in batches:
            u += 1
            ev.append(('step', b)); ev.append(('modify',))
            if emit('update', e, u):
                stop = True; break
        if emit('epoch', e, u) or stop:
            return ev, e, u, cnt


VALUES = [None, lambda n: n, lambda n: {'a': n, 'b': {'c': n * 2, 'd': None}}, lambda n: n if n % 2 else None, lambda n: [n, n], lambda n: 0, lambda n: {'x': 0.0}]


def protocol(ctx):
    import brainstorm as bs
    for rep in range(ctx.n(150, 2500)):
        if ctx.out_of_time():
            return
        py = ctx.py
        nseq, bsz = py.randint(1, 7), py.randint(1, 4)
        net, it, x = setup(ctx, nseq, bsz)
        batches = [tuple(x[0, i:i + bsz, 0]) for i in range(0, nseq, bsz)]
        tr = Tracer(); Stepper, Mod, H = make_parts(tr)
        net.set_weight_modifiers({'fc': {'W': Mod()}})
        specs = []
        for i in range(py.randint(0, 5)):
            stop = None
            if py.random() < .4:
                stop = (py.randint(0, 4), py.randint(0, 12), py.randint(1, 4))
            val = py.choice(VALUES)
            isd = val is not None and isinstance(val(1), dict)
            specs.append(dict(name=py.choice('abcdefgh') + str(i), timescale=py.choice(['epoch', 'update']), interval=py.choice([1, 1, 2, 3, 5]), stop_at=stop, value=val,
                              stop_value=py.choice([None, {'s': 1}] if isd else [None, 7.5]), n0=0))
        # something must stop the training
        specs.insert(py.randint(0, len(specs)), dict(name='end', timescale=py.choice(['epoch', 'update']), interval=py.choice([1, 2, 3]), stop_at=(py.randint(0, 5), py.randint(0, 9), 1), value=None, stop_value=None, n0=0))
        t = bs.Trainer(Stepper(), verbose=False)
        hs = []
        for s in specs:
            h = H(*[s[k] for k in ('name', 'timescale', 'interval', 'stop_at', 'value', 'stop_value')]); t.add_hook(h); hs.append(h)
        info = dict(nseq=nseq, batch=bsz, hooks=[{k: (v if not callable(v) else 'fn%d' % VALUES.index(v)) for k, v in s.items()} for s in specs])
        ctx.count(('proto', rep), info)
        logs = {}; e = u = 0
        for run in range(2 if rep % 3 == 0 else 1):
            names = ('extra', 'training_data_iter') if rep % 2 else ('training_data_iter',)
            want, e, u, cnt = model(specs, batches, e, u, logs, names)
            for s in specs:
                s['n0'] = cnt[s['name']]
            tr.ev[:] = []; tr.ev.limit = len(want) + 300
            with contextlib.redirect_stdout(io.StringIO()):
                t.train(net, it, **({'extra': it} if rep % 2 else {}))
            if tr.ev != want:
                k = next((i for i, (a, b) in enumerate(zip(tr.ev, want)) if a != b), min(len(tr.ev), len(want)))
                ctx.require(False, 'event %d is %s, the contract says %s' % (k, tr.ev[k] if k < len(tr.ev) else 'missing', want[k] if k < len(want) else 'nothing more'), got=tr.ev[:60], want=want[:60], **info)
            ctx.require((t.current_epoch_nr, t.current_update_nr) == (e, u), 'epoch and update counters', got=(t.current_epoch_nr, t.current_update_nr), want=(e, u), **info)
            got = {k: v for k, v in t.logs.items() if k != 'rolling_training'}
            ctx.require(got == logs, 'logs', got=got, want=logs, **info)
            rt = t.logs.get('rolling_training', {})
            ctx.require(all(len(v) == e for v in rt.values()), 'one rolling training entry per epoch', **info)


def rolling(ctx):
    """the rolling training scores are computed from the batches of the epoch as they were when trained on"""
    import brainstorm as bs
    from brainstorm.training.steppers import TrainingStepper
    from brainstorm.hooks import StopAfterEpoch
    from brainstorm.scorers import MeanSquaredError
    for rep in range(ctx.n(15, 150)):
        nseq, bsz = ctx.py.randint(1, 7), ctx.py.randint(1, 4)
        net, it, x = setup(ctx, nseq, bsz); rec = []

        class S(TrainingStepper):
            def run(self):
                self.net.forward_pass(training_pass=True)
                rec.append((self.net.get_input('default').shape[1], self.net.get_loss_values()['total_loss']))
                self.net.backward_pass()
                self.net.buffer.parameters[...] += .01
        t = bs.Trainer(S(), verbose=False); t.add_hook(StopAfterEpoch(2)); t.train_scorers = [MeanSquaredError()]
        ctx.count(('rolling', rep))
        with contextlib.redirect_stdout(io.StringIO()):
            t.train(net, it)
        per = [rec[i:i + it.length] for i in range(0, len(rec), it.length)]
        want = [sum(n * l for n, l in r) / sum(n for n, _ in r) for r in per]
        ctx.close(np.array(t.logs['rolling_training']['total_loss']), np.array(want), 'rolling training loss', nseq=nseq, batch=bsz)
        ctx.close(np.array(t.logs['rolling_training']['MeanSquaredError']), np.array(want), 'rolling training score', nseq=nseq, batch=bsz, tol=1e-6)


def misc(ctx):
    import brainstorm as bs
    from brainstorm.hooks import Hook
    for rep in range(ctx.n(10, 50)):
        net, it, x = setup(ctx, 3, 2)
        tr = Tracer(); Stepper, Mod, H = make_parts(tr)
        t = bs.Trainer(Stepper(), verbose=False)
        t.add_hook(H('a', 'epoch', 1, None, lambda n: n)); ctx.count(('misc', rep))
        ctx.raises(ValueError, lambda: t.add_hook(H('a', 'update', 1, None, None)), 'two hooks of the same name')
        pr = [H(c, ctx.py.choice(['epoch', 'update']), 1, None, lambda n, c=c: c) for c in 'dcb']
        for h in pr:
            t.add_hook(h)
        # evaluate: all due hooks once, epoch hooks first, into the results
        with contextlib.redirect_stdout(io.StringIO()):
            r = t.evaluate(net, extra=it)
        order = [n for ts in ('epoch', 'update') for n, h in t.hooks.items() if h.timescale == ts]
        ctx.require([e[1] for e in tr.ev if e[0] == 'hook'] == order, 'hooks of evaluate', got=tr.ev)
        ctx.require(r == {'a': [1], 'b': ['b'], 'c': ['c'], 'd': ['d']} and t.logs == {}, 'results of evaluate', got=r, logs=t.logs)

        class Bad(Hook):
            def __call__(self, **k):
                raise KeyError('boom')
        t.add_hook(Bad('bad', verbose=False))
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            ctx.raises(KeyError, lambda: t.train(net, it), 'an error in a hook must surface')
        import brainstorm.data_iterators as D
        bad = D.Undivided(default=np.zeros((1, 2, 1)))
        with contextlib.redirect_stdout(io.StringIO()):
            ctx.raises(AssertionError, lambda: bs.Trainer(Stepper(), verbose=False).train(net, bad), 'iterator without the needed names')


CASES = [protocol, rolling, misc]


def replay(ctx, item):
    """the event sequence of real training runs"""
    for f in CASES:
        f(ctx)
