"""C15: schedules against their documented formula."""
import math
import numpy as np


def rand(ctx):
    return ctx.py.choice([0.0, 1.0, -1.0, 0.9, 1e-3, 10.0, ctx.py.uniform(-2, 2), ctx.py.uniform(0, 1)])


def ref(kind, a, cur, epoch, interval):
    k = cur // interval
    if kind == 'Linear':
        i, f, n = a
        return f if k > n else i + (f - i) / n * k
    if kind == 'Exponential':
        i, fa, lo, hi = a
        v = i * fa ** k
        return min(hi, max(lo, v))
    if kind == 'MultiStep':
        i, steps, vals = a
        r = i
        for s, v in zip(steps, vals):
            if cur >= s:
                r = v
        return r
    i, T = a
    return i if epoch + 1 <= T else i * T / (epoch + 1)


def conf(ctx):
    py = ctx.py
    kind = py.choice(['Linear', 'Exponential', 'MultiStep', 'DecreaseAfterEpoch'])
    if kind == 'Linear':
        return kind, (rand(ctx), rand(ctx), py.randint(1, 12))
    if kind == 'Exponential':
        lo, hi = py.choice([(-np.inf, np.inf), (0.01, np.inf), (-np.inf, 2.0), (0.1, 0.5), (-.5, .5)])
        return kind, (rand(ctx), py.choice([0.9, 0.5, 1.1, 1.0, -0.5, 0.0, 2.0]), lo, hi)
    if kind == 'MultiStep':
        n = py.randint(0, 4)
        steps = sorted(py.sample(range(1, 25), n))
        return kind, (rand(ctx), steps, [rand(ctx) for _ in range(n)])
    return kind, (rand(ctx), py.randint(1, 10))


def values(ctx):
    import brainstorm.training.schedules as S
    from brainstorm.hooks import ModifyStepperAttribute

    class St(object):
        learning_rate = None
        momentum = None
    for rep in range(ctx.n(800, 10000)):
        kind, a = conf(ctx)
        s = getattr(S, kind)(*[list(x) if isinstance(x, list) else x for x in a])
        iv = 1 if kind == 'MultiStep' else ctx.py.choice([1, 1, 2, 3, 7])
        ctx.count((kind, repr(a), iv), dict(schedule=kind, args=repr(a), interval=iv))
        ts = ctx.py.choice(['epoch', 'update'])
        attr = ctx.py.choice(['learning_rate', 'momentum'])
        hk = ModifyStepperAttribute(s, attr, ts, iv)
        st = St(); hk.start(None, st, False, {})
        order = list(range(0, 30)) + [1000, 12]
        if rep % 2:
            ctx.py.shuffle(order)
        for c in order:
            o = ctx.py.randint(0, 40)
            e, u = (c, o) if ts == 'epoch' else (o, c)
            want = ref(kind, a, c, e, iv)
            got = s(e, u, ts, iv, None, None, {})
            info = dict(schedule=kind, args=repr(a), epoch=e, update=u, timescale=ts, interval=iv)
            ctx.require(abs(got - want) <= 1e-9 * (1 + abs(want)), 'schedule value %r, documented value %r' % (got, want), **info)
            st.momentum = st.learning_rate = 'untouched'
            r = hk(epoch_nr=e, update_nr=u, net=None, stepper=st, logs={})
            ctx.require(getattr(st, attr) == got, 'value assigned by ModifyStepperAttribute', got=getattr(st, attr), want=got, **info)
            other = 'momentum' if attr == 'learning_rate' else 'learning_rate'
            ctx.require(getattr(st, other) == 'untouched' and r is None, 'other attributes untouched', **info)


def refuse(ctx):
    import brainstorm.training.schedules as S
    from brainstorm.hooks import ModifyStepperAttribute
    for iv in range(2, ctx.n(6, 40)):
        ctx.count(('refuse', iv))
        ctx.raises(AssertionError, lambda: S.MultiStep(1., [3], [2.])(1, 1, 'epoch', iv, None, None, {}), 'MultiStep with interval %d' % iv)
    ctx.raises(AssertionError, lambda: S.MultiStep(1., [3, 4], [2.]), 'MultiStep with unequal lists')
    ctx.raises(AssertionError, lambda: ModifyStepperAttribute(S.Linear(1., 2., 3), 'nope').start(None, object(), False, {}), 'unknown attribute')


def in_training(ctx):
    """the value used in the k-th update is the schedule at the hook calls before it"""
    import brainstorm as bs, contextlib, io
    import brainstorm.training.schedules as S
    from brainstorm.training.steppers import TrainingStepper
    from brainstorm.hooks import ModifyStepperAttribute, StopAfterEpoch
    from .c13 import setup
    for rep in range(ctx.n(20, 200)):
        net, it, x = setup(ctx, ctx.py.randint(1, 5), ctx.py.randint(1, 3))
        used = []

        class St(TrainingStepper):
            learning_rate = -1.0

            def run(self):
                used.append(self.learning_rate)
                self.net.forward_pass(training_pass=True); self.net.backward_pass()
        kind, a = conf(ctx); iv = 1 if kind == 'MultiStep' else ctx.py.choice([1, 2, 3]); ts = ctx.py.choice(['epoch', 'update'])
        t = bs.Trainer(St(), verbose=False)
        t.add_hook(ModifyStepperAttribute(getattr(S, kind)(*[list(q) if isinstance(q, list) else q for q in a]), timescale=ts, interval=iv)); t.add_hook(StopAfterEpoch(4))
        ctx.count(('train', rep))
        with contextlib.redirect_stdout(io.StringIO()):
            t.train(net, it)
        L = it.length
        for u, got in enumerate(used):
            e = u // L
            c = e if ts == 'epoch' else u
            c = c // iv * iv
            ep = c if ts == 'epoch' else ((c + L - 1) // L)
            want = ref(kind, a, c, ep, iv)
            ctx.require(abs(got - want) <= 1e-9 * (1 + abs(want)), 'value used in update %d' % (u + 1), got=got, want=want, schedule=kind, args=repr(a), timescale=ts, interval=iv, batches=L)


CASES = [values, refuse, in_training]


def replay(ctx, item):
    """the contract on concrete configurations of the function a failed obligation belongs to"""
    refuse(ctx)
    values(ctx)
