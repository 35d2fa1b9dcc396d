"""C15: the schedules return the documented value for every configuration, count and interval, and the modifying hook
assigns exactly that value."""
from engine.poly import *
from engine.prover import *
from engine.rt import *
from engine import rt, verify, seq
from engine.verify import contract, lemma
from . import common

ASSUMPTIONS = [common.REALS, 'x ** k is the mathematical power', 'the timescale of a hook is "epoch" or "update" (checked by Hook.__init__, bounded)',
               'Linear: at least one change; intervals are positive; counts are not negative; MultiStep: steps are increasing and positive',
               'np.inf is larger than every count']
TRUSTED = ['engine/*.py', 'z3', common.EXTRACTION, common.KERNEL]

e, u, iv, n = [isym(x) for x in ('epoch', 'update', 'interval', 'n')]
NAT = [(-e, 'le'), (-u, 'le'), (1 - iv, 'le')]
DIMS = [dict(epoch=a, update=b, interval=c, n=d) for a, b, c, d in
        [(0, 0, 1, 1), (3, 9, 1, 4), (4, 0, 1, 4), (5, 2, 1, 4), (9, 30, 3, 3), (8, 30, 3, 3), (12, 30, 3, 3), (30, 7, 2, 3), (100, 51, 7, 5), (2, 100, 10, 40), (24, 25, 1, 25), (25, 24, 1, 25)]]


def counts(ts):
    return e if ts == 'epoch' else u


def linear(rec):
    from brainstorm.training.schedules import Linear
    i, f = sym('initial'), sym('final')
    for ts in ('epoch', 'update'):
        def run(ts=ts):
            s = Linear(S(i), S(f), S(n))
            return s(S(e), S(u), ts, S(iv), None, None, {})
        k = floordiv(counts(ts), iv)
        contract(rec, 'Linear(%s)' % ts, ['Linear.__call__', 'Linear.__init__'], NAT + [(1 - n, 'le')], run, lambda r: [
            ('initial + min(elapsed, num_changes) equal changes', P(r), ite(lt0(k - n, True), i + (f - i) * k / n, f))], dims=DIMS, items=[dict(kind='Linear')])
        # the consequences named in the property
        for j, (lab, fact, want) in enumerate([('starts at the initial value', [(counts(ts) - iv + 1, 'le')], i), ('reaches the final value after num_changes changes and stays', [(n - k, 'le')], f)]):
            contract(rec, 'Linear(%s)' % ts, 'Linear.__call__', NAT + [(1 - n, 'le')] + fact, run, lambda r, lab=lab, want=want: [(lab, P(r), want)], dims=DIMS, items=[dict(kind='Linear')])


def exponential(rec):
    from brainstorm.training.schedules import Exponential
    i, f, lo, hi = [sym(x) for x in ('initial', 'factor', 'minimum', 'maximum')]
    for ts in ('epoch', 'update'):
        for bounds in ('both', 'default'):
            def run(ts=ts, bounds=bounds):
                s = Exponential(S(i), S(f), S(lo), S(hi)) if bounds == 'both' else Exponential(S(i), S(f))
                return s(S(e), S(u), ts, S(iv), None, None, {})
            v = i * func('pow', f, floordiv(counts(ts), iv))
            l, h = (lo, hi) if bounds == 'both' else (-sym('inf'), sym('inf'))
            want = rmin(rmax(v, l), h)
            facts = NAT + ([(lo - hi, 'le')] if bounds == 'both' else [(v - h, 'lt'), (l - v, 'lt')])
            contract(rec, 'Exponential(%s, %s bounds)' % (ts, bounds), ['Exponential.__call__', 'Exponential.__init__'], facts, run,
                     lambda r: [('initial * factor ** elapsed within [minimum, maximum]', P(r), want)], dims=DIMS, lohi=dict(factor=(.1, 2.), minimum=(-3., .4), maximum=(.5, 3.), inf=(1e6, 1e7)), items=[dict(kind='Exponential')])


def decreasing(rec):
    from brainstorm.training.schedules import DecreaseAfterEpoch
    i = sym('initial')
    for ts in ('epoch', 'update'):
        def run(ts=ts):
            return DecreaseAfterEpoch(S(i), S(n))(S(e), S(u), ts, S(iv), None, None, {})
        contract(rec, 'DecreaseAfterEpoch(%s)' % ts, ['DecreaseAfterEpoch.__call__', 'DecreaseAfterEpoch.__init__'], NAT + [(1 - n, 'le')], run, lambda r: [
            ('constant for T epochs, then initial * T / epoch', P(r), ite(lt0(e - n, True), i, i * n / (e + 1)))], dims=DIMS, items=[dict(kind='DecreaseAfterEpoch')])


def multistep(rec):
    """for every list of increasing steps: the value that belongs to the last step reached"""
    from brainstorm.training.schedules import MultiStep
    import z3
    m, j = isym('m'), isym('j')
    st = lambda k: rd('steps', k)
    INT_ARRAYS.add('steps')
    i = sym('initial')
    zs, zm, q = z3.Function('r_steps_1', z3.IntSort(), z3.IntSort()), z3.Int('i_m'), z3.Int('q')
    # increasing (each step larger than the one before) and positive
    inc = z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < zm - 1), zs(q) < zs(q + 1)))
    # consequence, by induction over the distance
    a, b = z3.Int('a'), z3.Int('b')
    mono = z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a <= b, b < zm), zs(a) <= zs(b)))
    d, c = z3.Int('d'), z3.Int('c')
    lemma(rec, 'MultiStep lemma: increasing neighbours give increasing steps (induction step)', 'lemma',
          [inc, zm >= 2, c >= 0, d >= 0, c + d + 1 < zm, zs(c) <= zs(c + d)], zs(c) <= zs(c + d + 1))
    for ts in ('epoch', 'update'):
        cur = counts(ts)

        def run(ts=ts):
            s = MultiStep(S(i), seq.SymList('steps', m, is_int=True), seq.SymList('values', m))
            return s(S(e), S(u), ts, 1, None, None, {})
        base = [(-e, 'le'), (-u, 'le'), (-m, 'le'), inc, mono, z3.Implies(zm > 0, zs(0) > 0), (e - sym('inf'), 'lt'), (u - sym('inf'), 'lt')]
        dims = [dict(epoch=x, update=x, m=y, j=z) for x in (0, 1, 3, 4, 5, 9, 20) for y, z in ((0, 0), (1, 0), (3, 0), (3, 1), (3, 2))]
        arr = dict(steps=lambda k: [1, 4, 9][int(k)] if 0 <= k < 3 else 10 ** 6 * (1 if k >= 0 else -1))
        # j: the number of steps reached
        fs = ['MultiStep.__call__', 'MultiStep.__init__']
        it = [dict(kind='MultiStep')]
        contract(rec, 'MultiStep(%s): no step reached' % ts, fs, base + [z3.Implies(zm > 0, z_poly(cur) < zs(0))], run, lambda r: [('initial value', P(r), i)], dims=[d for d in dims if d['m'] == 0 or d['epoch'] < 1], arrays=arr, items=it)
        contract(rec, 'MultiStep(%s): exactly the steps up to number j reached' % ts, fs, base + [(-j, 'le'), (j + 1 - m, 'le'), (st(j) - cur, 'le'), z3.Or(z3.Int('i_j') + 1 == zm, z_poly(cur) < zs(z3.Int('i_j') + 1))],
                 run, lambda r: [('the value listed with step j', P(r), rd('values', j))],
                 dims=[d for d in dims if d['j'] < d['m'] and [1, 4, 9][d['j']] <= d['epoch'] and (d['j'] + 1 == d['m'] or d['epoch'] < [1, 4, 9][d['j'] + 1])], arrays=arr, items=it)

        def run2(ts=ts):
            s = MultiStep(S(i), [1], [2])
            return s(S(e), S(u), ts, S(iv), None, None, {})
        contract(rec, 'MultiStep(%s): intervals other than 1' % ts, fs, [(-e, 'le'), (-u, 'le'), (2 - iv, 'le')], run2, lambda r: [], raises=ONE, dims=[d for d in DIMS if d['interval'] > 1], items=it)
    m2 = isym('m2')
    contract(rec, 'MultiStep: lists of different length', ['MultiStep.__init__'], [(-m, 'le'), (-m2, 'le')], lambda: MultiStep(S(i), seq.SymList('steps', m, is_int=True), seq.SymList('values', m2)),
             lambda r: [], raises=1 - eq0(m - m2, True), dims=[dict(m=x, m2=y) for x in range(3) for y in range(3)], items=it)


class Stepper(object):
    learning_rate = None
    momentum = None


def hook(rec):
    """the hook calls the schedule once with the current counts, its own timescale and interval, and assigns what it returns"""
    from brainstorm.hooks import ModifyStepperAttribute
    for ts in ('epoch', 'update'):
        for attr in ('learning_rate', 'momentum'):
            other = 'momentum' if attr == 'learning_rate' else 'learning_rate'
            net, logs = object(), {}

            def run():
                calls = []

                def sched(*a):
                    calls.append(a)
                    return 'VALUE'
                st = Stepper()
                h = ModifyStepperAttribute(sched, attr, ts, S(iv))
                st.learning_rate = st.momentum = 'old'
                h.start(net, st, False, {})
                r = h(epoch_nr=S(e), update_nr=S(u), net=net, stepper=st, logs=logs)
                return calls, st, r, h
            def post(x):
                calls, st, r, h = x
                ok = len(calls) == 1 and len(calls[0]) == 7
                yield 'one call of the schedule', ok
                if ok:
                    c = calls[0]
                    yield 'epoch passed on', P(c[0]), e
                    yield 'update passed on', P(c[1]), u
                    yield 'timescale passed on', c[2] == ts
                    yield 'interval passed on', P(c[3]), iv
                    yield 'network, stepper and logs passed on', c[4] is net and c[5] is st and c[6] is logs
                yield 'assigned to the attribute', getattr(st, attr) == 'VALUE'
                yield 'no other attribute changed', getattr(st, other) == 'old' and set(vars(st)) == {'learning_rate', 'momentum'}
                yield 'nothing to log', r is None
            contract(rec, 'ModifyStepperAttribute(%s, %s)' % (ts, attr), ['ModifyStepperAttribute.__call__', 'ModifyStepperAttribute.start', 'Hook.__init__', 'Hook.start'], NAT, run, post, dims=DIMS, items=[dict(kind='hook')])


def tasks(tier):
    for f in (linear, exponential, decreasing, multistep, hook):
        yield f.__name__, f
