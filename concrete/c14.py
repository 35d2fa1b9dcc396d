"""C14: stopping and saving hooks against their documented condition, for generated log histories."""
import os, shutil, tempfile, math
import numpy as np


def call(h, epoch, update, net, logs, stepper=None):
    """True iff the hook asks to stop"""
    h.start(net, stepper, False, {})
    try:
        h(epoch_nr=epoch, update_nr=update, net=net, stepper=stepper, logs=logs)
        return False
    except StopIteration:
        return True


def histories(ctx):
    py = ctx.py
    kind = py.randint(0, 4)
    n = py.randint(1, 9)
    if kind == 0:
        return [float(py.randint(-2, 2)) for _ in range(n)]
    if kind == 1:
        return [py.uniform(-1, 1) for _ in range(n)]
    if kind == 2:
        return [1.0] * n
    if kind == 3:
        return sorted([py.uniform(-1, 1) for _ in range(n)], reverse=py.random() < .5)
    return [py.choice([float('inf'), -float('inf'), 0.0, -1.0, 1e300, 2.0]) for _ in range(n)]


def nested(ctx, hist):
    path = ctx.py.choice(['v', 'mon.Loss', 'a.b.c'])
    logs = {'other': [1, 2]}
    d = logs
    ks = path.split('.')
    for k in ks[:-1]:
        d[k] = {'zz': [0.]}; d = d[k]
    d[ks[-1]] = list(hist)
    return path, logs


def early(ctx):
    from brainstorm.hooks import EarlyStopper
    for rep in range(ctx.n(1500, 20000)):
        h = histories(ctx); path, logs = nested(ctx, h)
        pat = ctx.py.randint(1, 6); crit = ctx.py.choice(['min', 'max'])
        ts = ctx.py.choice(['epoch', 'update'])
        hk = EarlyStopper(path, pat, crit, timescale=ts)
        best = h.index(min(h) if crit == 'min' else max(h))
        want = (len(h) - 1 - best) >= pat
        info = dict(history=h, patience=pat, criterion=crit)
        ctx.count(('early', tuple(h), pat, crit), info)
        for ep in (0, ctx.py.randint(1, 20)):
            got = call(hk, ep, ep * 3, None, logs)
            ctx.require(got == want, 'EarlyStopper %s, contract: %s' % ('stops' if got else 'goes on', 'stop' if want else 'go on'), **info)
            ctx.require(not call(EarlyStopper('not.there', pat, crit), 0, 0, None, logs), 'no log before training must be accepted', **info)
        ctx.raises(KeyError, lambda: call(EarlyStopper('not.there', pat, crit), 1, 1, None, logs), 'a missing log during training')
    ctx.raises(ValueError, lambda: EarlyStopper('x', 1, 'mean'), 'unknown criterion')
    # history: fires at the first moment it is due, over growing logs
    for rep in range(ctx.n(200, 2000)):
        h = histories(ctx); pat = ctx.py.randint(1, 3); crit = ctx.py.choice(['min', 'max'])
        hk = EarlyStopper('l', pat, crit)
        for n in range(1, len(h) + 1):
            p = h[:n]; best = p.index(min(p) if crit == 'min' else max(p))
            ctx.require(call(hk, n, n, None, {'l': p}) == (n - 1 - best >= pat), 'EarlyStopper over a growing history', history=p, patience=pat, criterion=crit)


def others(ctx):
    from brainstorm.hooks import StopAfterEpoch, StopAfterThresholdReached
    for rep in range(ctx.n(1000, 10000)):
        h = histories(ctx); path, logs = nested(ctx, h); crit = ctx.py.choice(['min', 'max'])
        thr = ctx.py.choice(h + [0.0, 1.5, -1.5])
        ctx.count(('thr', tuple(h), thr, crit))
        want = any((x <= thr) if crit == 'min' else (x >= thr) for x in h)
        got = call(StopAfterThresholdReached(path, thr, crit), len(h), 3, None, logs)
        ctx.require(got == want, 'StopAfterThresholdReached', history=h, threshold=thr, criterion=crit, stops=got)
        m, e = ctx.py.randint(0, 6), ctx.py.randint(0, 8)
        got = call(StopAfterEpoch(m, timescale=ctx.py.choice(['epoch', 'update'])), e, ctx.py.randint(0, 50), None, {})
        ctx.require(got == (e >= m), 'StopAfterEpoch', max_epochs=m, epoch=e, stops=got)
    ctx.raises(ValueError, lambda: StopAfterThresholdReached('x', 1, 'mean'), 'unknown criterion')


def small_net(ctx):
    import brainstorm as bs
    from brainstorm.handlers import NumpyHandler
    from brainstorm.layers import Input, FullyConnected
    net = bs.Network.from_layer(Input(out_shapes={'default': ('T', 'B', 2)}) >> FullyConnected(2, name='A') >> FullyConnected(3, name='B'))
    net.set_handler(NumpyHandler(np.float64))
    net.initialize(0.5)
    return net


def nan(ctx):
    from brainstorm.hooks import StopOnNan
    net = small_net(ctx)
    bad = [np.nan, np.inf, -np.inf]
    for rep in range(ctx.n(800, 8000)):
        py = ctx.py
        P = net.buffer.parameters
        P[...] = ctx.rng.randn(*P.shape) * 10. ** py.randint(-300, 150)
        pbad = py.random() < .4
        if pbad:
            P[py.randint(0, P.size - 1)] = py.choice(bad)
        else:
            P[py.randint(0, P.size - 1)] = py.choice([1e308, -1e308, 0.0])
        logs, isbad = {}, {}
        for nm in ('a', 'b.c', 'd'):
            hist = [py.uniform(-1, 1) for _ in range(py.randint(1, 5))]
            isbad[nm] = py.random() < .3
            if isbad[nm]:
                hist[py.randint(0, len(hist) - 1)] = py.choice(bad)
            d = logs
            ks = nm.split('.')
            for k in ks[:-1]:
                d = d.setdefault(k, {})
            d[ks[-1]] = hist
        rt = py.choice([None, 'total_loss', 'Loss'])
        rbad = False
        if rt:
            hist = [py.uniform(-1, 1) for _ in range(py.randint(1, 4))]
            rbad = py.random() < .4
            if rbad:
                hist[py.randint(0, len(hist) - 1)] = py.choice(bad)
            logs['rolling_training'] = {rt: hist}
        names = py.sample(['a', 'b.c', 'd'], py.randint(0, 3))
        cp, ct = py.random() < .6, py.random() < .6
        arg = names[0] if len(names) == 1 and py.random() < .5 else (tuple(names) if py.random() < .5 else names)
        want = any(isbad[n] for n in names) or (cp and pbad) or (ct and rbad)
        got = call(StopOnNan(arg, cp, ct), 2, 5, net, logs)
        info = dict(logs=logs, checked=names, check_parameters=cp, check_training_loss=ct, parameters_bad=pbad)
        ctx.count(('nan', rep), info if rep < 2 else None)
        ctx.require(got == want, 'StopOnNan %s' % ('stops' if got else 'goes on'), **info)


def best(ctx):
    import brainstorm as bs
    from brainstorm.hooks import SaveBestNetwork
    tmp = tempfile.mkdtemp(prefix='c14_')
    try:
        for rep in range(ctx.n(60, 600)):
            net = small_net(ctx)
            tofile = rep % 3 == 0
            f = os.path.join(tmp, 'n.h5') if tofile else None
            crit = ctx.py.choice(['min', 'max']); ts = ctx.py.choice(['epoch', 'update'])
            hk = SaveBestNetwork('m.l', f, crit, timescale=ts)
            if rep % 4 == 1:
                from brainstorm.describable import create_from_description, get_description
                hk = create_from_description(get_description(hk)); hk.__name__ = 'x'
            h = histories(ctx)
            if crit == 'min' and h[0] == float('inf') or crit == 'max' and h[0] == -float('inf'):
                h[0] = 0.0
            info = dict(history=h, criterion=crit, file=bool(f)); ctx.count(('best', rep), info)
            call(hk, 0, 0, net, {})
            ps = []
            for n in range(1, len(h) + 1):
                P = net.buffer.parameters
                P[...] = ctx.rng.randn(*P.shape); ps.append(P.copy())
                r = call(hk, n, 3 * n, net, {'m': {'l': h[:n]}})
                ctx.require(not r, 'saving hook asks to stop', **info)
                P[...] = ctx.rng.randn(*P.shape)          # whatever happens afterwards
                if n % 2:
                    net.provide_external_data({'default': ctx.rng.randn(n, n, 2)})
                b = h.index((min if crit == 'min' else max)(h[:n]))
                got = hk.load_best_network()
                got = got.get('parameters') if tofile else got
                ctx.same(np.array(got), ps[b], 'best parameters after %d values' % n, **info)
                ctx.require(hk.best_so_far == h[b], 'best value', **info)
                ctx.require(hk.best_t == (b + 1 if ts == 'epoch' else 3 * (b + 1)), 'time of the best value', got=hk.best_t, **info)
    finally:
        shutil.rmtree(tmp)


def save(ctx):
    import h5py
    from brainstorm.hooks import SaveNetwork, SaveLogs
    tmp = tempfile.mkdtemp(prefix='c14_')
    try:
        for rep in range(ctx.n(8, 50)):
            net = small_net(ctx); f = os.path.join(tmp, 'x.h5'); ctx.count(('save', rep))
            hk = SaveNetwork(f)
            P = net.buffer.parameters
            for n in range(3):
                P[...] = ctx.rng.randn(*P.shape)
                call(hk, n, n, net, {})
                ctx.same(hk.load_network().get('parameters'), P, 'saved network')
            logs = {'a': {'b': [1., 2.], 'c': {'d': [float(rep)]}}, 'e': [3]}
            g = os.path.join(tmp, 'l.h5'); call(SaveLogs(g), 1, 1, net, logs)
            with h5py.File(g, 'r') as q:
                ctx.require(list(q['a']['b'][...]) == [1., 2.] and list(q['a']['c']['d'][...]) == [float(rep)] and list(q['e'][...]) == [3], 'saved logs')
    finally:
        shutil.rmtree(tmp)


CASES = [early, others, nan, best, save]


def replay(ctx, item):
    dict(early=early, others=others, nan=nan, best=best, save=save)[item['kind']](ctx)
