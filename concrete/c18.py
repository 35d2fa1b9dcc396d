"""C18: scores and losses over batches of any size; evaluate and extract."""
import os, shutil, tempfile
import numpy as np


def true_score(kind, y, p, m, thr=.5):
    """score of the whole data set: y, p (N, F), m (N, 1) or None"""
    w = np.ones((len(y), 1)) if m is None else m
    if kind == 'Accuracy':
        lab = p.argmax(1).reshape(-1, 1) if p.shape[1] > 1 else p
        per = (lab == y).astype(float)
    elif kind == 'Hamming':
        per = np.where(y != 0, p >= thr, p < thr).mean(1, keepdims=True).astype(float)
    else:
        per = .5 * ((y - p) ** 2).sum(1, keepdims=True)
    return (per * w).sum() / w.sum()


def net_for(ctx, kind, F, masked, two=False):
    import brainstorm as bs
    from brainstorm.handlers import NumpyHandler
    from brainstorm.layers import Input, NoOp, SquaredError, Loss, Mask
    tF = 1 if kind == 'Accuracy' else F
    outs = {'default': ('T', 'B', F), 'targets': ('T', 'B', tF), 'sq': ('T', 'B', F)}
    if masked:
        outs['msk'] = ('T', 'B', 1)
    inp = Input(out_shapes=outs); no = NoOp(name='out'); se = SquaredError(name='se'); l = Loss(name='L1')
    inp >> no >> 'default' - se
    inp - 'sq' >> 'targets' - se
    se - 'loss' >> l
    if two:
        l2 = Loss(name='L2', importance=2.5)
        no >> l2
    net = bs.Network.from_layer(l)
    net.set_handler(NumpyHandler(np.float64))
    net.output_name = 'out.outputs.default'
    return net, tF


def data(ctx, kind, F, tF, T, N, masked, zero_target=False):
    d = {'default': ctx.rng.randn(T, N, F), 'sq': ctx.rng.randn(T, N, F)}
    if kind == 'Accuracy':
        d['targets'] = ctx.rng.randint(0, max(F, 2), (T, N, 1)).astype(float)
        if F == 1:
            d['default'] = ctx.rng.randint(0, 2, (T, N, 1)).astype(float)
    elif kind == 'Hamming':
        d['default'] = ctx.rng.rand(T, N, F); d['targets'] = ctx.rng.randint(0, 2, (T, N, F)).astype(float)
        d['default'].ravel()[0] = .5
    else:
        d['targets'] = ctx.rng.randn(T, N, F)
    if masked:
        d['msk'] = (ctx.rng.rand(T, N, 1) > .3).astype(float); d['msk'][0, 0, 0] = 1
    return d


def scores(ctx):
    import brainstorm as bs
    from brainstorm.tools import evaluate
    from brainstorm.data_iterators import Minibatches, Undivided, DataIterator
    import brainstorm.scorers as S
    for rep in range(ctx.n(90, 1200)):
        if ctx.out_of_time():
            return
        py = ctx.py
        kind = py.choice(['Accuracy', 'Hamming', 'MeanSquaredError']); F = py.randint(1, 4); masked = py.random() < .5; two = py.random() < .4
        net, tF = net_for(ctx, kind, F, masked, two)
        T, N, bsz = py.randint(1, 4), py.randint(1, 9), py.randint(1, 9)
        d = data(ctx, kind, F, tF, T, N, masked)
        kw = {'mask_name': 'msk'} if masked else {}
        thr = py.choice([.5, .5, .3])
        mk = getattr(S, kind)
        how = rep % 3
        sc = mk(thr, name='sc') if kind == 'Hamming' else mk(name='sc')
        if masked and how == 1:
            sc.mask_name = 'msk'
        orig = {k: v.copy() for k, v in d.items()}
        it = Minibatches(bsz, False, **d) if rep % 5 else Undivided(**d)
        info = dict(score=kind, F=F, masked=masked, two=two, T=T, N=N, batch=bsz, threshold=thr); ctx.count((kind, rep), info)
        r = evaluate(net, it, [sc], **(kw if how != 1 else {}))
        flat = lambda a: a.reshape(-1, a.shape[-1])
        want = true_score(kind, flat(d['targets']), flat(d['default']), flat(d['msk']) if masked else None, thr)
        ctx.close(r['sc'], want, 'score over the data set', **info)
        l1 = .5 * ((d['default'] - d['sq']) ** 2).sum() / N
        l2 = 2.5 * d['default'].sum() / N
        if two:
            ctx.close(r['L1'], l1, 'first loss', **info); ctx.close(r['L2'], l2, 'second loss', **info); ctx.close(r['total_loss'], l1 + l2, 'total loss', **info)
            ctx.require(set(r) == {'L1', 'L2', 'total_loss', 'sc'}, 'reported names', got=sorted(r))
        else:
            ctx.close(r['total_loss'], l1, 'total loss', **info); ctx.require(set(r) == {'total_loss', 'sc'}, 'reported names', got=sorted(r))
        for k in d:
            ctx.same(d[k], orig[k], 'data of the caller: ' + k, **info)


def names(ctx):
    """out_name / targets_name / mask_name of the scorer take precedence over those of the call"""
    import brainstorm as bs, brainstorm.scorers as S
    from brainstorm.handlers import NumpyHandler
    from brainstorm.layers import Input, FullyConnected
    from brainstorm.tools import evaluate
    from brainstorm.data_iterators import Minibatches
    for rep in range(ctx.n(10, 100)):
        inp = Input(out_shapes={k: ('T', 'B', 2) for k in ('default', 'targets', 'other')} | {'m': ('T', 'B', 1), 'm2': ('T', 'B', 1)})
        net = bs.Network.from_layer(inp >> FullyConnected(2, name='A') >> FullyConnected(2, name='B'))
        net.set_handler(NumpyHandler(np.float64)); net.buffer.parameters[...] = ctx.rng.randn(*net.buffer.parameters.shape)
        net.output_name = 'B.outputs.default'; p0 = net.get('parameters')
        N = ctx.py.randint(1, 6)
        d = {k: ctx.rng.randn(2, N, 2) for k in ('default', 'targets', 'other')}
        for k in ('m', 'm2'):
            d[k] = (ctx.rng.rand(2, N, 1) > .4).astype(float); d[k][0, 0] = 1
        net.provide_external_data(d); net.forward_pass(); outs = {k: net.get(k + '.outputs.default') for k in 'AB'}
        flat = lambda a: a.reshape(-1, a.shape[-1])
        for so, st, sm, co, ct, cm in [('', 'targets', '', '', 'targets', ''), ('A.outputs.default', 'other', 'm2', '', 'targets', 'm'), ('', 'targets', '', 'A.outputs.default', 'targets', 'm'),
                                       ('', '', 'm', '', 'other', ''), ('B.outputs.default', '', '', 'A.outputs.default', 'targets', 'm2')]:
            sc = S.MeanSquaredError(so, st, sm)
            r = evaluate(net, Minibatches(ctx.py.randint(1, 4), False, **d), [sc], out_name=co, targets_name=ct, mask_name=cm)
            o = so or co or 'B'
            mm = sm or cm
            want = true_score('MSE', flat(d[st or ct]), flat(outs[o[0]]), flat(d[mm]) if mm else None)
            ctx.count(('names', rep, so, st, sm, co, ct, cm))
            ctx.close(r['MeanSquaredError'], want, 'score with names', names=(so, st, sm, co, ct, cm), N=N)
            ctx.same(net.get('parameters'), p0, 'parameters')


def aggregation(ctx):
    """the aggregation functions themselves, weights of any size"""
    import brainstorm.scorers as S
    for rep in range(ctx.n(300, 3000)):
        n = ctx.py.randint(1, 8)
        w = [float(ctx.py.randint(1, 50)) for _ in range(n)]; v = [ctx.py.uniform(-5, 5) for _ in range(n)]
        ctx.count(('agg', rep))
        ctx.close(S.Scorer.aggregate(list(zip(w, v))), sum(v) / sum(w), 'Scorer.aggregate', weights=w, values=v)
        ctx.close(S._weighted_average(list(zip(w, v))), sum(a * b for a, b in zip(w, v)) / sum(w), 'weighted average', weights=w, values=v)


def features(ctx):
    import h5py
    from brainstorm.tools import extract, extract_and_save
    from brainstorm.data_iterators import Minibatches, Undivided
    from .nets import try_build, randomize, data_for
    tmp = tempfile.mkdtemp(prefix='c18_')
    try:
        for rep in range(ctx.n(30, 400)):
            if ctx.out_of_time():
                return
            arch, size, net = try_build(ctx.py, types=('FullyConnected', 'Recurrent', 'Elementwise', 'Lstm'))
            randomize(net, ctx.rng); p0 = net.get('parameters')
            T, N = ctx.py.randint(1, 4), ctx.py.randint(1, 9); d = data_for(arch, ctx.rng, T, N)
            orig = {k: v.copy() for k, v in d.items()}
            net.provide_external_data(d); net.forward_pass()
            bufs = ['%s.outputs.default' % n for n in arch]
            ctx.py.shuffle(bufs); bufs = bufs[:ctx.py.randint(1, len(bufs))]
            whole = {b: net.get(b) for b in bufs}
            bsz = ctx.py.randint(1, 9)
            it = Minibatches(bsz, False, **d) if rep % 4 else Undivided(**d)
            info = dict(arch=arch, T=T, N=N, batch=bsz, buffers=bufs); ctx.count(('extract', rep), info if rep < 3 else None)
            arg = bufs[0] if len(bufs) == 1 else bufs
            r = extract(net, it, arg)
            ctx.require(set(r) == set(bufs), 'extracted names', got=sorted(r), **info)
            f = os.path.join(tmp, 'f.h5'); extract_and_save(net, it, arg, f)
            with h5py.File(f, 'r') as q:
                for b in bufs:
                    ctx.close(r[b], whole[b], 'extracted %s' % b, tol=1e-12, **info)
                    ctx.close(q[b][...], whole[b], 'saved %s' % b, tol=1e-12, **info)
            ctx.same(net.get('parameters'), p0, 'parameters after extracting', **info)
            for k in d:
                ctx.same(d[k], orig[k], 'data of the caller', **info)
    finally:
        shutil.rmtree(tmp)


def losses(ctx):
    import brainstorm as bs
    from .c16 import lossy
    from .nets import data_for
    for rep in range(ctx.n(30, 300)):
        arch, net = lossy(ctx, n_layers=ctx.py.randint(1, 6))
        T, B = ctx.py.randint(1, 3), ctx.py.randint(1, 4)
        net.provide_external_data(data_for(arch, ctx.rng, T, B)); net.forward_pass()
        lv = net.get_loss_values()
        ls = [n for n in arch if arch[n]['@type'] == 'Loss']
        want = {}
        for l in ls:
            src = [n for n in arch if any(l + '.default' in c for c in arch[n]['@outgoing_connections'].values())][0]
            want[l] = arch[l]['importance'] * net.get(src + '.outputs.default').sum() / B
        ctx.count(('loss', rep))
        if len(ls) == 1:
            ctx.require(list(lv) == ['total_loss'], 'names of the losses', got=list(lv))
        else:
            ctx.require(set(lv) == set(ls) | {'total_loss'}, 'names of the losses', got=list(lv))
            for l in ls:
                ctx.close(lv[l], want[l], 'loss ' + l, arch=arch)
        ctx.close(lv['total_loss'], sum(want.values()), 'total loss', arch=arch)


CASES = [scores, names, aggregation, features, losses]


def replay(ctx, item):
    k = item['kind']
    for f in (dict(aggregate=aggregation, names=names, losses=losses, extract=features).get(k, scores),):
        f(ctx)
