"""C02: forward pass against independently written equations."""
import numpy as np
from .util import layer_buffers, state_of
from .layerspec import configs, conv_configs, make
from .c01 import fill
from .ref import conv_ref, pool_ref

ACT = {'linear': lambda x: x, 'tanh': np.tanh, 'sigmoid': lambda x: 1 / (1 + np.exp(-x)), 'rel': lambda x: np.maximum(x, 0),
       'el': lambda x: np.where(x >= 0, x, np.exp(np.minimum(x, 0)) - 1)}
SIG = ACT['sigmoid']
CLIP = lambda p: np.clip(p, 1e-6, 1.0)


def lstm_ref(p, x, act, timing=None):
    """published LSTM with peepholes; zero initial state; units whose period does not divide t keep cell and output"""
    T, B = x.shape[:2]
    x = x.reshape(T, B, -1)
    S = p['bz'].size
    y = np.zeros((B, S)); c = np.zeros((B, S))
    out = np.zeros((T, B, S))
    for t in range(T):
        z = ACT[act](x[t] @ p['Wz'].T + y @ p['Rz'].T + p['bz'])
        i = SIG(x[t] @ p['Wi'].T + y @ p['Ri'].T + p['pi'] * c + p['bi'])
        f = SIG(x[t] @ p['Wf'].T + y @ p['Rf'].T + p['pf'] * c + p['bf'])
        cn = i * z + f * c
        o = SIG(x[t] @ p['Wo'].T + y @ p['Ro'].T + p['po'] * cn + p['bo'])
        yn = o * ACT[act](cn)
        if timing is not None and t > 0:
            off = np.broadcast_to(np.fmod(t, timing) != 0, yn.shape)
            yn = np.where(off, y, yn); cn = np.where(off, c, cn)
        y, c = yn, cn
        out[t] = y
    return out


def rnn_ref(p, x, act, timing=None):
    T, B = x.shape[:2]
    x = x.reshape(T, B, -1)
    y = np.zeros((B, p['bias'].size)); out = np.zeros((T, B, p['bias'].size))
    for t in range(T):
        yn = ACT[act](x[t] @ p['W'].T + y @ p['R'].T + p['bias'])
        if timing is not None and t > 0:
            yn = np.where(np.broadcast_to(np.fmod(t, timing) != 0, yn.shape), y, yn)
        y = yn
        out[t] = y
    return out


def reference(name, kw, ins, par, training, B, layer):
    x = ins.get('default')
    act = kw.get('activation')
    if name == 'FullyConnected':
        T, b = x.shape[:2]
        sz = kw['size'] if isinstance(kw['size'], tuple) else (kw['size'],)
        return {'default': ACT[act](np.einsum('tbi,oi->tbo', x.reshape(T, b, -1), par['W']) + par['bias']).reshape((T, b) + sz)}
    if name == 'Recurrent':
        return {'default': rnn_ref(par, x, act)}
    if name == 'Clockwork':
        return {'default': rnn_ref(par, x, act, par['timing'])}
    if name == 'Lstm':
        return {'default': lstm_ref(par, x, act)}
    if name == 'ClockworkLstm':
        return {'default': lstm_ref(par, x, act, par['timing'])}
    if name == 'Elementwise':
        return {'default': ACT[act](x)}
    if name == 'Highway':
        return {'default': ins['T'] * ins['H'] + (1 - ins['T']) * ins['x']}
    if name == 'BatchNorm':
        f = x.reshape(-1, x.shape[-1])
        if training:
            mean = f.mean(0); sd = np.sqrt(((f - mean) ** 2).mean(0) + kw['epsilon'])
        else:
            mean, sd = -par['mu'], par['sigma']      # the layer keeps the negative mean
        return {'default': (par['gamma'] * (f - mean) / sd + par['beta']).reshape(x.shape)}
    if name == 'Mask':
        m = ins['mask']
        if m.shape[2:] == (1,):
            m = m.reshape(m.shape[:2] + (1,) * (x.ndim - 2))
        return {'default': x * m}
    if name == 'SquaredError':
        return {'predictions': x, 'loss': 0.5 * (x - ins['targets']) ** 2}
    if name == 'SquaredDifference':
        return {'default': (ins['inputs_1'] - ins['inputs_2']) ** 2}
    if name == 'SoftmaxCE':
        e = np.exp(x - x.max(-1, keepdims=True)); p = e / e.sum(-1, keepdims=True)
        pick = np.take_along_axis(p, ins['targets'].astype(int), -1)
        return {'predictions': p, 'loss': -np.log(CLIP(pick))}
    if name == 'SigmoidCE':
        p = SIG(x); t = ins['targets']
        return {'predictions': p, 'loss': -(t * np.log(CLIP(p)) + (1 - t) * np.log(CLIP(1 - p)))}
    if name == 'BinomialCrossEntropy':
        t = ins['targets']
        l = -(t * np.log(CLIP(x)) + (1 - t) * np.log(CLIP(1 - x)))
        return {'default': l.reshape(l.shape[:2] + (-1,)).sum(2, keepdims=True)}
    if name == 'L1Decay':
        return {'loss': np.abs(x).reshape(x.shape[:2] + (-1,)).sum(2, keepdims=True)}
    if name == 'L2Decay':
        return {'loss': 0.5 * (x ** 2).reshape(x.shape[:2] + (-1,)).sum(2, keepdims=True)}
    if name in ('DeltasScaling', 'NoOp'):
        return {'default': x}
    if name == 'Merge':
        return {'default': np.concatenate([ins['inputs_1'], ins['inputs_2']], -1)}
    if name == 'Loss':
        return {'loss': np.array([kw['importance'] * x.sum() / B])}
    if name == 'Convolution2D':
        T, b = x.shape[:2]
        o = conv_ref(x.reshape((T * b,) + x.shape[2:]), par['W'], par['bias'], kw['padding'], kw['stride'])
        return {'default': ACT[act](o).reshape((T, b) + o.shape[1:])}
    if name == 'Pooling2D':
        T, b = x.shape[:2]
        o = pool_ref(x.reshape((T * b,) + x.shape[2:]), kw['type'], kw['kernel_size'], kw['padding'], kw['stride'])
        return {'default': o.reshape((T, b) + o.shape[1:])}
    return None


def check(ctx, name, kw, shapes, tag, T, B, strided, scale=1.0):
    from brainstorm.handlers import NumpyHandler
    layer = make(name, kw, shapes)
    h = NumpyHandler(np.float64, seed=ctx.py.randrange(10 ** 6))
    layer.set_handler(h)
    v = layer_buffers(layer, T, B, strided)
    fill(ctx, name, layer, v, T, B)
    if scale != 1.0 and 'default' in v.inputs and name not in ('BinomialCrossEntropy',):
        v.inputs.default[...] *= scale
    if scale != 1.0 and name == 'BinomialCrossEntropy':     # saturated probabilities
        some = ctx.rng.rand(*v.inputs.default.shape) < 0.5
        v.inputs.default[some] = ctx.rng.choice([0., 1., 1e-9, 1. - 1e-9], int(some.sum()))
    for g in ('outputs', 'internals'):     # whatever ran before must not matter
        for n, a in getattr(v, g).items():
            a[...] = ctx.rng.randn(*a.shape)
    for grp, shp in (('outputs', layer.out_shapes), ('internals', layer.internal_shapes)):
        for n, s in shp.items():
            if s.context_size:
                getattr(v, grp)[n][T:] = 0.
    if name == 'BatchNorm':
        v.parameters.sigma[...] = 0.5 + ctx.rng.rand(*v.parameters.sigma.shape)
    start = state_of(v)
    for training in (True, False):
        for g, d in start.items():
            for n, a in d.items():
                getattr(v, g)[n][...] = a
        info = dict(layer=name, kwargs=repr(kw), shapes=repr(shapes), T=T, B=B, strided=strided, training=training, start=start)
        ctx.count((name, tag, T, B, tuple(sorted(shapes.items())), strided, training), dict(layer=name, T=T, B=B))
        layer.forward_pass(v, training)
        for n, a in v.inputs.items():
            ctx.same(a, start['inputs'][n], '%s: forward pass must not change its input %s' % (name, n), **info)
        for n, a in v.parameters.items():
            if name == 'BatchNorm' and training and n in ('mu', 'sigma'):
                f = start['inputs']['default']; f = f.reshape(-1, f.shape[-1])
                new = -f.mean(0) if n == 'mu' else np.sqrt(((f - f.mean(0)) ** 2).mean(0) + kw['epsilon'])
                ctx.close(a, kw['decay'] * start['parameters'][n] + (1 - kw['decay']) * new, 'BatchNorm: running %s' % n, **info)
                continue
            ctx.same(a, start['parameters'][n], '%s: forward pass must not change parameter %s' % (name, n), **info)
        if name == 'Dropout':
            x, y, p = start['inputs']['default'], v.outputs.default, kw['drop_prob']
            if not training:
                ctx.close(y, x, 'Dropout: without training it is the identity', **info)
            else:
                ok = (y == 0) | np.isclose(y, x / (1 - p), rtol=1e-12)
                ctx.require(ok.all(), 'Dropout: outputs must be 0 or x/(1-p)', outputs=y.copy(), **info)
            continue
        want = reference(name, kw, start['inputs'], start['parameters'], training, B, layer)
        for n, w in want.items():
            got = v.outputs[n]
            if layer.out_shapes[n].context_size:
                got = got[:T]
            ctx.close(got, w, '%s: output %s' % (name, n), **info)


def layers(ctx):
    for rep in range(ctx.n(3, 40)):
        for name, kw, sh, tag in configs(ctx.rng):
            for T, B in [(1, 1), (1, 3), (2, 1), (int(ctx.rng.randint(3, 7)), int(ctx.rng.randint(1, 4)))]:
                if ctx.out_of_time():
                    return
                check(ctx, name, kw, sh, tag, T, B, bool(ctx.rng.randint(2)), scale=float(ctx.rng.choice([1., 1., 30.])))


def conv(ctx):
    for rep in range(ctx.n(5, 80)):
        for name, kw, sh, tag in conv_configs(ctx.rng):
            if ctx.out_of_time():
                return
            check(ctx, name, kw, sh, tag, int(ctx.rng.randint(1, 3)), int(ctx.rng.randint(1, 3)), bool(ctx.rng.randint(2)))


def dropout_rate(ctx):
    """keep probability: over many draws the share of kept units is 1-p (5 sigma)"""
    from brainstorm.handlers import NumpyHandler
    for p in (0.1, 0.3, 0.5, 0.75, 0.9):
        layer = make('Dropout', dict(drop_prob=p), {'default': (50,)})
        layer.set_handler(NumpyHandler(np.float64, seed=99))
        v = layer_buffers(layer, 20, 20)
        v.inputs.default[...] = 1.0
        layer.forward_pass(v, True)
        kept = (v.outputs.default != 0).mean(); n = v.outputs.default.size
        ctx.count(('rate', p))
        ctx.require(abs(kept - (1 - p)) < 5 * np.sqrt(p * (1 - p) / n), 'Dropout keeps a share of %r of the units with drop_prob=%r' % (kept, p), p=p)


CASES = [layers, conv, dropout_rate]


def replay(ctx, it):
    for s in (False, True):
        for scale in (1., 30.):
            check(ctx, it['layer'], it['kwargs'], it['shapes'], 'replay', it['T'], it['B'], s, scale)
