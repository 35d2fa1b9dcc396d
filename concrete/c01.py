"""C01: backward pass = exact vector-Jacobian product of the forward pass (directional derivatives of the real forward)."""
import numpy as np
from .util import layer_buffers, state_of
from .layerspec import configs, conv_configs, make

LOSSLIKE = {'Loss'}


def fill(ctx, name, layer, v, T, B):
    rng = ctx.rng
    kink = lambda s: np.where(rng.rand(*s) < .5, -1, 1) * (0.3 + rng.rand(*s))
    for n, a in v.inputs.items():
        a[...] = kink(a.shape)
    for n, a in v.parameters.items():
        a[...] = rng.randn(*a.shape) * 0.7
    for n, a in v.output_deltas.items():
        a[...] = rng.randn(*a.shape)
    for n, a in v.input_deltas.items():
        a[...] = rng.randn(*a.shape)
    # starting state: the context rows of everything that is kept between passes
    for grp, shapes in (('outputs', layer.out_shapes), ('internals', layer.internal_shapes)):
        for n, s in shapes.items():
            if s.context_size and not s.is_backward_only:
                getattr(v, grp)[n][T:] = rng.randn(*getattr(v, grp)[n][T:].shape) * 0.5
    for n, s in layer.out_shapes.items():
        if s.context_size:
            v.output_deltas[n][T:] = 0.
    if name in ('SigmoidCE', 'BinomialCrossEntropy'):
        v.inputs.targets[...] = rng.randint(0, 2, v.inputs.targets.shape)
    if name == 'BinomialCrossEntropy':
        v.inputs.default[...] = 0.1 + 0.8 * rng.rand(*v.inputs.default.shape)
    if name == 'SoftmaxCE':
        v.inputs.targets[...] = rng.randint(0, v.inputs.default.shape[-1], v.inputs.targets.shape)
    if name == 'Mask':
        v.inputs.mask[...] = rng.randint(0, 2, v.inputs.mask.shape)
    if name.startswith('Clockwork'):
        v.parameters.timing[...] = rng.randint(1, 4, v.parameters.timing.shape)
    if name == 'Pooling2D':
        x = v.inputs.default
        x[...] = rng.permutation(x.size).reshape(x.shape) * 0.1
    if name == 'BatchNorm':
        v.parameters.gamma[...] = 0.5 + rng.rand(*v.parameters.gamma.shape)


def near_kink(layer, v):
    if getattr(layer, 'activation', None) in ('rel', 'el'):
        for grp in (v.outputs, v.internals):
            for n, a in grp.items():
                pass
    return False


def check(ctx, name, kwargs, shapes, tag, T, B, strided):
    from brainstorm.handlers import NumpyHandler
    layer = make(name, kwargs, shapes)
    h = NumpyHandler(np.float64)
    layer.set_handler(h)
    v = layer_buffers(layer, T, B, strided)
    fill(ctx, name, layer, v, T, B)
    ctx.count((name, tag, T, B, tuple(sorted(shapes.items())), strided), dict(layer=name, kwargs=repr(kwargs), shapes=repr(shapes), T=T, B=B))
    start = state_of(v)

    def restore():
        for g, d in start.items():
            for n, a in d.items():
                getattr(v, g)[n][...] = a

    def fwd():
        h.rnd.set_seed(4711)
        layer.forward_pass(v, True)

    no_out = set(layer.takes_no_output_deltas_from)
    fwd()
    odel = {n: a.copy() for n, a in v.output_deltas.items()}
    if name in LOSSLIKE:
        for n in odel:
            odel[n][...] = 1.0
    din0 = {n: a.copy() for n, a in v.input_deltas.items()}
    layer.backward_pass(v)
    got_in = {n: v.input_deltas[n] - din0[n] for n in din0}
    got_par = {n: a.copy() for n, a in v.gradients.items()}
    info = dict(layer=name, kwargs=repr(kwargs), shapes=repr(shapes), T=T, B=B, strided=strided, start=start)

    def phi():
        fwd()
        s = 0.
        for n, o in v.outputs.items():
            if n in no_out:
                continue
            c = layer.out_shapes[n].context_size
            a, d = (o[:T], odel[n][:T]) if c else (o, odel[n])
            s += float((a * d).sum())
        return s

    targets = [('inputs', n, got_in[n]) for n in got_in if n not in layer.computes_no_input_deltas_for]
    targets += [('parameters', n, got_par[n]) for n in got_par if n not in layer.computes_no_gradients_for
                and not (name == 'BatchNorm' and n in ('mu', 'sigma'))]
    for grp, n, got in targets:
        ctx.require(got.shape == getattr(v, grp)[n].shape, 'gradient shape of %s.%s' % (grp, n), **info)
        for rep in range(2):
            d = ctx.rng.randn(*got.shape)
            if name == 'DeltasScaling':
                want = kwargs['factor'] * float((odel['default'] * d).sum())
            else:
                est = []
                for eps in (1e-5, 3e-6):
                    vals = []
                    for sg in (1, -1):
                        restore()
                        getattr(v, grp)[n][...] += sg * eps * d
                        vals.append(phi())
                    est.append((vals[0] - vals[1]) / (2 * eps))
                if abs(est[0] - est[1]) > 1e-4 * (1 + abs(est[0])):   # a kink lies in between: not differentiable there
                    continue
                want = est[0]
            have = float((got * d).sum())
            if abs(have - want) > 2e-5 * (1 + abs(want) + np.abs(got * d).sum()):
                ctx.require(False, '%s: derivative of the forward pass with respect to %s.%s in a direction is %r, backward pass gives %r'
                            % (name, grp, n, want, have), direction=d, gradient=got, **info)


def layers_small(ctx):
    for rep in range(ctx.n(2, 25)):
        for name, kw, sh, tag in configs(ctx.rng):
            for T, B in [(1, 1), (1, 2), (2, 1), (int(ctx.rng.randint(3, 6)), int(ctx.rng.randint(1, 4)))]:
                if ctx.out_of_time():
                    return
                check(ctx, name, kw, sh, tag, T, B, bool(ctx.rng.randint(2)))


def conv_layers(ctx):
    for rep in range(ctx.n(4, 60)):
        for name, kw, sh, tag in conv_configs(ctx.rng):
            if ctx.out_of_time():
                return
            check(ctx, name, kw, sh, tag, int(ctx.rng.randint(1, 3)), int(ctx.rng.randint(1, 3)), bool(ctx.rng.randint(2)))


def long_sequences(ctx):
    for rep in range(ctx.n(1, 6)):
        for name, kw, sh, tag in configs(ctx.rng):
            if name in ('Recurrent', 'Lstm', 'Clockwork', 'ClockworkLstm'):
                check(ctx, name, kw, sh, tag, int(ctx.rng.randint(7, 12)), 2, True)


CASES = [layers_small, conv_layers, long_sequences]


def replay(ctx, it):
    for s in (False, True):
        check(ctx, it['layer'], it['kwargs'], it['shapes'], 'replay', it['T'], it['B'], s)
