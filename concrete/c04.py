"""C04: memory layout of whole networks, judged from the addresses of the real buffers."""
import numpy as np
from .nets import try_build, image_net, data_for


def addr(a):
    """set of element addresses"""
    base = a.__array_interface__['data'][0]
    idx = np.zeros(a.shape, dtype=np.int64) + base
    for d, (n, s) in enumerate(zip(a.shape, a.strides)):
        sh = [1] * a.ndim; sh[d] = n
        idx = idx + (np.arange(n) * s).reshape(sh)
    return idx


def structure(ctx):
    _run(ctx, ctx.n(150, 2500), lambda rep: try_build(ctx.py, p_extra=0.5, two_inputs=bool(rep % 2), types=(
        'FullyConnected', 'Recurrent', 'Lstm', 'Elementwise', 'Merge', 'Highway', 'BatchNorm', 'FullyConnected', 'NoOp', 'Clockwork')))


def images(ctx):
    _run(ctx, ctx.n(40, 600), lambda rep: image_net(ctx.py))


def _run(ctx, reps, gen):
    for rep in range(reps):
        if ctx.out_of_time():
            return
        arch, size, net = gen(rep)
        for T, B in ((ctx.py.randint(1, 4), ctx.py.randint(1, 3)), (ctx.py.randint(0, 5), ctx.py.randint(1, 4))):
            net.provide_external_data(data_for(arch, ctx.rng, T, B))
            info = dict(arch=arch, T=T, B=B)
            ctx.count(('net', rep, T, B), info)
            buf = net.buffer
            owner = {}

            def own(a, who):
                for x in addr(a).ravel():
                    if x in owner:
                        ctx.require(False, '%s overlaps %s' % (who, owner[x]), **info)
                    owner[x] = who
            ctxrows = {}
            for n in arch:
                l = net.layers[n]
                for o, s in l.out_shapes.items():
                    own(buf[n].outputs[o], n + '.outputs.' + o); own(buf[n].output_deltas[o], n + '.output_deltas.' + o)
                    ctx.require(buf[n].outputs[o].shape == (T + s.context_size, B) + tuple(s.feature_shape), 'shape of %s.outputs.%s' % (n, o), **info)
                    ctx.require(buf[n].output_deltas[o].shape == buf[n].outputs[o].shape, 'shape of deltas', **info)
                for o, s in l.internal_shapes.items():
                    own(buf[n].internals[o], n + '.internals.' + o)
                for o, s in l.parameter_shapes.items():
                    own(buf[n].parameters[o], n + '.parameters.' + o); own(buf[n].gradients[o], n + '.gradients.' + o)
                    ctx.require(buf[n].parameters[o].shape == tuple(s.feature_shape) == buf[n].gradients[o].shape, 'parameter shape', **info)
            # inputs are exactly the concatenation of the connected outputs
            for n in arch:
                for inp in net.layers[n].in_shapes:
                    srcs = [(m, o) for m, d in arch.items() for o, cs in d['@outgoing_connections'].items() if '%s.%s' % (n, inp) in cs]
                    for ig, og in (('inputs', 'outputs'), ('input_deltas', 'output_deltas')):
                        a = addr(buf[n][ig][inp])
                        ctx.require(a.shape[:2] == (T, B), '%s.%s.%s has shape %s' % (n, ig, inp, a.shape), **info)
                        want = {(m, o): addr(buf[m][og][o][:T]) for m, o in srcs}
                        if not T * B:
                            continue
                        a2 = a.reshape(T * B, -1)
                        ctx.require(a2.shape[1] == sum(w.reshape(T * B, -1).shape[1] for w in want.values()), 'width of %s.%s' % (n, inp), **info)
                        first = {int(w.reshape(T * B, -1)[0, 0]): w.reshape(T * B, -1) for w in want.values()}
                        i = 0
                        while i < a2.shape[1]:
                            w = first.pop(int(a2[0, i]), None)
                            ctx.require(w is not None and (a2[:, i:i + w.shape[1]] == w).all(), '%s.%s.%s is not the concatenation of %s' % (n, ig, inp, srcs), **info)
                            i += w.shape[1]
                        ctx.require(not first, '%s.%s.%s misses a source' % (n, ig, inp), **info)
            # flat parameter and gradient vectors
            pa, ga = addr(buf.parameters), addr(buf.gradients)
            allp, allg = [], []
            rel = {}
            for n in arch:
                for o in net.layers[n].parameter_shapes:
                    allp.append(addr(buf[n].parameters[o]).ravel()); allg.append(addr(buf[n].gradients[o]).ravel())
            P = np.concatenate(allp) if allp else np.zeros(0, int)
            G = np.concatenate(allg) if allg else np.zeros(0, int)
            ctx.require(sorted(pa) == sorted(P) and sorted(ga) == sorted(G), 'flat parameter/gradient vectors are not exactly all parameters/gradients', **info)
            pos = {x: i for i, x in enumerate(pa)}; gos = {x: i for i, x in enumerate(ga)}
            ctx.require([pos[x] for x in P] == [gos[x] for x in G], 'parameters and gradients are in a different order', **info)


CASES = [structure, images]


def replay(ctx, item):
    structure(ctx)
    images(ctx)
