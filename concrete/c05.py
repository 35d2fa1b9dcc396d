"""C05: parameters survive every sequence of resize / handler change / data / passes; reads are copies; views are live."""
import numpy as np
from .nets import try_build, image_net, randomize, data_for, build
from .c04 import addr


def histories(ctx):
    from brainstorm.handlers import NumpyHandler, DebugHandler
    for rep in range(ctx.n(60, 900)):
        if ctx.out_of_time():
            return
        arch, size, net = try_build(ctx.py) if rep % 4 else image_net(ctx.py)
        randomize(net, ctx.rng)
        for n, d in arch.items():
            if d['@type'] == 'BatchNorm':
                net.buffer[n].parameters.sigma[...] = 1 + ctx.rng.rand(*net.buffer[n].parameters.sigma.shape)
        bn = [n for n, d in arch.items() if d['@type'] == 'BatchNorm']
        names = {(n, o): None for n in arch for o in net.layers[n].parameter_shapes}
        flat = net.get('parameters')
        ref = {k: net.get('%s.parameters.%s' % k) for k in names}
        trace = []
        have_data = False

        def read():
            h = net.handler
            ctx.same(net.get('parameters'), flat, 'flat parameters after %s' % trace, arch=arch, trace=list(trace))
            for k in names:
                ctx.same(net.get('%s.parameters.%s' % k), ref[k], 'parameter %s.%s after %s' % (k + (trace,)), arch=arch, trace=list(trace))
        for step in range(ctx.py.randint(2, 9)):
            op = ctx.py.choice(['data', 'data', 'forward', 'train_forward', 'backward', 'handler', 'read', 'write'])
            if op in ('forward', 'train_forward', 'backward') and not have_data:
                op = 'data'
            if op == 'data':
                T, B = ctx.py.choice([0, 1, 1, 2, 3, 5, 8]), ctx.py.choice([1, 1, 2, 3, 6])
                trace.append(('data', T, B))
                net.provide_external_data(data_for(arch, ctx.rng, T, B))
                have_data = T > 0
            elif op == 'forward':
                trace.append(op); net.forward_pass()
            elif op == 'train_forward':
                trace.append(op)
                if bn:
                    net.forward_pass(training_pass=False)
                else:
                    net.forward_pass(training_pass=True)
            elif op == 'backward':
                trace.append(op)
                net.forward_pass(training_pass=not bn); net.backward_pass()
            elif op == 'handler':
                trace.append(op)
                net.set_handler(NumpyHandler(np.float64)); have_data = False
            elif op == 'read':
                trace.append(op)
                a = net.get('parameters'); a += 1.
                for k in names:
                    b = net.get('%s.parameters.%s' % k); b *= 3
            elif op == 'write' and names:
                k = ctx.py.choice(sorted(names))
                trace.append(('write', k))
                new = ctx.rng.randn(*ref[k].shape)
                if 'sigma' in k[1]:
                    new = np.abs(new) + 1
                v = net.buffer[k[0]].parameters[k[1]]
                net.handler.set_from_numpy(v, new)
                ref[k] = new
                flat = net.get('parameters')
                # exactly the addressed parameter changes, also in the flat vector
                ctx.require(np.shares_memory(v, net.buffer.parameters), 'view %s is not part of the parameter vector' % (k,), arch=arch, trace=list(trace))
            read()
            ctx.count((rep, step), dict(trace=list(trace)) if step == 3 else None)
            # views by attribute, item and layer buffers all refer to the memory in use
            for n, o in names:
                x, y = net.buffer[n].parameters[o], getattr(net.buffer, n).parameters[o]
                ctx.require((addr(x) == addr(y)).all() and np.shares_memory(x, net.buffer.parameters) or x.size == 0, 'stale view of %s.%s' % (n, o), arch=arch, trace=list(trace))


def debug_handler(ctx):
    from brainstorm.handlers import NumpyHandler, DebugHandler
    for rep in range(ctx.n(5, 40)):
        arch, size, net = try_build(ctx.py, types=('FullyConnected', 'Recurrent', 'Lstm'))
        randomize(net, ctx.rng)
        flat = net.get('parameters')
        d = data_for(arch, ctx.rng, 3, 2)
        net.provide_external_data(d); net.forward_pass()
        outs = {n: net.get(n + '.outputs.default') for n in arch}
        for h in (DebugHandler(NumpyHandler(np.float64)), NumpyHandler(np.float64), DebugHandler(NumpyHandler(np.float64))):
            net.set_handler(h)
            ctx.count((rep, type(h).__name__))
            got = net.get('parameters')
            got = getattr(got, 'array', got)
            ctx.same(got, flat, 'parameters after changing the handler', arch=arch)
            net.provide_external_data(d); net.forward_pass()
            for n in arch:
                o = net.get(n + '.outputs.default')
                ctx.close(getattr(o, 'array', o), outs[n], 'outputs of %s after changing the handler' % n, arch=arch)


def held_views(ctx):
    """a buffer view obtained earlier stays valid over resizes"""
    for rep in range(ctx.n(20, 200)):
        arch, size, net = try_build(ctx.py)
        randomize(net, ctx.rng)
        held = {n: net.buffer[n] for n in arch}
        top = net.buffer
        for T, B in [(1, 1), (ctx.py.randint(1, 9), ctx.py.randint(1, 5)), (ctx.py.randint(1, 9), ctx.py.randint(1, 5)), (1, 1)]:
            net.provide_external_data(data_for(arch, ctx.rng, T, B))
            ctx.count((rep, T, B))
            for n in arch:
                for g in ('inputs', 'outputs', 'parameters', 'internals', 'input_deltas', 'output_deltas', 'gradients'):
                    for o in net.buffer[n][g].keys():
                        for src in (held[n], top[n]):
                            a, b = src[g][o], net.buffer[n][g][o]
                            ctx.require(a.shape == b.shape and (addr(a) == addr(b)).all(), 'view %s.%s.%s held across a resize is stale' % (n, g, o), arch=arch, T=T, B=B)
                            ctx.require((addr(getattr(getattr(src, g), o)) == addr(b)).all(), 'attribute access differs', arch=arch)


CASES = [histories, debug_handler, held_views]


def replay(ctx, item):
    histories(ctx)
    held_views(ctx)
    debug_handler(ctx)
