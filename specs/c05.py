"""C05: one operation on a network in an arbitrary state leaves the parameters as they are. An arbitrary state is: any layer
sizes, laid out for any sequence length T0 and batch size B0, with any amount of memory held."""
from engine.poly import *
from engine.prover import *
from engine.rt import *
from engine import rt, verify, prover
from engine.strided import Arr, allocate, equal
from engine.verify import contract, lemma
from . import common, c04, gnet
from .c04 import same

ASSUMPTIONS = ['numpy view semantics as in engine/strided.py', 'sizes are mathematical integers', 'handler operations do what C07 proves of NumpyHandler (get_numpy_copy and get return independent copies, set_from_numpy and copy_to write exactly their target)',
               'a layer pass writes only what C01 and C02 prove it writes (parameters are read, running statistics of BatchNorm in training passes excepted)',
               'connection graphs: the generated ones (bounded); layer sizes, lengths, batch sizes and held memory are unbounded']
TRUSTED = ['engine/*.py', 'z3', common.EXTRACTION, common.KERNEL]
T0, B0, T, B, CAP = isym('T0'), isym('B0'), isym('T'), isym('B'), isym('cap')
FUNCS = ['BufferManager.resize', 'BufferManager.set_handler', 'BufferManager.__init__', 'BufferManager.get_context', 'BufferManager.apply_context', 'BufferManager.clear_context', 'BufferManager.clear_backward_buffers', 'get_total_size_slices_and_shapes',
         'create_buffer_views_from_layout', 'BufferStructure.create_from_buffer_hub', 'BufferView.__init__', 'BufferView.adjust', 'BufferView.__getitem__', 'BufferView.items', 'Network.__init__', 'Network.set_handler', 'Network.provide_external_data',
         'Network.forward_pass', 'Network.backward_pass', 'Network.get', 'Network.get_context', 'Network.apply_gradient_modifiers']


def facts(count):
    return c04.size_facts(count) + [(1 - T0, 'le'), (1 - B0, 'le'), (-CAP, 'le')]


def steps(T=T, B=B):
    from brainstorm.structure.buffer_views import BufferView

    def data(net, t, b, device):
        out = {}
        for k, v in net.buffer.Input.outputs.items():
            sh = (S(t), S(b)) + v.shape[2:]
            out[k] = gnet.fresh(sh, 'data') if device else gnet.Data(k, sh)
        return out
    yield 'provide_external_data', lambda net, mem: net.provide_external_data(data(net, T, B, False))
    yield 'provide_external_data of a device array', lambda net, mem: net.provide_external_data(data(net, T, B, True))
    yield 'forward_pass', lambda net, mem: net.forward_pass()
    yield 'forward_pass with context', lambda net, mem: net.forward_pass(context=net.get_context())
    yield 'backward_pass', lambda net, mem: net.backward_pass()
    yield 'set_handler', lambda net, mem: net.set_handler(gnet.GHandler(mem))
    yield 'set_handler, then data', lambda net, mem: (net.set_handler(gnet.GHandler(mem)), net.provide_external_data(data(net, T, B, False)))
    yield 'data, passes', lambda net, mem: (net.provide_external_data(data(net, T, B, False)), net.forward_pass(training_pass=True), net.backward_pass())


def networks(lo, hi):
    def go(rec):
        from brainstorm.utils import NetworkValidationError
        from brainstorm.structure.buffers import get_total_size_slices_and_shapes
        for seed in range(lo, hi):
            ok, count = gnet.usable(seed)
            if not ok:
                continue
            cases = [(n + ' before any data', st, False, []) for n, st in list(steps())[:6:5]]
            for t, b, fs, label in ((T, B, [(T - T0, 'ne')], ''), (T0, B0, [], ' (same size)'), (T0, B, [(B - B0, 'ne')], ' (same length)')):
                for n, st in steps(t, b):
                    if not label or n == 'provide_external_data' or n.startswith('data'):
                        cases.append((n + label, st, True, fs))
            for name, step, used, fs in cases:
                def run(step=step, used=used):
                    mem = gnet.Memory()
                    try:
                        layers, net = gnet.make_net(seed, mem)
                    except NetworkValidationError:
                        return None
                    m = net._buffer_manager
                    if used:
                        if m.full_buffer.ndim != 1:
                            raise Unsupported('memory held by the manager')
                        total = get_total_size_slices_and_shapes(m.hubs, S(T0), S(B0))[0] + S(CAP)      # at least what is needed, as resize leaves it
                        m.full_buffer, m.size = allocate((total,), 'held'), total
                        first = m.resize(S(T0), S(B0))
                        net.buffer = first
                    del mem.ops[:]
                    for b in [m.full_buffer]:
                        b.buf.fresh = False
                    before = {k: v for k, s, v in gnet.arrays(net, layers)}
                    flat = net.buffer.parameters
                    flat.buf.fresh = False
                    held = {n: (net.buffer[n], net.buffer[n].parameters) for n in layers}
                    top = net.buffer
                    step(net, mem)
                    return layers, net, mem, before, flat, held, top

                def post(x, name=name):
                    if x is None:
                        return
                    layers, net, mem, before, flat, held, top = x
                    new = net.buffer.parameters
                    c = mem.content(new)
                    yield 'the parameter vector keeps its shape', len(new.sizes) == 1 and equal(new.sizes[0], flat.sizes[0])
                    if not new.sizes[0].terms:
                        yield 'no parameters', True
                    else:
                        yield 'the parameter vector holds what it held before', c is not None and c[0] == 'initial' and same(c[1], flat)
                    for n, l in layers.items():
                        for k in l.parameter_shapes:
                            v, w = net.buffer[n].parameters[k], before[n, 'parameters', k]
                            yield '%s.%s is the same part of the parameter vector' % (n, k), v.buf is new.buf and equal(v.off - new.off, w.off - flat.off) and len(v.sizes) == len(w.sizes) and all(equal(a, b) for a, b in zip(v.sizes, w.sizes)) and c04.flat(v, 0)[1]
                    yield 'the network uses the views of its memory', net.buffer is net._buffer_manager.views
                    mb = net._buffer_manager.full_buffer.buf
                    yield 'every array lies in the memory in use', all(v.buf is mb for k, s, v in gnet.arrays(net, layers)) and new.buf is mb
                    yield 'access by attribute, by name and by path agree', all(getattr(getattr(getattr(net.buffer, n), g), k) is v and net.buffer['%s.%s.%s' % (n, g, k)] is v for (n, g, k), s, v in gnet.arrays(net, layers))
                    if 'set_handler' not in name:
                        yield 'views obtained before stay the views of the network', net.buffer is top and all(net.buffer[n] is held[n][0] and (net.buffer[n].parameters is held[n][1] or not len(held[n][1])) for n in layers)
                    else:
                        yield 'all layers use the new handler', all(l.handler is net.handler for l in layers.values()) and net._buffer_manager.handler is net.handler
                    for n, l in layers.items():
                        for kind, bufs, _, _ in l.calls:
                            yield 'layer %s computed on its own buffers' % n, bufs is net.buffer[n]
                    k0 = mem.now()
                    for (n, g, k), s, v in list(gnet.arrays(net, layers))[:4]:
                        got = net.get('%s.%s.%s' % (n, g, k))
                        yield 'reading %s.%s.%s gives a copy of the array in use' % (n, g, k), isinstance(got, gnet.NpCopy) and got.view is v and got.time == k0 and mem.now() == k0
                contract(rec, 'network %d, %s' % (seed, name), FUNCS, facts(count) + fs, run, post, items=[dict(kind='histories')])
    return go


def tasks(tier):
    n = 48 if tier == 'quick' else 1200
    step = 2 if tier == 'quick' else 40
    for k in range(0, n, step):
        yield 'networks%d' % k, networks(k, k + step)
