"""Random network architectures (plain dictionaries)."""
import numpy as np

REC = ['Recurrent', 'Lstm']
CLK = ['Clockwork', 'ClockworkLstm']


def random_arch(py, n_layers=None, types=('FullyConnected', 'Recurrent', 'Lstm', 'Elementwise', 'NoOp', 'BatchNorm', 'Highway', 'Merge'), p_extra=0.4,
                two_inputs=False, name=lambda i: 'L%d' % i):
    """Input plus a random DAG; all features one-dimensional.  Returns (arch, sizes)"""
    n = n_layers or py.randint(1, 6)
    outs = {'default': ('T', 'B', py.randint(1, 4))}
    if two_inputs:
        outs['extra'] = ('T', 'B', py.randint(1, 3))
    arch = {'Input': {'@type': 'Input', 'out_shapes': outs, '@outgoing_connections': {}}}
    size = {('Input', k): s[2] for k, s in outs.items()}

    def connect(src, dst, inp):
        oc = arch[src[0]]['@outgoing_connections']
        s = '%s.%s' % (dst, inp)
        oc.setdefault(src[1], [])
        if s in oc[src[1]]:
            return False
        oc[src[1]].append(s)
        return True

    for i in range(n):
        nm = name(i)
        ty = py.choice(types)
        avail = list(size)
        src = py.choice(avail)
        if ty == 'Highway':
            same = [a for a in avail if size[a] == size[src]]
            srcs = {'H': [py.choice(same)], 'T': [py.choice(same)], 'x': [src]}
        elif ty == 'Merge':
            srcs = {'inputs_1': [src], 'inputs_2': [py.choice(avail)]}
        else:
            s = [src]
            while py.random() < p_extra and len(s) < 4:
                c = py.choice(avail)
                if c not in s:
                    s.append(c)
            srcs = {'default': s}
        arch[nm] = {'@type': ty, '@outgoing_connections': {}}
        tot = 0
        for inp, ss in srcs.items():
            for a in ss:
                connect(a, nm, inp)
        tot = sum(size[a] for a in srcs.get('default', []))
        if ty in ('FullyConnected', 'Recurrent', 'Lstm', 'Clockwork', 'ClockworkLstm'):
            arch[nm]['size'] = py.randint(1, 4)
            arch[nm]['activation'] = py.choice(['tanh', 'sigmoid', 'linear'])
            size[(nm, 'default')] = arch[nm]['size']
        elif ty == 'Highway':
            size[(nm, 'default')] = size[src]
        elif ty == 'Merge':
            size[(nm, 'default')] = size[srcs['inputs_1'][0]] + size[srcs['inputs_2'][0]]
        else:
            size[(nm, 'default')] = tot
    return arch, size


def build(arch, dtype=np.float64, shuffle=None):
    import brainstorm as bs
    from brainstorm.handlers import NumpyHandler
    if shuffle is not None:
        ks = list(arch); shuffle.shuffle(ks)
        arch = {k: arch[k] for k in ks}
    net = bs.Network.from_architecture(arch)
    net.set_handler(NumpyHandler(dtype))
    return net


def try_build(py, *a, **k):
    """random net that can be laid out"""
    from brainstorm.utils import NetworkValidationError
    while True:
        arch, size = random_arch(py, *a, **k)
        try:
            return arch, size, build(arch, shuffle=py)
        except NetworkValidationError as e:
            if 'lay out' not in str(e):
                raise


def randomize(net, rng, scale=0.6):
    p = net.buffer.parameters
    p[...] = rng.randn(*p.shape) * scale
    for n in net.buffer.keys():
        b = net.buffer[n]
        if hasattr(b, 'keys') and 'parameters' in b.keys() and 'timing' in b['parameters'].keys():
            b['parameters']['timing'][...] = rng.randint(1, 4, b['parameters']['timing'].shape)


def data_for(arch, rng, T, B):
    return {k: rng.randn(T, B, *s[2:]) for k, s in arch['Input']['out_shapes'].items()}


def all_outputs(net, arch, T):
    r = {}
    for n, d in arch.items():
        for o in net.buffer[n].outputs.keys():
            r[n + '.' + o] = net.get(n + '.outputs.' + o)[:T].copy()
    return r


def random_image_arch(py):
    H, W = py.randint(1, 3), py.randint(1, 3)
    arch = {'Input': {'@type': 'Input', 'out_shapes': {'default': ('T', 'B', H, W, py.randint(1, 2))}, '@outgoing_connections': {}}}
    img = ['Input']
    for i in range(py.randint(1, 5)):
        ty = py.choice(['Convolution2D', 'Elementwise', 'BatchNorm', 'NoOp', 'Pooling2D', 'FullyConnected', 'Merge'])
        nm = 'L%d' % i
        if ty == 'Merge':
            srcs = {'inputs_1': [py.choice(img)], 'inputs_2': [py.choice(img)]}
        else:
            k = py.randint(1, min(3, len(img)))
            srcs = {'default': py.sample(img, k)}
        arch[nm] = {'@type': ty, '@outgoing_connections': {}}
        if ty == 'Convolution2D':
            arch[nm].update(num_filters=py.randint(1, 2), kernel_size=(1, 1), activation='tanh')
        elif ty == 'Pooling2D':
            arch[nm].update(kernel_size=(1, 1), type=py.choice(['max', 'avg']))
        elif ty == 'FullyConnected':
            arch[nm].update(size=py.randint(1, 3), activation='tanh')
        for inp, ss in srcs.items():
            for a in ss:
                arch[a]['@outgoing_connections'].setdefault('default', []).append('%s.%s' % (nm, inp))
        if ty != 'FullyConnected':
            img.append(nm)
    return arch


def image_net(py):
    from brainstorm.utils import NetworkValidationError
    while True:
        arch = random_image_arch(py)
        try:
            return arch, None, build(arch, shuffle=py)
        except NetworkValidationError as e:
            if 'lay out' not in str(e):
                raise
