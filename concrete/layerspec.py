"""Every layer type with generated configurations: class, kwargs, input feature shapes."""
import numpy as np
ACTS = ['linear', 'tanh', 'sigmoid', 'rel', 'el']


def make(clsname, kwargs, shapes):
    import brainstorm.layers as L
    from brainstorm.structure.buffer_structure import BufferStructure
    from brainstorm.layers.base_layer import get_layer_class_from_typename
    cls = get_layer_class_from_typename(clsname + 'LayerImpl')
    ins = {n: BufferStructure(*(s if s and s[0] in ('T', 'B') else ('T', 'B') + tuple(s))) for n, s in shapes.items()}
    return cls('l', ins, set(), set(), **kwargs)


def configs(rng, thorough=False):
    """yields (clsname, kwargs, in_shapes, tag)"""
    r = lambda a, b: int(rng.randint(a, b + 1))
    shp = lambda k: tuple(r(1, 3) for _ in range(k))
    for act in ACTS:
        yield 'FullyConnected', dict(size=r(1, 4), activation=act), {'default': shp(r(1, 3))}, act
        yield 'Recurrent', dict(size=r(1, 4), activation=act), {'default': shp(r(1, 2))}, act
        yield 'Elementwise', dict(activation=act), {'default': shp(r(1, 3))}, act
        yield 'Lstm', dict(size=r(1, 3), activation=act), {'default': shp(r(1, 2))}, act
        yield 'Clockwork', dict(size=r(2, 4), activation=act), {'default': shp(1)}, act
        yield 'ClockworkLstm', dict(size=r(2, 4), activation=act), {'default': shp(1)}, act
    yield 'FullyConnected', dict(size=(2, 3), activation='tanh'), {'default': (2, 2)}, 'multidim'
    s = shp(r(1, 3))
    yield 'Highway', {}, {'H': s, 'T': s, 'x': s}, ''
    for k in (1, 2, 3):
        yield 'BatchNorm', dict(decay=float(rng.rand()), epsilon=1e-3), {'default': shp(k)}, str(k)
        yield 'Dropout', dict(drop_prob=float(rng.choice([0.1, 0.25, 0.5, 0.8]))), {'default': shp(k)}, str(k)
        s = shp(k)
        yield 'Mask', {}, {'default': s, 'mask': (1,)}, 'seq%d' % k
        yield 'Mask', {}, {'default': s, 'mask': s[:-1] + (1,)}, 'feat%d' % k
        yield 'Mask', {}, {'default': s, 'mask': s}, 'full%d' % k
        yield 'SquaredError', {}, {'default': s, 'targets': s}, str(k)
        yield 'SquaredDifference', {}, {'inputs_1': s, 'inputs_2': s}, str(k)
        yield 'SoftmaxCE', {}, {'default': s[:-1] + (r(1, 4),), 'targets': s[:-1] + (1,)}, str(k)
        yield 'SigmoidCE', {}, {'default': s, 'targets': s}, str(k)
        yield 'L1Decay', {}, {'default': s}, str(k)
        yield 'L2Decay', {}, {'default': s}, str(k)
        yield 'DeltasScaling', dict(factor=float(rng.randn())), {'default': s}, str(k)
        yield 'NoOp', {}, {'default': s}, str(k)
        yield 'Merge', {}, {'inputs_1': s, 'inputs_2': s[:-1] + (r(1, 3),)}, str(k)
    yield 'BinomialCrossEntropy', {}, {'default': (3,), 'targets': (3,)}, ''
    s = shp(2)
    yield 'Loss', dict(importance=float(rng.randn())), {'default': s}, 'TB'
    yield 'Loss', dict(importance=float(rng.randn())), {'default': ('B',) + s}, 'B'
    yield 'Loss', dict(importance=float(rng.randn())), {'default': ('T', 'B', 1)}, 'TB1'


def conv_configs(rng):
    r = lambda a, b: int(rng.randint(a, b + 1))
    for act in ('linear', 'tanh', 'rel'):
        kh, kw = r(1, 3), r(1, 3)
        yield 'Convolution2D', dict(num_filters=r(1, 3), kernel_size=(kh, kw), stride=(r(1, 3), r(1, 3)), padding=r(0, 2), activation=act), \
            {'default': (r(kh, 6), r(kw, 6), r(1, 3))}, act
    for ty in ('max', 'avg'):
        kh, kw = r(1, 3), r(1, 3)
        yield 'Pooling2D', dict(type=ty, kernel_size=(kh, kw), stride=(r(1, 3), r(1, 3)), padding=r(0, min(kh, kw) - 1)), \
            {'default': (r(kh, 6), r(kw, 6), r(1, 3))}, ty
