"""Execution of one real layer implementation on symbolic buffers of symbolic size."""
from .poly import *
from .prover import *
from .rt import *
from . import rt, tensor, loops, handler
from .tensor import *
from .tensor import View, Storage, Comp, HEAP, WRITES

BACK = '~'        # prefix: content of a buffer before the pass (as opposed to after it)


def dim(name):
    return S(isym(name))


def buffer(name, shape, context, ctx_value=None, marked=False):
    """array symbol `name`; `marked`: rows other than the context row are '~name' (unknown old content)"""
    dims, axes = [], []
    for k, s in enumerate(shape):
        p = P(s)
        if k == 0 and context:
            axes.append([Comp(p, 0, wrap=True)]); dims.append(p)
            continue
        if p == ONE:
            axes.append([])
            continue
        fs = facs(s) if isinstance(s, S) else ((p, False),)
        comps = []
        for q, _ in fs:
            if q == ONE:
                continue
            comps.append(Comp(q, len(dims))); dims.append(q)
        axes.append(comps)
    cx = (0,) if context else ()
    old = BACK + name if marked else name

    def content(coord):
        if not context:
            return rd(old, *coord)
        c = coord[0]
        ctxv = P(ctx_value) if ctx_value is not None else None
        s = prove_int(c, 'lt')
        if s is True:
            return ctxv if ctxv is not None else rd(name, *coord)
        if s is False:
            return rd(old, *coord)
        g = lt0(c, True)
        return g * (ctxv if ctxv is not None else rd(name, *coord)) + (1 - g) * rd(old, *coord)
    st = Storage(dims, content, name, cx)
    st.initial = content
    return View(st, axes, [ZERO] * len(dims))


class Case(object):
    """one layer, symbolic shapes; run(kind) executes the pass and returns the list of paths"""

    def __init__(self, cls, in_shapes, kwargs=None, facts=(), ints=(), label=''):
        self.cls, self.in_shapes, self.kwargs, self.facts, self.ints, self.label = cls, in_shapes, kwargs or {}, list(facts), set(ints), label

    def build(self):
        from brainstorm.structure.buffer_structure import BufferStructure
        from brainstorm.layers.base_layer import get_layer_class_from_typename
        from brainstorm.structure.buffer_views import BufferView
        T, B = dim('T'), dim('B')
        c = get_layer_class_from_typename(self.cls)
        shapes = {k: (v if isinstance(v, BufferStructure) else BufferStructure(*v)) for k, v in self.in_shapes.items()}
        layer = c(self.label or 'layer', shapes, set(), set(), **{k: (v() if callable(v) else v) for k, v in self.kwargs.items()})
        layer.set_handler(handler.make_handler())
        self.layer = layer
        groups = [('parameters', layer.parameter_shapes, False), ('inputs', layer.in_shapes, False), ('outputs', layer.out_shapes, True),
                  ('internals', layer.internal_shapes, True), ('gradients', layer.parameter_shapes, True), ('input_deltas', layer.in_shapes, True),
                  ('output_deltas', layer.out_shapes, False)]
        return layer, groups

    def buffers(self, layer, groups, kind):
        from brainstorm.structure.buffer_views import BufferView
        T, B = dim('T'), dim('B')
        self.bufs = {}
        views = []
        for g, shp, wr in groups:
            names, arrs = [], []
            for n, bs in shp.items():
                names.append(n)
                full = bs.get_shape(T, B)
                nm = g + '.' + n
                ctxv = None
                if kind == 'backward':
                    marked = g in ('gradients', 'input_deltas') or bs.is_backward_only
                    if bs.is_backward_only or g == 'output_deltas':
                        ctxv = 0
                else:
                    marked = g in ('outputs', 'internals')
                v = buffer(nm, full, bs.context_size, ctxv, marked)
                self.bufs[nm] = v
                arrs.append(v)
            views.append(BufferView(names, arrs))
        for nm in self.ints:
            INT_ARRAYS.add(nm)
        return BufferView([g for g, _, _ in groups], views)

    def context(self):
        return Context([(1 - isym('T'), 'le'), (1 - isym('B'), 'le')] + list(self.facts))

    def run(self, kind, training=True):
        """paths: list of (guards, ('ok', {name: content}) or ('exc', e)); self.layer, self.bufs are of the last path"""
        def one():
            del HEAP[:]
            del WRITES[:]
            loops.reset()
            handler.Contracts.masks = 0
            layer, groups = self.build()
            b = self.buffers(layer, groups, kind)
            if kind == 'forward':
                layer.forward_pass(b, training)
            else:
                layer.backward_pass(b)
            return {n: v.st.content for n, v in self.bufs.items()}, dict(loops.DEFS)
        return Explorer(limit=64).run(one)

    def free(self, name, row_lo=0):
        """a generic element of the buffer (rows 0..T-1 where there is a context row)"""
        v = self.bufs[name]
        out = []
        for k, d in enumerate(v.st.dims):
            out.append(free_index(0, d - 1 if k in v.st.ctx else d))
        return out
