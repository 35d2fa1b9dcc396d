"""C08: the pooling and convolution kernels against the window equations, for every image size, kernel, stride, padding."""
import z3
from engine.poly import *
from engine.prover import *
from engine.rt import *
from engine import rt, tensor, loops, handler, fastloop
from engine.tensor import input_array, HEAP, WRITES, View, as_view
from .c07 import elem
from . import common

ASSUMPTIONS = [common.REALS, common.NUMPY, 'C int arithmetic does not overflow (sizes below 2^31)',
               'max pooling: inputs are larger than -DBL_MAX; positions below 2^24 (float32) or 2^53 are stored exactly in the argmax array',
               'the layout of an image is contiguous in memory, as the layer buffers are']
TRUSTED = ['engine/*.py', 'z3', 'numpy', common.KERNEL,
           'extraction of the kernels: C types, nogil, inline, const, decorators and cimports are dropped from _cpuop.pyx, every statement is kept (engine/pyxload.py)']

N, H, W, C, KH, KW, OH, OW, SH, SW, PAD, FN = [isym(x) for x in ('N', 'H', 'W', 'C', 'KH', 'KW', 'OH', 'OW', 'SH', 'SW', 'pad', 'FN')]
POS = [(1 - x, 'le') for x in (N, H, W, C, KH, KW, OH, OW, SH, SW)] + [(-PAD, 'le')]
KDIMS = [dict(N=1, H=3, W=4, C=1, KH=2, KW=3, OH=3, OW=2, SH=1, SW=2, pad=1, FN=2), dict(N=2, H=4, W=2, C=2, KH=3, KW=1, OH=2, OW=2, SH=2, SW=1, pad=0, FN=1),
         dict(N=1, H=2, W=3, C=2, KH=1, KW=2, OH=2, OW=2, SH=2, SW=2, pad=0, FN=2), dict(N=1, H=3, W=3, C=1, KH=2, KW=2, OH=2, OW=3, SH=2, SW=1, pad=1, FN=1)]


def window(o, stride, k, size):
    """first and one past last row of the window of output o inside the image"""
    y = o * stride - PAD
    return imax(y, ZERO), imin(y + k, size)


def inwin(i, o, stride, k):
    """image row i belongs to the window of output o (both bounds)"""
    y = o * stride - PAD
    return (1 - lt0(i - y, True)) * lt0(i - y - k, True)


def count_(o, stride, k, size):
    lo, hi = window(o, stride, k, size)
    return hi - lo


def run_kernel(rec, fname, label, arrays, call, want, facts=(), dims=KDIMS, lohi=None, limit=None):
    rec.under(fname)
    fastloop.ENABLED[0] = True
    tag = '%s%s' % (fname.split('.')[-1], label)

    def go():
        with Context(POS + list(facts)):
            rec.context_ok(Ctx.cur, tag)

            def one():
                del HEAP[:]
                del WRITES[:]
                loops.reset()
                vs = {}
                tensor.NACCESS[0] = 0
                for n, sh in arrays.items():
                    vs[n] = sh() if callable(sh) else input_array(n, sh)
                tensor.STRICT[0] = True
                try:
                    call(vs)
                finally:
                    tensor.STRICT[0] = False
                return {n: (v, v.st.content) for n, v in vs.items()}
            for guards, (k, got) in Explorer(limit=64).run(one):
                if guards:
                    Ctx.cur.push(*guard_facts(guards))
                try:
                    if k == 'ok':
                        rec.add('%s: %d element accesses in range' % (tag, tensor.NACCESS[0]), fname, 'proved')
                    if k == 'exc':
                        rec.add(tag + ' completes', fname, 'undecided', 'raises %s: %s' % (type(got).__name__, got))
                        continue
                    for n, (v, c) in got.items():
                        idx = [free_index(0, x.size) for x in v.flat()]
                        f = want.get(n)
                        w = f(idx) if f is not None else v.st.initial(tuple(idx)) if hasattr(v.st, 'initial') else rd(n, *idx)
                        rec.check('%s: %s' % (tag, n if f is not None else 'frame, %s unchanged' % n), fname, elem(v, c, idx), w, free=idx, dims=dims, lohi=lohi, vac=f is not None)
                finally:
                    if guards:
                        Ctx.cur.pop()
    rec.attempt(tag, fname, go)
    for o in rec.obls:
        if o['status'] != 'proved' and 'items' not in o:
            ds = [dict(dims[0], **{k: v for k, v in h.items() if k in dims[0]}) for h in o.get('hints', ())] + list(dims)
            o['items'] = [dict(what='conv' if 'conv' in fname or 'col' in fname else 'pool', dims=d) for d in ds]


def cpuop():
    from brainstorm.handlers import _cpuop
    return _cpuop


IMG = [N, H, W, C]
OUT = [N, OH, OW, C]
KER = lambda: ((S(KH), S(KW)), )


def avg_want(i):
    (y0, y1), (x0, x1) = window(i[1], SH, KH, H), window(i[2], SW, KW, W)
    return SUMR(y0, y1, lambda y: SUMR(x0, x1, lambda x: rd('inputs', i[0], y, x, i[3])))


def avgpool_forward(rec):
    size = lambda i: imax(count_(i[1], SH, KH, H) * count_(i[2], SW, KW, W), ONE)
    run_kernel(rec, '_cpuop.avgpool_forward', '', {'inputs': IMG, 'outputs': OUT},
               lambda v: cpuop().avgpool_forward(v['inputs'], (S(KH), S(KW)), v['outputs'], S(PAD), (S(SH), S(SW))),
               {'outputs': lambda i: avg_want(i) / size(i)})


def within(i, o, stride, k, size):
    lo, hi = window(o, stride, k, size)
    return (1 - lt0(i - lo, True)) * lt0(i - hi, True)


def avgpool_backward(rec):
    def want(i):
        n, h, w, c = i
        return rd('in_deltas', *i) + SUMR(0, OH, lambda y: SUMR(0, OW, lambda x: within(h, y, SH, KH, H) * within(w, x, SW, KW, W) * rd('out_deltas', n, y, x, c)
                                                                / (count_(y, SH, KH, H) * count_(x, SW, KW, W))))
    run_kernel(rec, '_cpuop.avgpool_backward', '', {'inputs': IMG, 'outputs': OUT, 'in_deltas': IMG, 'out_deltas': OUT},
               lambda v: cpuop().avgpool_backward(v['inputs'], (S(KH), S(KW)), v['outputs'], S(PAD), (S(SH), S(SW)), v['in_deltas'], v['out_deltas']),
               {'in_deltas': want})


def window_list(i):
    """the pixels of the window of output i in row-major order with their position in the image"""
    n, y, x, c = i
    return fastloop.spec_list([window(y, SH, KH, H), window(x, SW, KW, W)], lambda q: (rd('inputs', n, q[0], q[1], c), (q[0] * W + q[1]) * C + c))


def maxpool_forward(rec):
    low = -symreal('DBL_MAX').p
    arg = lambda i: func('amp0', low, P(-1), window_list(i))
    INT_FUNCS.add('amp0')
    run_kernel(rec, '_cpuop.maxpool_forward', '', {'inputs': IMG, 'outputs': OUT, 'argmax': OUT},
               lambda v: cpuop().maxpool_forward(v['inputs'], (S(KH), S(KW)), v['outputs'], S(PAD), (S(SH), S(SW)), v['argmax']),
               {'outputs': lambda i: (1 - eq0(arg(i) + 1, True)) * func('amv', low, window_list(i)), 'argmax': arg})


def maxpool_backward(rec):
    E, Y, X = 'empty', 'amax_y', 'amax_x'
    for a in (E, Y, X):
        INT_ARRAYS.add(a)

    def argmax():
        v = input_array('argmax', OUT, is_int=True)

        def content(c):
            y, x = rd(Y, *c), rd(X, *c)
            return ite(eq0(rd(E, *c) - 1, True), P(-1), (y * W + x) * C + c[3])
        v.st.content = content
        v.st.initial = content
        return v

    def want(i):
        n, h, w, c = i
        def one(y, x):
            k = (n, y, x, c)
            return (1 - eq0(rd(E, *k) - 1, True)) * eq0(rd(Y, *k) - h, True) * eq0(rd(X, *k) - w, True) * rd('out_deltas', *k)
        return rd('in_deltas', *i) + SUMR(0, OH, lambda y: SUMR(0, OW, lambda x: one(y, x)))
    run_kernel(rec, '_cpuop.maxpool_backward', '', {'inputs': IMG, 'outputs': OUT, 'argmax': argmax, 'in_deltas': IMG, 'out_deltas': OUT},
               lambda v: cpuop().maxpool_backward(v['inputs'], (S(KH), S(KW)), v['outputs'], S(PAD), (S(SH), S(SW)), v['argmax'], v['in_deltas'], v['out_deltas']),
               {'in_deltas': want}, facts=[array_range(Y, 4, 0, H), array_range(X, 4, 0, W)], lohi={E: (0, 2), Y: (0, 2), X: (0, 2)})


def array_range(name, n, lo, hi):
    """fact: every element of the integer array lies in [lo, hi)"""
    f = z3.Function('r_%s_%d' % (name, n), *([z3.IntSort()] * (n + 1)))
    xs = [z3.Int('q_%d' % k) for k in range(n)]
    return z3.ForAll(xs, z3.And(f(*xs) >= z_poly(P(lo)), f(*xs) < z_poly(P(hi))), patterns=[f(*xs)])


T, CH, CW = [isym(x) for x in ('T', 'CH', 'CW')]


def crop_images(rec):
    for a in ('rows', 'cols'):
        INT_ARRAYS.add(a)
    run_kernel(rec, '_cpuop._crop_images', '', {'inputs': [T, N, H, W, C], 'rows': [N], 'cols': [N], 'outputs': [T, N, CH, CW, C]},
               lambda v: cpuop()._crop_images(v['inputs'], S(CH), S(CW), v['rows'], v['cols'], v['outputs']),
               {'outputs': lambda i: rd('inputs', i[0], i[1], i[2] + rd('rows', i[1]), i[3] + rd('cols', i[1]), i[4])},
               facts=[array_range('rows', 1, 0, H - CH + 1), array_range('cols', 1, 0, W - CW + 1), (1 - T, 'le'), (1 - CH, 'le'), (1 - CW, 'le')],
               dims=[dict(d, T=t, CH=2, CW=1) for d, t in zip(KDIMS, (1, 2, 3, 2))], lohi=dict(rows=(0, 2), cols=(0, 2)))


def conv_facts():
    """the output size is the number of kernel positions in the padded image"""
    fits = [(KH - H - 2 * PAD, 'le'), (KW - W - 2 * PAD, 'le')]
    rt.KNOWN_DIV[:] = [(H + 2 * PAD - KH, SH, OH - 1), (W + 2 * PAD - KW, SW, OW - 1)]
    # floor((H + 2 pad - KH) / SH) = OH - 1
    return fits + [((OH - 1) * SH - (H + 2 * PAD - KH), 'le'), ((H + 2 * PAD - KH) - OH * SH, 'lt'),
                   ((OW - 1) * SW - (W + 2 * PAD - KW), 'le'), ((W + 2 * PAD - KW) - OW * SW, 'lt')]


CDIMS = [dict(N=1, H=3, W=4, C=1, KH=2, KW=3, OH=4, OW=4, SH=1, SW=1, pad=1, FN=2), dict(N=2, H=4, W=2, C=2, KH=3, KW=1, OH=1, OW=2, SH=2, SW=1, pad=0, FN=1),
         dict(N=1, H=3, W=4, C=2, KH=1, KW=2, OH=2, OW=2, SH=2, SW=2, pad=0, FN=2), dict(N=1, H=3, W=3, C=1, KH=2, KW=2, OH=2, OW=4, SH=2, SW=1, pad=1, FN=1)]


def flat(name, shape):
    def make():
        v = input_array(name, shape)
        return v
    return make


def pixel(name, y, x, c, *pre):
    """image value, 0 in the padding"""
    inside = (1 - lt0(y, True)) * lt0(y - H, True) * (1 - lt0(x, True)) * lt0(x - W, True)
    return inside * rd(name, *(list(pre) + [y, x, c]))


def im2col(rec):
    def call(v):
        im, col = v['im'], v['col']
        cpuop().im2col(im.reshape(im.size), S(H), S(W), S(C), S(KH), S(KW), S(PAD), S(PAD), S(PAD), S(PAD), S(SH), S(SW), col.reshape(col.size))
    run_kernel(rec, '_cpuop.im2col', '', {'im': [H, W, C], 'col': [OH, OW, KH, KW, C]}, call,
               {'col': lambda i: pixel('im', i[0] * SH - PAD + i[2], i[1] * SW - PAD + i[3], i[4])}, facts=conv_facts(), dims=CDIMS)


def col2im(rec):
    def want(i):
        h, w, c = i
        return rd('im', *i) + SUMR(0, OH, lambda y: SUMR(0, OW, lambda x: SUMR(0, KH, lambda p: SUMR(0, KW, lambda q:
                     eq0(y * SH - PAD + p - h, True) * eq0(x * SW - PAD + q - w, True) * rd('col', y, x, p, q, c)))))

    def call(v):
        im, col = v['im'], v['col']
        cpuop().col2im(col.reshape(col.size), S(H), S(W), S(C), S(KH), S(KW), S(PAD), S(PAD), S(PAD), S(PAD), S(SH), S(SW), im.reshape(im.size))
    run_kernel(rec, '_cpuop.col2im', '', {'im': [H, W, C], 'col': [OH, OW, KH, KW, C]}, call, {'im': want}, facts=conv_facts(), dims=CDIMS)


def handler_():
    from brainstorm.handlers import NumpyHandler
    import numpy as np
    return NumpyHandler(np.float64)


WTS = [FN, KH, KW, C]
COUT = [N, OH, OW, FN]
FNPOS = [(1 - FN, 'le')]


def conv_forward(rec):
    def want(i):
        n, y, x, f = i
        return rd('bias', f) + SUMR(0, KH, lambda p: SUMR(0, KW, lambda q: SUMR(0, C, lambda c:
                     rd('weights', f, p, q, c) * pixel('inputs', y * SH - PAD + p, x * SW - PAD + q, c, n))))
    run_kernel(rec, 'NumpyHandler.conv2d_forward_batch', '', {'inputs': IMG, 'weights': WTS, 'bias': [FN], 'outputs': COUT},
               lambda v: handler_().conv2d_forward_batch(v['inputs'], v['weights'], v['bias'], v['outputs'], S(PAD), (S(SH), S(SW))),
               {'outputs': want}, facts=conv_facts() + FNPOS, dims=CDIMS)


def conv_backward(rec):
    def want_w(i):
        f, p, q, c = i
        return SUMR(0, N, lambda n: SUMR(0, OH, lambda y: SUMR(0, OW, lambda x:
                    rd('out_deltas', n, y, x, f) * pixel('inputs', y * SH - PAD + p, x * SW - PAD + q, c, n))))

    def want_b(i):
        return SUMR(0, N, lambda n: SUMR(0, OH, lambda y: SUMR(0, OW, lambda x: rd('out_deltas', n, y, x, i[0]))))

    def want_in(i):
        n, h, w, c = i
        return rd('in_deltas', *i) + SUMR(0, OH, lambda y: SUMR(0, OW, lambda x: SUMR(0, KH, lambda p: SUMR(0, KW, lambda q: SUMR(0, FN, lambda f:
                     eq0(y * SH - PAD + p - h, True) * eq0(x * SW - PAD + q - w, True) * rd('out_deltas', n, y, x, f) * rd('weights', f, p, q, c))))))
    run_kernel(rec, 'NumpyHandler.conv2d_backward_batch', '', {'inputs': IMG, 'weights': WTS, 'in_deltas': IMG, 'out_deltas': COUT, 'dparams': WTS, 'dbias': [FN]},
               lambda v: handler_().conv2d_backward_batch(v['inputs'], v['weights'], S(PAD), (S(SH), S(SW)), v['in_deltas'], v['out_deltas'], v['dparams'], v['dbias']),
               {'in_deltas': want_in, 'dparams': want_w, 'dbias': want_b}, facts=conv_facts() + FNPOS, dims=CDIMS)


def pool_handler(rec):
    """the handler hands its arguments to the kernels unchanged"""
    from brainstorm import handlers
    import sys
    mod = cpuop()
    for name, kernel, args in (('avgpool2d_forward_batch', 'avgpool_forward', 'inputs window outputs padding stride'),
                               ('avgpool2d_backward_batch', 'avgpool_backward', 'inputs window outputs padding stride in_deltas out_deltas'),
                               ('maxpool2d_forward_batch', 'maxpool_forward', 'inputs window outputs padding stride argmax'),
                               ('maxpool2d_backward_batch', 'maxpool_backward', 'inputs window outputs padding stride argmax in_deltas out_deltas')):
        fn = 'NumpyHandler.' + name
        rec.under(fn)
        toks = {a: S(isym(a)) if a == 'padding' else (S(SH), S(SW)) if a == 'stride' else (S(KH), S(KW)) if a == 'window' else input_array(a, IMG) for a in args.split()}
        calls = []
        saved = getattr(mod, kernel)
        setattr(mod, kernel, lambda *a: calls.append(a))
        try:
            def go():
                getattr(handler_(), name)(*[toks[a] for a in args.split()])
                ok = len(calls) == 1 and len(calls[0]) == len(toks) and all(x is toks[a] for x, a in zip(calls[0], args.split()))
                rec.add(fn + ': passes its arguments to the kernel', fn, 'proved' if ok else 'undecided', '' if ok else repr(calls)[:300],
                        **({} if ok else dict(items=[dict(what='pool', dims=d) for d in KDIMS])))
            rec.attempt(fn, fn, go)
        finally:
            setattr(mod, kernel, saved)


def max_lemma(rec):
    """what amv/amp mean: after k items of a list whose values exceed the base, the value is the largest, and the payload
    belongs to its first occurrence; with no items the base and -1 remain.  Induction on k, discharged by z3."""
    I, R = z3.IntSort(), z3.RealSort()
    Nf, Ef = z3.Function('item', I, R), z3.Function('pay', I, I)
    base, n = z3.Real('base'), z3.Int('n')

    def inv(k, v, m, j):
        l = z3.Int('l')
        return z3.And(k >= 0, z3.Implies(k == 0, z3.And(v == base, m == -1)),
                      z3.Implies(k > 0, z3.And(0 <= j, j < k, v == Nf(j), m == Ef(j), z3.ForAll([l], z3.Implies(z3.And(0 <= l, l < k), Nf(l) <= v)),
                                               z3.ForAll([l], z3.Implies(z3.And(0 <= l, l < j), Nf(l) < v)))))
    l = z3.Int('l')
    pre = [z3.ForAll([l], z3.Implies(z3.And(0 <= l, l < n), z3.And(Nf(l) > base, Ef(l) >= 0)))]
    k, m, j = z3.Ints('k m j'); v = z3.Real('v')

    def prove(name, hyps, goal):
        s = z3.Solver(); s.set('timeout', 20000)
        s.add(*hyps); s.add(z3.Not(goal))
        r = s.check()
        rec.add('first-maximum lemma: ' + name, 'amv/amp', 'proved' if r == z3.unsat else 'undecided', str(r), lemma=True)
        s = z3.Solver(); s.set('timeout', 20000); s.add(*hyps)
        if s.check() == z3.unsat:
            rec.vacuity['failures'].append('max lemma ' + name)
    prove('base', pre, z3.And(inv(z3.IntVal(0), base, z3.IntVal(-1), z3.IntVal(0))))
    more = Nf(k) > v
    prove('step', pre + [inv(k, v, m, j), k < n], inv(k + 1, z3.If(more, Nf(k), v), z3.If(more, Ef(k), m), z3.If(more, k, j)))
    prove('payload -1 exactly for the empty list', pre + [inv(k, v, m, j), k == n], (m == -1) == (n == 0))


def tasks(tier):
    for f in (avgpool_forward, avgpool_backward, maxpool_forward, maxpool_backward, crop_images, im2col, col2im, conv_forward, conv_backward, pool_handler, max_lemma):
        yield f.__name__, f, 100 if tier != 'thorough' else 600
