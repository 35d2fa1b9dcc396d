"""C07: every method body of NumpyHandler against the contract in engine/handler.py that callers are verified against:
for all sizes (ranks 1-4) and all contents the body leaves every array exactly as the contract says."""
import itertools
from engine.poly import *
from engine.prover import *
from engine.rt import *
from engine import rt, tensor, loops, handler, npx
from engine.tensor import input_array, HEAP, WRITES, View, as_view
from . import common

ASSUMPTIONS = [common.REALS, common.DENOM, common.NUMPY,
               'numpy random state: uniform() draws from [0,1) and standard_normal() from the normal distribution (symbols of unknown value here)',
               'class indices given to index_m_by_v and binarize_v lie in range', 'np.tanh, np.exp, np.log, np.sqrt and np.fmod are the mathematical functions',
               'arguments are either the same array or do not overlap']
TRUSTED = ['engine/*.py', 'z3', 'numpy', common.EXTRACTION, common.KERNEL]


class Rnd(object):
    """numpy.random.RandomState with outcomes left open"""

    def standard_normal(self, shape=None, size=None):
        return draw('normal', shape if shape is not None else size)

    def uniform(self, low=0.0, high=1.0, size=None):
        return draw('uniform', size)

    def random_sample(self, size=None):
        return draw('uniform', size)
    rand = lambda self, *s: draw('uniform', s)
    randn = lambda self, *s: draw('normal', s)


_k = [0]


def draw(kind, shape):
    _k[0] += 1
    nm = '%s%d' % (kind, _k[0])
    v = tensor.alloc(shape, None, nm)
    v.st.content = lambda c: rd(nm, *c)
    return v


class ContractRnd(handler.Contracts):
    """random operations of the contract expressed over the same draws"""

    def generate_probability_mask(self, mask, probability):
        u = draw('uniform', mask.shape)
        tensor.assign_to(mask, tensor.ewise(lambda a, p: lt0(a - p), u, probability))

    def fill_gaussian(self, mean, std, out):
        z = draw('normal', out.shape)
        tensor.assign_to(out, tensor.ewise(lambda a, s, m: s * a + m, z, std, mean))


COLLECT = None
N_SHAPE = lambda sh, env: tuple(int(round(ev(P(d), env))) for d in sh)


def replay(ctx, item):
    """the operation on concrete arrays of the size in `item`, compared with the contract evaluated on them"""
    import numpy as np
    from brainstorm.handlers.numpy_handler import NumpyHandler
    global COLLECT
    COLLECT = {}
    try:
        for t in tasks('quick'):
            t[1](Dummy())
        arrays, call, alias, ints, lohi, result = COLLECT[item['tag']]
    finally:
        COLLECT = None
    env = Env(ints=item['dims'])
    for seed in range(8):
        rng = np.random.RandomState(seed)
        scale = [1., 1., 20., 20., 300., 300., 1., 5.][seed]

        def rnd(n, shape):
            lo, hi = (lohi or {}).get(n) or (-1.5 * scale, 1.5 * scale)
            if n in ints:
                return rng.randint(lo, hi, shape).astype(float)
            a = lo + rng.rand(*shape) * (hi - lo)
            if n == 'cond':
                a = (a > 0).astype(float)
            return a
        vals = {n: rnd(n, N_SHAPE(sh, env)) for n, sh in arrays.items() if not (alias and n in alias)}
        before = {n: a.copy() for n, a in vals.items()}
        sc = {}
        for n in ('s', 'lo', 'hi', 'p', 'mean', 'std'):
            lo, hi = (lohi or {}).get(n) or (-1.5 * scale, 1.5 * scale)
            sc[n] = lo + rng.rand() * (hi - lo)
        va = dict(vals)
        for n, m in (alias or {}).items():
            va[n] = vals[m]
        va.update({'#' + n: x for n, x in sc.items()})
        h = NumpyHandler(np.float64)
        call(h, va)
        # contract
        fac = [(1 - isym(n), 'le') for n in item['dims']]
        with Context(fac):
            del HEAP[:]
            loops.reset()
            vs = {n: input_array(n, sh, is_int=n in ints) for n, sh in arrays.items() if not (alias and n in alias)}
            for n, m in (alias or {}).items():
                vs[n] = vs[m]
            call(contract_handler(), Args(vs))
            for n, a in vals.items():
                v = vs[n]
                idx = [free_index(0, c.size) for c in v.flat()]
                w = elem(v, v.st.content, idx)
                w = handler.meaning(w, ('rel', 'el', 'rel_d', 'el_d'))
                pts = list(np.ndindex(*a.shape))
                if len(pts) > 60:
                    pts = [pts[i] for i in rng.permutation(len(pts))[:60]]
                ctx.count(('replay', item['tag'], tuple(sorted(item['dims'].items()))))
                for p in pts:
                    e = Env(ints=item['dims'], syms=sc, arrays={m: (lambda *i, b=before[m], sh=arrays[m]: float(b[at(sh, i)])) for m in before})
                    coord = [x for x, d in zip(p, arrays[n]) if P(d) != ONE]
                    x = ev(w, e, {list(q.free())[0]: c for q, c in zip(idx, coord)})
                    got = float(a[p])
                    if not abs(got - x) <= 1e-7 * (1 + abs(x)):
                        ctx.require(False, '%s, array %s at %s: %r, the contract says %r' % (item['tag'], n, p, got, x), dims=item['dims'], arguments=before, scalars=sc)


def at(sh, i):
    out, k = [], 0
    for d in sh:
        if P(d) == ONE:
            out.append(0)
        else:
            out.append(i[k]); k += 1
    return tuple(out)


class Dummy(object):
    def under(self, *a):
        pass

    def __getattr__(self, n):
        raise AttributeError(n)


def real_handler():
    import numpy as np
    from brainstorm.handlers.numpy_handler import NumpyHandler
    h = NumpyHandler(np.float64)
    h.rnd = Rnd()
    h.array_type = View
    return h


def contract_handler():
    c = ContractRnd()
    return c


def D(k, pre='N'):
    return [isym('%s%d' % (pre, i)) for i in range(k)]


class Args(dict):
    """arguments of an operation; '#x' is the scalar x"""

    def __missing__(self, k):
        return S(sym(k[1:]))


def prove_op(rec, op, label, arrays, call, facts=(), lohi=None, alias=None, ints=(), dims=None, result=False, numdims=None):
    """arrays: name -> shape (Polys/ints); alias: {name: other}; call(h, arrays) executes the operation"""
    fname = 'NumpyHandler.%s' % op
    rec.under(fname)
    tag = '%s[%s]' % (op, label)
    if COLLECT is not None:
        COLLECT[tag] = (arrays, call, alias, ints, lohi, result)
        return
    names = sorted({s for sh in arrays.values() for d in sh for s in syms_in(P(d))})
    facts = list(facts) + [(1 - isym(n), 'le') for n in names]

    def execute(h):
        def one():
            del HEAP[:]
            del WRITES[:]
            loops.reset()
            _k[0] = 0
            vs = {}
            for n, sh in arrays.items():
                if alias and n in alias:
                    continue
                vs[n] = input_array(n, sh, is_int=n in ints)
            for n, m in (alias or {}).items():
                vs[n] = vs[m]
            r = call(h, Args(vs))
            out = {n: (v, v.st.content) for n, v in vs.items() if not (alias and n in alias)}
            if result and r is not None:
                r = as_view(r)
                out['result'] = (r, r.st.content)
            return out
        return Explorer(limit=32).run(one)

    def go():
        with Context(facts):
            rec.context_ok(Ctx.cur, tag)
            want = execute(contract_handler())
            if len(want) != 1 or want[0][1][0] != 'ok':
                raise Unsupported('contract did not evaluate: %r' % (want[0][1][1],))
            want = want[0][1][1]
            for guards, (k, got) in execute(real_handler()):
                if guards:
                    Ctx.cur.push(*guard_facts(guards))
                try:
                    if k == 'exc':
                        rec.add(tag + ' completes', fname, 'undecided', 'raises %s: %s' % (type(got).__name__, got))
                        continue
                    for n in want:
                        if n not in got:
                            rec.add('%s: %s' % (tag, n), fname, 'undecided', 'no result')
                            continue
                        wv, wc = want[n]
                        gv, gc = got[n]
                        sh = [tensor.sizeprod(a) for a in wv.axes], [tensor.sizeprod(a) for a in gv.axes]
                        if n == 'result' and sh[0] != sh[1]:
                            rec.add('%s: shape of the result' % tag, fname, 'refuted', '%r instead of %r' % (sh[1], sh[0]))
                            continue
                        idx = [free_index(0, c.size) for c in wv.flat()]
                        w = elem(wv, wc, idx); g = elem(gv, gc, idx)
                        w, g = [handler.meaning(x, ('rel', 'el', 'rel_d', 'el_d', 'sigmoid')) for x in (w, g)]
                        nd = numdims or sizes(names)
                        if not rec.check('%s: %s' % (tag, n), fname, g, w, free=idx, dims=nd, lohi=lohi, vac=n in ('out', 'y', 'dx')):
                            o = rec.obls[-1]
                            o['items'] = [dict(tag=tag, dims=dict(nd[0], **{a: b for a, b in h.items() if a in nd[0]})) for h in (o.get('hints') or [])[:4] + [{}]]
                finally:
                    if guards:
                        Ctx.cur.pop()
    rec.attempt(tag, fname, go)


def elem(v, content, idx):
    st = tensor.Storage.__new__(tensor.Storage)
    st.dims, st.content, st.name, st.ctx, st.dtype, st.id = v.st.dims, content, v.st.name, v.st.ctx, v.st.dtype, -1
    return View(st, v.axes, list(v.base)).get(idx)


def sizes(names):
    return [{n: 1 + ((k * 5 + j * (k + 1)) % 3) for j, n in enumerate(names)} for k in range(4)]


ELEMENTWISE = [
    ('abs_t', ['a'], 'out', {}), ('sign_t', ['a'], 'out', {}), ('sqrt_t', ['a'], 'out', {'a': (0.1, 2)}), ('log_t', ['a'], 'out', {'a': (0.1, 2)}),
    ('add_tt', ['a', 'b'], 'out', {}), ('subtract_tt', ['a', 'b'], 'out', {}), ('mult_tt', ['a', 'b'], 'out', {}), ('divide_tt', ['a', 'b'], 'out', {'b': (0.5, 2)}),
    ('modulo_tt', ['a', 'b'], 'out', {'b': (0.5, 2), 'a': (0, 5)}), ('mult_add_tt', ['a', 'b'], 'out', {}),
    ('rel', ['x'], 'y', {}), ('sigmoid', ['x'], 'y', {}), ('tanh', ['x'], 'y', {}), ('el', ['x'], 'y', {}),
    ('rel_deriv', ['x', 'y', 'dy'], 'dx', {}), ('sigmoid_deriv', ['x', 'y', 'dy'], 'dx', {}), ('tanh_deriv', ['x', 'y', 'dy'], 'dx', {}), ('el_deriv', ['x', 'y', 'dy'], 'dx', {}),
    ('copy_to_if', ['src', 'cond'], 'dest', {}), ('add_into_if', ['a', 'cond'], 'out', {}),
]


def shape_cases(k):
    yield 'rank%d' % k, D(k)
    if k > 1:
        yield 'rank%d, first of size one' % k, [ONE] + D(k - 1)
        yield 'rank%d, last of size one' % k, D(k - 1) + [ONE]


def alias_cases(ins, out):
    yield 'separate', None
    for n in ins:
        yield '%s is %s' % (out, n), {out: n}
    if len(ins) == 2:
        yield '%s is %s' % (ins[1], ins[0]), {ins[1]: ins[0]}
        yield 'all the same', {ins[1]: ins[0], out: ins[0]}


def t_elementwise(rec, name, ins, out, lohi):
    for k in (1, 2, 3, 4):
        for lab, sh in shape_cases(k):
            for al, alias in alias_cases(ins, out):
                if alias and 'cond' in alias.values():
                    continue
                prove_op(rec, name, '%s, %s' % (lab, al), {n: sh for n in ins + [out]}, lambda h, v: getattr(h, name)(**{k: a for k, a in v.items() if not k.startswith('#')}), lohi=lohi, alias=alias)


def t_scalar(rec):
    for k in (1, 2, 3, 4):
        for lab, sh in shape_cases(k):
            for op in ('add_st', 'mult_st', 'mult_add_st'):
                for al in (None, {'out': 't'}):
                    prove_op(rec, op, '%s, %s' % (lab, 'in place' if al else 'separate'), {'t': sh, 'out': sh}, lambda h, v, op=op: getattr(h, op)(v['#s'], v['t'], v['out']), alias=al)
                    prove_op(rec, op, '%s, %s, number' % (lab, 'in place' if al else 'separate'), {'t': sh, 'out': sh}, lambda h, v, op=op: getattr(h, op)(0.5, v['t'], v['out']), alias=al)
            for al in (None, {'out': 'a'}):
                prove_op(rec, 'clip_t', '%s, %s' % (lab, 'in place' if al else 'separate'), {'a': sh, 'out': sh}, lambda h, v: h.clip_t(v['a'], v['#lo'], v['#hi'], v['out']), alias=al,
                         facts=[(sym('lo') - sym('hi'), 'le')], lohi={'lo': (-1, 0), 'hi': (0, 1)})
            prove_op(rec, 'fill_if', lab, {'mem': sh, 'cond': sh}, lambda h, v: h.fill_if(v['mem'], v['#s'], v['cond']))
            prove_op(rec, 'fill', lab, {'mem': sh}, lambda h, v: h.fill(v['mem'], v['#s']))
            prove_op(rec, 'copy_to', lab, {'src': sh, 'dest': sh}, lambda h, v: h.copy_to(v['src'], v['dest']))
            prove_op(rec, 'set_from_numpy', lab, {'mem': sh, 'arr': sh}, lambda h, v: h.set_from_numpy(v['mem'], v['arr']))
            prove_op(rec, 'get_numpy_copy', lab, {'arr': sh}, lambda h, v: h.get_numpy_copy(v['arr']), result=True)
            prove_op(rec, 'create_from_numpy', lab, {'arr': sh}, lambda h, v: h.create_from_numpy(v['arr']), result=True)
            shp = tuple(S(d) if P(d) != ONE else 1 for d in sh)
            for op in ('allocate', 'zeros', 'ones'):
                prove_op(rec, op, lab, {'other': sh}, lambda h, v, op=op: getattr(h, op)(shp), result=True)
            for al in (None,):
                prove_op(rec, 'generate_probability_mask', lab, {'mask': sh}, lambda h, v: h.generate_probability_mask(v['mask'], v['#p']), lohi={'p': (0, 1), 'uniform1': (0, 1)})
                prove_op(rec, 'fill_gaussian', lab, {'out': sh}, lambda h, v: h.fill_gaussian(v['#mean'], v['#std'], v['out']))


def t_matvec(rec):
    R, C = isym('R'), isym('C')
    for op in ('add_mv', 'subtract_mv', 'mult_mv', 'divide_mv', 'mult_add_mv'):
        for r, c in ((R, C), (ONE, C), (R, ONE), (ONE, ONE)):
            vs = [('row', [ONE, c]), ('column', [r, ONE])] + ([('full', [r, c])] if op == 'mult_mv' else [])
            for lab, vsh in vs:
                for al in (None, {'out': 'm'}):
                    prove_op(rec, op, '%s vector, %s x %s, %s' % (lab, show(r, 20), show(c, 20), 'in place' if al else 'separate'), {'m': [r, c], 'v': vsh, 'out': [r, c]},
                             lambda h, v, op=op: getattr(h, op)(v['m'], v['v'], v['out']), alias=al, lohi={'v': (0.5, 2)})


def t_dot(rec):
    M, K, N = isym('M'), isym('K'), isym('N')
    for op in ('dot_mm', 'dot_add_mm'):
        for m, k, n in itertools.product((M, ONE), (K, ONE), (N, ONE)):
            for ta in (False, True):
                for tb in (False, True):
                    arrays = {'a': [k, m] if ta else [m, k], 'b': [n, k] if tb else [k, n], 'out': [m, n]}
                    prove_op(rec, op, '%s x %s x %s%s%s' % (show(m, 20), show(k, 20), show(n, 20), ' a^T' if ta else '', ' b^T' if tb else ''), arrays,
                             lambda h, v, op=op, ta=ta, tb=tb: getattr(h, op)(v['a'], v['b'], v['out'], transa=ta, transb=tb))
            if m == k == n or True:
                pass
        sq = [M, M]
        for ta in (False, True):
            for tb in (False, True):
                prove_op(rec, op, 'same factor%s%s' % (' a^T' if ta else '', ' b^T' if tb else ''), {'a': sq, 'b': sq, 'out': sq},
                         lambda h, v, op=op, ta=ta, tb=tb: getattr(h, op)(v['a'], v['b'], v['out'], transa=ta, transb=tb), alias={'b': 'a'})


def t_reduce(rec):
    for k in (1, 2, 3, 4):
        for lab, sh in shape_cases(k):
            prove_op(rec, 'sum_t', '%s, all' % lab, {'a': sh, 'out': []}, lambda h, v: h.sum_t(v['a'], None, v['out']))
            for ax in range(k):
                for keep in (False, True):
                    o = sh[:ax] + ([ONE] if keep else []) + sh[ax + 1:]
                    if not o and not keep:
                        continue
                    prove_op(rec, 'sum_t', '%s, axis %d%s' % (lab, ax, ', rank kept' if keep else ''), {'a': sh, 'out': o}, lambda h, v, ax=ax: h.sum_t(v['a'], ax, v['out']))
                if k > 1 or True:
                    o = sh[:ax] + [ONE] + sh[ax + 1:]
                    prove_op(rec, 'broadcast_t', '%s, axis %d' % (lab, ax), {'a': o, 'out': sh}, lambda h, v, ax=ax: h.broadcast_t(v['a'], ax, v['out']))


def t_index(rec):
    R, C = isym('R'), isym('C')
    inr = [(2 - C, 'le')]
    for r in (R, ONE):
        lab = '%s rows' % show(r, 20)
        prove_op(rec, 'index_m_by_v', lab, {'m': [r, C], 'v': [r, ONE], 'out': [r, ONE]}, lambda h, v: h.index_m_by_v(v['m'], v['v'], v['out']), ints=('v',), lohi={'v': (0, 2)}, facts=inr,
                 numdims=[dict(R=q, C=3) for q in (1, 2, 3)])
        prove_op(rec, 'binarize_v', lab, {'v': [r, ONE], 'out': [r, C]}, lambda h, v: h.binarize_v(v['v'], v['out']), ints=('v',), lohi={'v': (0, 2)}, facts=inr,
                 numdims=[dict(R=q, C=3) for q in (1, 2, 3)])
        for c in (C, ONE):
            for al in (None, {'out': 'm'}):
                prove_op(rec, 'softmax_m', '%s x %s%s' % (lab, show(c, 20), ', in place' if al else ''), {'m': [r, c], 'out': [r, c]}, lambda h, v: h.softmax_m(v['m'], v['out']), alias=al)
    for k in (1, 2, 3, 4):
        sh = D(k - 1)
        A, B = isym('A'), isym('B')
        for a, b in ((A, B), (ONE, B), (A, ONE)):
            prove_op(rec, 'merge_tt', 'rank%d %s+%s' % (k, show(a, 20), show(b, 20)), {'a': sh + [a], 'b': sh + [b], 'out': sh + [a + b]}, lambda h, v: h.merge_tt(v['a'], v['b'], v['out']))
            prove_op(rec, 'split_add_tt', 'rank%d %s+%s' % (k, show(a, 20), show(b, 20)), {'x': sh + [a + b], 'out_a': sh + [a], 'out_b': sh + [b]},
                     lambda h, v: h.split_add_tt(v['x'], v['out_a'], v['out_b']))


def t_activation_derivatives(rec):
    """the derivative symbols used in C01: f_d(f(x)) is the derivative of f at x"""
    if COLLECT is not None:
        return
    rec.under('contract of rel_deriv', 'contract of el_deriv', 'contract of sigmoid_deriv', 'contract of tanh_deriv')
    with Context([]):
        x = rd('x')
        rules = {'rel': lambda y: lt0(-y), 'el': lambda y: ite(lt0(y), y + 1, 1), 'sigmoid': lambda y: y * (1 - y), 'tanh': lambda y: 1 - y * y}
        for n, f in handler.MEANING.items():
            if n.endswith('_d'):
                continue
            fx = f(x)
            want = diff(fx, 'x', ())
            for side, facts in (('x<0', [(x, 'lt')]), ('x>0', [(-x, 'lt')])):
                Ctx.cur.push(*facts)
                try:
                    from engine.prover import resimplify
                    y = resimplify(fx)
                    if n == 'el' and side == 'x<0':
                        # exp(x)-1 < 0 for x < 0: the sign of exp is outside linear arithmetic, use y itself as the variable
                        Ctx.cur.push((y, 'lt'))
                    try:
                        rec.check('derivative of %s for %s' % (n, side), 'contract of %s_deriv' % n, rules[n](y), resimplify(want), vac=False,
                                  lohi={'x': (-1.5, -0.1) if side == 'x<0' else (0.1, 1.5)})
                    finally:
                        if n == 'el' and side == 'x<0':
                            Ctx.cur.pop()
                finally:
                    Ctx.cur.pop()


def tasks(tier):
    for name, ins, out, lohi in ELEMENTWISE:
        yield name, (lambda rec, a=(name, ins, out, lohi): t_elementwise(rec, *a))
    for f in (t_scalar, t_matvec, t_dot, t_reduce, t_index, t_activation_derivatives):
        yield f.__name__[2:], f
