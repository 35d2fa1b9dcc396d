"""C10: initialisers / modifiers selected by patterns, against an independent model of the selection."""
import copy, itertools
import numpy as np
from .nets import build

NAMES = ['L', 'L1', 'L2', 'L12', 'LL', 'fc', 'fc_1', 'fc_1_1', 'Fc', 'xL', '_L', 'rec', 'rec_L']


def glob(p, s):
    if not p:
        return not s
    if p[0] == '*':
        return any(glob(p[1:], s[i:]) for i in range(len(s) + 1))
    return bool(s) and p[0] == s[0] and glob(p[1:], s[1:])


class Refused(Exception):
    pass


def select(struct, refs):
    """model: {(layer, view): (content list, fallback list)}"""
    res = {}

    def match(keys, refs):
        m = {k: [r for r in refs if r not in ('default', 'fallback') and glob(r, k)] for k in keys}
        for r in refs:
            if r not in ('default', 'fallback') and not any(r in v for v in m.values()):
                raise Refused('unmatched ' + r)
        if 'default' in refs:
            for k in m:
                m[k] = m[k] or ['default']
        return m
    top = match(struct, refs)
    for l in struct:
        cont = {v: [] for v in struct[l]}; dfl = {v: [] for v in struct[l]}; fb = {v: [] for v in struct[l]}
        D, F = refs.get('default'), refs.get('fallback')
        paths = [refs[r] for r in top[l]]
        for sub in paths:
            if isinstance(sub, dict):
                d2, f2 = sub.get('default', D), sub.get('fallback', F)
                m = match(struct[l], sub)
                for v in struct[l]:
                    for q in m[v]:
                        cont[v].append(sub[q])
                    dfl[v].append(d2); fb[v].append(f2)
            else:
                for v in struct[l]:
                    cont[v].append(sub); dfl[v].append(D); fb[v].append(F)
        if not paths:
            for v in struct[l]:
                dfl[v].append(D); fb[v].append(F)
        for v in struct[l]:
            c = dedup([x for x in cont[v]])
            if not c:
                c = dedup([x for x in dfl[v] if x is not None])
            res[l, v] = (c, dedup([x for x in fb[v] if x is not None]))
    return res


def dedup(l):
    out = []
    for x in l:
        if not any(x is y or (isinstance(x, (int, float)) and x == y) for y in out):
            out.append(x)
    return out


def net_of(py):
    names = py.sample(NAMES, py.randint(1, 5))
    arch = {'Input': {'@type': 'Input', 'out_shapes': {'default': ('T', 'B', 2)}, '@outgoing_connections': {'default': [n + '.default' for n in names]}}}
    for n in names:
        arch[n] = {'@type': py.choice(['FullyConnected', 'Recurrent', 'Lstm']), 'size': py.randint(1, 3), '@outgoing_connections': {}}
    net = build(arch, shuffle=py)
    struct = {n: list(net.buffer[n].parameters.keys()) for n in names + ['Input']}   # Input: no parameters
    return net, struct


def pattern(py, keys):
    k = py.choice(sorted(keys))
    r = py.random()
    if r < .35:
        return k
    i, j = sorted((py.randint(0, len(k)), py.randint(0, len(k))))
    p = k[:i] + '*' + k[j:]
    if py.random() < .2:
        p = '*' + p
    if py.random() < .08:
        p = py.choice(['Zz*', 'nothing', '*q*q', k + '_'])
    return p


def rand_refs(py, struct, mk):
    refs = {}
    for _ in range(py.randint(0, 3)):
        p = pattern(py, struct)
        views = sorted({v for l in struct for v in struct[l]})
        ls = [l for l in struct if glob(p, l)]
        if py.random() < .6:
            sub = {}
            for _ in range(py.randint(1, 3)):
                vs = sorted(set.intersection(*[set(struct[l]) for l in ls])) if ls else views
                sub[pattern(py, vs or views)] = mk()
            if py.random() < .4:
                sub['default'] = mk()
            if py.random() < .3:
                sub['fallback'] = mk(True)
            refs[p] = sub
        else:
            refs[p] = mk()
    if py.random() < .7:
        refs['default'] = mk()
    if py.random() < .4:
        refs['fallback'] = mk(True)
    return refs


def initialisers(ctx):
    from brainstorm.utils import NetworkValidationError, InitializationError
    from brainstorm.initializers import Initializer
    state = {'n': 0}

    class Mat(Initializer):
        def __init__(self, val):
            super(Mat, self).__init__(); self.val = val

        def __call__(self, shape):
            if len(shape) != 2:
                raise InitializationError('2d only')
            return np.full(shape, self.val)

    def mk(fallback=False):
        state['n'] += 1
        return float(state['n']) if (fallback or ctx.py.random() < .6) else Mat(float(state['n']))
    ok = 0
    for rep in range(ctx.n(500, 6000)):
        if ctx.out_of_time():
            break
        net, struct = net_of(ctx.py)
        refs = rand_refs(ctx.py, struct, mk)
        desc = {k: ({a: str(getattr(b, 'val', b)) for a, b in v.items()} if isinstance(v, dict) else str(getattr(v, 'val', v))) for k, v in refs.items()}
        info = dict(struct=struct, refs=desc)
        ctx.count(('init', rep), info)
        snapshot = {k: dict(v) if isinstance(v, dict) else v for k, v in refs.items()}
        try:
            sel = select(struct, refs)
            want = {}
            for (l, v), (c, f) in sorted(sel.items()):
                if len(c) != 1:
                    raise Refused('%d initialisers for %s.%s' % (len(c), l, v))
                if len(f) > 1:
                    raise Refused('several fallbacks')
                x = c[0]
                if isinstance(x, Mat):
                    if net.buffer[l].parameters[v].ndim != 2:
                        if not f:
                            raise Refused('init error')
                        x = f[0]
                    else:
                        x = x.val
                want[l, v] = x
        except Refused as r:
            ctx.raises(Exception, lambda: net.initialize(refs), 'assignment must be refused (%s)' % r, **info)
            continue
        ok += 1
        if rep % 2 or any('*' in k for k in refs):
            net.initialize(refs)
        else:
            net.initialize(**refs)
        for (l, v), x in want.items():
            p = net.buffer[l].parameters[v]
            ctx.require((p == x).all(), '%s.%s initialised to %s, contract says %s' % (l, v, sorted(set(p.ravel()))[:3], x), **info)
        ctx.require(refs.keys() == snapshot.keys() and all(refs[k] is snapshot[k] if not isinstance(snapshot[k], dict) else refs[k] == snapshot[k] for k in refs), 'initialize changed the given dictionary', **info)
    ctx.require(ok > 20, 'vacuous: no accepted assignment') if not ctx.out_of_time() else None


def arrays(ctx):
    """lists and arrays are initialisers too; scalars, shapes and errors"""
    from brainstorm.utils import NetworkValidationError, InitializationError
    for rep in range(ctx.n(40, 300)):
        net, struct = net_of(ctx.py)
        l = ctx.py.choice(sorted(k for k in struct if struct[k])); v = ctx.py.choice(struct[l])
        a = ctx.rng.randn(*net.buffer[l].parameters[v].shape)
        given = a.tolist() if rep % 2 else a
        ctx.count(('array', rep))
        net.initialize({'default': 7, l: {v: given}})
        for m in struct:
            for w in struct[m]:
                ctx.same(net.buffer[m].parameters[w], a if (m, w) == (l, v) else np.full(net.buffer[m].parameters[w].shape, 7.0), 'array initialiser', layer=l, view=v)
        bad = np.zeros(a.shape + (2,))
        ctx.raises(InitializationError, lambda: net.initialize({'default': 7, l: {v: bad}}), 'array of the wrong shape')
        net.initialize({'default': 7, 'fallback': 3, l: {v: bad}})
        ctx.require((net.buffer[l].parameters[v] == 3).all(), 'fallback for array of wrong shape')
        ctx.raises(TypeError, lambda: net.initialize({'default': 7}, default=8), 'conflicting keyword')


def modifiers(ctx):
    from brainstorm.value_modifiers import ValueModifier, GradientModifier
    from brainstorm.utils import NetworkValidationError
    cnt = {'n': 0}

    class Aff(ValueModifier):
        """x -> 3 x + k; counts its calls"""
        def __init__(self, k):
            super(Aff, self).__init__(); self.k = k; self.calls = 0

        def __call__(self, handler, view):
            self.calls += 1
            view[...] = 3 * view + self.k + 1000 * (self.calls - 1)

    class GAff(GradientModifier):
        def __init__(self, k):
            super(GAff, self).__init__(); self.k = k; self.calls = 0

        def __call__(self, handler, parameters, gradients):
            self.calls += 1
            gradients[...] = 3 * gradients + self.k + 1000 * (self.calls - 1) + parameters

    for rep in range(ctx.n(400, 5000)):
        if ctx.out_of_time():
            return
        net, struct = net_of(ctx.py)
        grad = bool(rep % 2)

        def one():
            cnt['n'] += 1
            return (GAff if grad and ctx.py.random() < .5 else Aff)(float(cnt['n']))

        def mk(fallback=False):
            return [one() for _ in range(ctx.py.randint(1, 3))] if ctx.py.random() < .5 else one()
        refs = rand_refs(ctx.py, struct, mk)
        refs.pop('fallback', None)
        for s in refs.values():
            if isinstance(s, dict):
                s.pop('fallback', None)
        ks = lambda x: [type(y).__name__ + str(y.k) for y in (x if isinstance(x, list) else [x])]
        info = dict(struct=struct, gradient=grad, refs={k: ({a: ks(b) for a, b in v.items()} if isinstance(v, dict) else ks(v)) for k, v in refs.items()})
        ctx.count(('mod', rep), info)
        setter = net.set_gradient_modifiers if grad else net.set_weight_modifiers
        try:
            sel = select(struct, refs)
        except Refused as r:
            ctx.raises(NetworkValidationError, lambda: setter(refs), 'assignment must be refused (%s)' % r, **info)
            continue
        setter(refs)
        P, G = net.buffer.parameters, net.buffer.gradients
        P[...] = ctx.rng.randn(P.size); G[...] = ctx.rng.randn(G.size)
        p0 = {(l, v): net.buffer[l].parameters[v].copy() for l in struct for v in struct[l]}
        g0 = {(l, v): net.buffer[l].gradients[v].copy() for l in struct for v in struct[l]}
        allowed = {}
        for k, (c, _) in sel.items():
            vals = []
            groups = [x if isinstance(x, list) else [x] for x in c]
            for perm in itertools.permutations(groups):
                x = (g0 if grad else p0)[k].copy()
                for call in range(2):
                    for m in itertools.chain(*perm):
                        x = 3 * x + m.k + 1000 * call + (p0[k] if isinstance(m, GAff) else 0)
                vals.append(x)
            allowed[k] = vals
        for call in range(2):
            net.apply_gradient_modifiers() if grad else net.apply_weight_modifiers()
        for k in allowed:
            l, v = k
            got = net.buffer[l].gradients[v] if grad else net.buffer[l].parameters[v]
            other = net.buffer[l].parameters[v] if grad else net.buffer[l].gradients[v]
            ctx.same(other, (p0 if grad else g0)[k], 'modifiers must not touch the other array', **info)
            ctx.require(any(np.allclose(got, w, rtol=1e-12) for w in allowed[k]), 'modifiers applied to %s.%s are not the selected ones in the given order' % k, got=got, want=allowed[k][0], **info)
        for s in refs.values():
            for x in (s.values() if isinstance(s, dict) else [s]):
                for m in (x if isinstance(x, list) else [x]):
                    ctx.require(m.calls == 0, 'modifier objects are shared with the caller', **info)


def state_isolation(ctx):
    from brainstorm.value_modifiers import FreezeValues
    for rep in range(ctx.n(15, 100)):
        net, struct = net_of(ctx.py)
        fz = FreezeValues()
        net.set_weight_modifiers({'default': fz} if rep % 2 else {n: {'*': [fz]} for n in struct if struct[n]})
        net.buffer.parameters[...] = np.arange(net.buffer.parameters.size)
        p = net.get('parameters')
        net.apply_weight_modifiers()
        net.buffer.parameters[...] += 5
        net.apply_weight_modifiers()
        ctx.count(('iso', rep))
        ctx.same(net.get('parameters'), p, 'one modifier object used for all parameters: state is shared')
    net, struct = net_of(ctx.py)
    ctx.raises(Exception, lambda: net.set_weight_modifiers({'default': FreezeValues(), 'fallback': FreezeValues()}), 'fallback for modifiers')


def replay(ctx, item):
    dict(select=both, init=initialisers, mods=modifiers)[item['kind']](ctx)


def both(ctx):
    initialisers(ctx)
    modifiers(ctx)


CASES = [initialisers, arrays, modifiers, state_isolation]
