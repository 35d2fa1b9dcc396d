"""C06: layer order and validation of architectures."""
import itertools
import numpy as np
from .nets import random_arch


def named(py):
    # neighbours differ in case, in a number, in underscores or in length only
    pool = ['a', 'A', 'aa', 'B', 'b', 'L_1', 'L_01', 'L_10', 'L_2', 'l_1', '_x', 'x_', 'x', 'X', 'Input2', 'input', 'INPUT', 'out', 'Out', 'A9', 'A_9', 'Zed', 'm', 'M']
    if py.random() < .5:
        py.shuffle(pool)
    else:
        k = py.randrange(len(pool)); pool = pool[k:] + pool[:k]
    return lambda i: pool[i]


def order(ctx):
    from brainstorm.structure.architecture import get_canonical_layer_order, instantiate_layers_from_architecture
    for rep in range(ctx.n(200, 3000)):
        if ctx.out_of_time():
            return
        arch, size = random_arch(ctx.py, n_layers=ctx.py.randint(1, 8), p_extra=0.6, name=named(ctx.py), two_inputs=bool(rep % 2))
        base = None
        for k in range(4):
            ks = list(arch); ctx.py.shuffle(ks)
            a2 = {}
            for n in ks:
                d = dict(arch[n]); oc = {}
                for o, cs in sorted(d['@outgoing_connections'].items(), key=lambda _: ctx.py.random()):
                    cs = list(cs); ctx.py.shuffle(cs); oc[o] = cs
                d['@outgoing_connections'] = oc
                a2[n] = d
            o = list(get_canonical_layer_order(a2))
            ls = list(instantiate_layers_from_architecture(a2))
            ctx.count((rep, k), dict(arch=arch) if k == 0 and rep < 3 else None)
            ctx.require(sorted(o) == sorted(arch), 'order does not contain every layer exactly once: %s' % o, arch=a2)
            ctx.require(ls == o, 'layers are not instantiated in the canonical order', arch=a2)
            for n, d in a2.items():
                for cs in d['@outgoing_connections'].values():
                    for c in cs:
                        ctx.require(o.index(n) < o.index(c.split('.')[0]), '%s feeds %s but comes later: %s' % (n, c, o), arch=a2)
            ctx.require(base is None or o == base, 'order depends on how the architecture is written down: %s / %s' % (base, o), arch=a2)
            base = o


def execution(ctx):
    """layers are really run in that order forward and in the reverse order backward, each exactly once"""
    from .nets import try_build, data_for
    for rep in range(ctx.n(25, 300)):
        arch, size, net = try_build(ctx.py, n_layers=ctx.py.randint(1, 7))
        net.provide_external_data(data_for(arch, ctx.rng, 2, 2))
        calls = []
        for n, l in net.layers.items():
            def wrap(l, n):
                f, b = l.forward_pass, l.backward_pass
                l.forward_pass = lambda *a, **k: (calls.append(('f', n)), f(*a, **k))[1]
                l.backward_pass = lambda *a, **k: (calls.append(('b', n)), b(*a, **k))[1]
            wrap(l, n)
        net.forward_pass(training_pass=True); net.backward_pass()
        fw = [n for d, n in calls if d == 'f']; bw = [n for d, n in calls if d == 'b']
        ctx.count(rep)
        ctx.require(sorted(x for x in fw if x != 'Input') == sorted(x for x in arch if x != 'Input'), 'not every layer ran exactly once: %s' % fw, arch=arch)
        ctx.require([x for x in bw if x != 'Input'] == [x for x in reversed(fw) if x != 'Input'], 'backward order is not the reverse', arch=arch, fw=fw, bw=bw)
        for n, d in arch.items():
            if n == 'Input':
                continue
            for cs in d['@outgoing_connections'].values():
                for c in cs:
                    ctx.require(fw.index(n) < fw.index(c.split('.')[0]), '%s ran after %s' % (n, c), arch=arch, fw=fw)


def refuse(ctx):
    import brainstorm as bs
    from brainstorm.structure.architecture import validate_architecture
    for rep in range(ctx.n(60, 500)):
        arch, size = random_arch(ctx.py, n_layers=ctx.py.randint(2, 6), types=('FullyConnected', 'Recurrent'))
        build = lambda a: bs.Network.from_architecture(a)
        ls = [n for n in arch if n != 'Input']
        import copy
        # cycle: along an existing path back, or to itself
        a = copy.deepcopy(arch)
        reach = {n: {n} for n in arch}
        ch = True
        while ch:
            ch = False
            for n, d in arch.items():
                for cs in d['@outgoing_connections'].values():
                    for c in cs:
                        m = c.split('.')[0]
                        if not reach[m] <= reach[n]:
                            reach[n] |= reach[m]; ch = True
        n = ctx.py.choice(ls); m = ctx.py.choice(sorted(reach[n]))
        a[m]['@outgoing_connections'].setdefault('default', []).append(n + '.default')
        ctx.count(('cycle', rep))
        ctx.raises(Exception, lambda: build(a), 'architecture with a cycle %s -> %s' % (m, n), arch=a)
        a = copy.deepcopy(arch)
        a[ctx.py.choice(sorted(a))]['@outgoing_connections'].setdefault('default', []).append('nowhere.default')
        ctx.raises(Exception, lambda: build(a), 'unknown connection target', arch=a)
        ctx.raises(Exception, lambda: validate_architecture(a), 'unknown connection target', arch=a)
        a = copy.deepcopy(arch)
        a[ctx.py.choice(ls)]['@outgoing_connections'].setdefault('default', []).append('Input.default')
        ctx.raises(Exception, lambda: build(a), 'connection into the input layer', arch=a)
        ctx.raises(Exception, lambda: validate_architecture(a), 'connection into the input layer', arch=a)
        a = copy.deepcopy(arch); d = a.pop('Input')
        ctx.raises(Exception, lambda: validate_architecture(a), 'no input layer', arch=a)
        a['In'] = d
        ctx.raises(Exception, lambda: validate_architecture(a), 'no layer called Input', arch=a)
        a = copy.deepcopy(arch); extra = ctx.py.choice(['A', 'Zzz', 'input'])
        if extra not in a:
            a[extra] = copy.deepcopy(a['Input'])
            ctx.raises(Exception, lambda: build(a), 'second input layer', arch=a)
            ctx.raises(Exception, lambda: validate_architecture(a), 'second input layer', arch=a)
        for bad in ('1abc', 'a-b', '', 'a b', 'a.b', 'ä', 'x\n'):
            a = copy.deepcopy(arch); n = ctx.py.choice(ls)
            a = {(bad if k == n else k): v for k, v in a.items()}
            for v in a.values():
                v['@outgoing_connections'] = {o: [c.replace(n + '.', bad + '.') if c.split('.')[0] == n else c for c in cs]
                                              for o, cs in v['@outgoing_connections'].items()}
            ctx.raises(Exception, lambda: validate_architecture(a), 'invalid layer name %r' % bad, arch=a)
        ctx.require(validate_architecture(arch), 'valid architecture refused', arch=arch)


def replay(ctx, item):
    dict(order=order, execution=execution, refuse=refuse)[item['kind']](ctx)


CASES = [order, execution, refuse]
