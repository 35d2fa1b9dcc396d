"""C19: wiring layers in code yields the architecture."""
import numpy as np


def script(ctx):
    """random construction script: creation (in a random interleaving with wiring), names, kwargs, connections"""
    import brainstorm.layers as L
    py = ctx.py
    n = py.randint(1, 8)
    pool = [None, None, None, 'A', 'A', 'A_1', 'A_2', 'A_1_1', 'B', 'FullyConnected', 'FullyConnected_1', 'FullyConnected_2', 'Rnn_10', '_q']
    nodes = [dict(type='Input', name=None, kw={'out_shapes': {'default': ('T', 'B', 3), 'aux': ('T', 'B', 2)}})]
    for i in range(n):
        ty = py.choice(['FullyConnected', 'FullyConnected', 'Recurrent', 'NoOp', 'Merge'])
        kw = {'size': py.randint(1, 4), 'activation': py.choice(['tanh', 'linear'])} if ty in ('FullyConnected', 'Recurrent') else {}
        nodes.append(dict(type=ty, name=py.choice(pool), kw=kw))
    edges = []
    for i in range(1, n + 1):
        if nodes[i]['type'] == 'Merge':
            cand = [('inputs_1',), ('inputs_2',)]
        else:
            cand = [('default',)]
        for (inp,) in cand:
            for j in sorted(py.sample(range(i), min(i, 1 if py.random() < .6 else 2))):
                out = 'aux' if j == 0 and py.random() < .3 else 'default'
                edges.append((j, out, inp, i))
    edges = list(dict.fromkeys(edges))
    return nodes, edges


def build_layers(ctx, nodes, edges):
    """create and wire in a random order; returns wrappers by node and creation order"""
    import brainstorm.layers as L
    py = ctx.py
    todo = list(edges); py.shuffle(todo)
    w, created = {}, []

    def get(i):
        if i not in w:
            d = nodes[i]
            w[i] = getattr(L, d['type'])(name=d['name'], **d['kw']) if d['name'] else getattr(L, d['type'])(**d['kw'])
            created.append(i)
        return w[i]
    early = [i for i in range(len(nodes)) if py.random() < .5]; py.shuffle(early)
    for i in early:
        get(i)
    done = []
    while todo:
        j, o, inp, i = todo.pop()
        a, b = get(j), get(i)
        if py.random() < .5 and o == 'default' and inp == 'default':
            r = a >> b
        elif o == 'default':
            r = a >> inp - b
        elif inp == 'default':
            r = a - o >> b
        else:
            r = a - o >> inp - b
        ctx.require(r.layer is b.layer, 'the result of wiring is the right-hand layer')
        done.append((j, o, inp, i))
        if py.random() < .3:
            get(py.randrange(len(nodes)))
    return w, created, done


def expected_names(nodes, created, comp):
    """the naming contract, for the layers of one connected component"""
    base = {i: nodes[i]['name'] or nodes[i]['type'] for i in comp}
    groups = {}
    for i in created:
        if i in comp:
            groups.setdefault(base[i], []).append(i)
    names = {}
    for b, g in groups.items():
        if len(g) == 1:
            names[g[0]] = b
            continue
        k = 1
        for i in g:
            while '%s_%d' % (b, k) in groups and len(groups['%s_%d' % (b, k)]) == 1:
                k += 1
            names[i] = '%s_%d' % (b, k); k += 1
    return names


def architecture(ctx):
    import brainstorm as bs
    from brainstorm.structure.architecture import generate_architecture
    from brainstorm.utils import NetworkValidationError
    for rep in range(ctx.n(400, 5000)):
        if ctx.out_of_time():
            return
        nodes, edges = script(ctx)
        w, created, done = build_layers(ctx, nodes, edges)
        comp = {0}
        while True:
            more = {b for a, _, _, b in edges if a in comp} | {a for a, _, _, b in edges if b in comp}
            if more <= comp:
                break
            comp |= more
        if 0 not in w:
            continue
        names = expected_names(nodes, created, comp)
        info = dict(nodes=[(d['type'], d['name']) for d in nodes], created=created, connections=done)
        ctx.count(('arch', rep), info if rep < 3 else None)
        start = ctx.py.choice(sorted(comp))
        arch = generate_architecture(w[start])
        ctx.require(len(set(names.values())) == len(comp), 'contract itself gives equal names', **info)
        ctx.require(set(arch) == set(names.values()), 'names of the architecture %s, contract %s' % (sorted(arch), sorted(names.values())), **info)
        for i in comp:
            d = arch[names[i]]
            ctx.require(d['@type'] == nodes[i]['type'], 'type of ' + names[i], got=d, **info)
            kw = {k: v for k, v in d.items() if k not in ('@type', '@outgoing_connections')}
            ctx.require(kw == nodes[i]['kw'], 'arguments of %s: %s' % (names[i], kw), want=nodes[i]['kw'], **info)
            want = sorted((o, '%s.%s' % (names[b], inp)) for a, o, inp, b in edges if a == i)
            got = sorted((o, c) for o, cs in d['@outgoing_connections'].items() for c in cs)
            ctx.require(got == want, 'connections of %s: %s' % (names[i], got), want=want, **info)
        # net from layers == net from that architecture
        def mk(f):
            try:
                net = f(); net.provide_external_data({'default': np.zeros((2, 2, 3)), 'aux': np.zeros((2, 2, 2))}); return net
            except NetworkValidationError as e:
                return 'validation'
            except KeyError as e:
                return 'validation'
        if nodes and names[0] == 'Input':
            a, b = mk(lambda: bs.Network.from_layer(w[start])), mk(lambda: bs.Network.from_architecture(arch))
            if 'validation' in (a, b) or isinstance(a, str) or isinstance(b, str):
                ctx.require(a == b, 'from_layer and from_architecture differ in what they accept', **info)
                continue
            ctx.require(a.architecture == b.architecture and list(a.layers) == list(b.layers), 'networks differ', **info)
            for net in (a, b):
                ctx.require(set(net.layers) == set(arch), 'layers of the network', **info)
                for i in comp:
                    l = net.layers[names[i]]
                    byinp = {}
                    for s, o, inp, e in edges:
                        if e == i:
                            byinp.setdefault(inp, []).append(net.layers[names[s]].out_shapes[o].shape)
                    for inp, shs in byinp.items():
                        want = ('T', 'B', sum(s[-1] for s in shs))
                        ctx.require(tuple(l.in_shapes[inp].shape) == want, 'input shape of %s.%s: %s instead of %s' % (names[i], inp, l.in_shapes[inp].shape, want), **info)


def shapes(ctx):
    """concatenation of shapes; mismatches are refused"""
    from brainstorm.structure.buffer_structure import combine_buffer_structures, BufferStructure
    py = ctx.py
    for rep in range(ctx.n(600, 8000)):
        def one():
            lead = py.choice([('T', 'B'), ('T', 'B'), ('B',), ()])
            return lead + tuple(py.randint(1, 3) for _ in range(py.randint(1, 3)))
        a = one()
        lst = [a]
        for _ in range(py.randint(0, 3)):
            if py.random() < .7:
                lst.append(a[:-1] + (py.randint(1, 4),))
            else:
                lst.append(one())
        lead = lambda s: tuple(x for x in s if isinstance(x, str))
        ok = all(lead(s) == lead(a) and len(s) == len(a) and s[:-1] == a[:-1] for s in lst)
        ctx.count(('shape', tuple(lst)))
        f = lambda: combine_buffer_structures([BufferStructure(*s) for s in lst])
        if ok:
            want = a[:-1] + (sum(s[-1] for s in lst),)
            ctx.require(tuple(f().shape) == want, 'combined shape %s of %s' % (f().shape, lst))
        else:
            ctx.raises(Exception, f, 'mismatching shapes %s' % (lst,))


def names_only(ctx):
    """histories of creations and mergings of scopes: names always unique and stable in form"""
    import re
    from brainstorm.structure.construction import UniquelyNamed
    py = ctx.py
    for rep in range(ctx.n(300, 4000)):
        objs, sets, hist = [], [], []
        for step in range(py.randint(1, 14)):
            if not objs or py.random() < .5:
                b = py.choice(['A', 'A', 'A_1', 'A_2', 'A_1_1', 'B', 'A_3', 'A_10'])
                objs.append((UniquelyNamed(b), b)); sets.append({len(objs) - 1}); hist.append(('new', b))
            else:
                i, j = py.randrange(len(objs)), py.randrange(len(objs))
                objs[i][0].merge_scopes(objs[j][0]); hist.append(('merge', i, j))
                a = next(s for s in sets if i in s); b = next(s for s in sets if j in s)
                if a is not b:
                    sets.remove(b); a |= b
            for s in sets:
                nodes = [dict(name=b) for _, b in objs]
                want = expected_names(nodes, sorted(s), s)
                got = {i: objs[i][0].name for i in s}
                ctx.require(got == want, 'names %s, contract %s' % (got, want), history=hist)
                ctx.require(len(set(got.values())) == len(s), 'duplicate name', history=hist)
        ctx.count(('names', rep), dict(history=hist) if rep < 2 else None)


def refuse(ctx):
    import brainstorm.layers as L
    from brainstorm.utils import NetworkValidationError
    from brainstorm.structure.construction import ConstructionWrapper
    for bad in ['a.b', '1a', 'a b', '', 'a-b', 'a\n', 'ä b', 'fallback', 'default', 'a$']:
        ctx.count(('bad', bad))
        if bad:
            ctx.raises(NetworkValidationError, lambda: L.NoOp(name=bad), 'layer name %r' % bad)
    ctx.raises(NetworkValidationError, lambda: ConstructionWrapper.create('Foo'), 'type without LayerImpl')
    ctx.raises(TypeError, lambda: L.NoOp() >> 3, 'wiring to a number')
    ctx.raises(TypeError, lambda: L.NoOp() - 3, 'output named by a number')


def wrappers(ctx):
    """named inputs and outputs, in any order and combination"""
    import brainstorm.layers as L
    py = ctx.py
    for rep in range(ctx.n(100, 1000)):
        w = r = L.Merge() if rep % 2 else L.NoOp()
        inp, out, hist = 'default', 'default', []
        for _ in range(py.randint(0, 4)):
            n = py.choice('abc')
            if py.random() < .5:
                r = n - r; inp = n; hist.append('%s - x' % n)
            else:
                r = r - n; out = n; hist.append('x - %s' % n)
            ctx.require((r.input_name, r.output_name) == (inp, out), 'names of the input and output %s after %s' % ((r.input_name, r.output_name), hist))
            ctx.require(r.layer is w.layer, 'another layer', history=hist)
        ctx.require((w.input_name, w.output_name) == ('default', 'default') , 'naming changed the layer itself', history=hist)
        a, b = L.NoOp(), L.NoOp()
        ctx.require((a >> r) is r and (r >> b) is b, 'wiring gives the right-hand side', history=hist)
        ctx.require(w.layer.incoming == [(a.layer, 'default', inp)] and a.layer.outgoing == [('default', inp, w.layer)], 'connection into the layer', history=hist)
        ctx.require(w.layer.outgoing == [(out, 'default', b.layer)] and b.layer.incoming == [(w.layer, out, 'default')], 'connection out of the layer', history=hist)
        ctx.count(('wrappers', rep), dict(history=hist) if rep < 2 else None)


CASES = [architecture, shapes, names_only, refuse, wrappers]


def replay(ctx, item):
    dict(architecture=architecture, names=names_only, refuse=refuse, shapes=shapes, wrappers=wrappers)[item['kind']](ctx)
