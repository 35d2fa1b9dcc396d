"""C09: descriptions and save/load."""
import json, os, shutil, tempfile
import numpy as np
from .nets import try_build, image_net, data_for, randomize, all_outputs


def objects(py, rng):
    import brainstorm as bs
    from brainstorm import initializers as I, value_modifiers as V, hooks as H, scorers as S
    from brainstorm.training import steppers as st, schedules as sc
    from brainstorm.handlers import NumpyHandler
    f = lambda: float(np.round(rng.randn(), 3)); n = lambda: int(rng.randint(1, 6))
    inits = [I.Gaussian(), I.Gaussian(abs(f()), f()), I.Uniform(), I.Uniform(abs(f()) + .1), I.Uniform(-abs(f()) - .1, abs(f()) + .1), I.DenseSqrtFanIn(), I.DenseSqrtFanIn('tanh'),
             I.DenseSqrtFanInOut(), I.DenseSqrtFanInOut(2.0), I.EchoState(), I.EchoState(.7), I.Identity(), I.Identity(f(), abs(f()), False), I.Orthogonal(),
             I.Orthogonal(1.5), I.RandomWalk(), I.RandomWalk('rel', 1.5), I.SparseInputs(I.Gaussian(), connections=2), I.SparseOutputs(I.Uniform(1.0), connections=2),
             I.LstmOptInit(I.Gaussian(), 1.0, I.Uniform(), 2.0)]
    mods = [V.ConstrainL2Norm(abs(f()) + .1), V.ClipValues(), V.ClipValues(-abs(f()), abs(f())), V.MaskValues(rng.rand(2, 3)), V.FreezeValues(), V.FreezeValues(rng.rand(2, 3)), V.L1Decay(f()), V.L2Decay(f())]
    scheds = [sc.Linear(f(), f(), n()), sc.Exponential(f(), f()), sc.Exponential(f(), f(), minimum=-1., maximum=2.), sc.MultiStep(f(), [3, 5], [f(), f()]), sc.DecreaseAfterEpoch(f(), n())]
    hooks = [H.SaveBestNetwork('a.b', criterion='min'), H.SaveBestNetwork('a.b', filename='x.h5', criterion='max', timescale='update', interval=3, verbose=True), H.SaveLogs('x'), H.SaveNetwork('x'),
             H.MonitorLayerDeltas('x'), H.MonitorLayerGradients('x'), H.MonitorLayerInOuts('x', interval=2), H.MonitorLayerParameters('x'), H.MonitorLoss('it'),
             H.MonitorScores('it', [S.Accuracy(), S.Hamming(.3)]), H.EarlyStopper('a', patience=n(), criterion='max'), H.EarlyStopper('a'), H.StopAfterEpoch(n()),
             H.StopAfterThresholdReached('a', f(), 'max'), H.StopOnNan(['a', 'b.c'], False), H.StopOnNan(), H.StopOnSigQuit(), H.ProgressBar()] + [H.ModifyStepperAttribute(s, 'momentum', 'update', n()) for s in scheds]
    steps = [st.SgdStepper(), st.SgdStepper(abs(f())), st.MomentumStepper(abs(f()), .5), st.MomentumStepper(abs(f()), .5, False), st.NesterovStepper(.1, .3), st.ForwardStepper(), st.ForwardStepper(True)]
    scorers = [S.Accuracy(), S.Hamming(.2, 'o', 't', 'm', 'n'), S.MeanSquaredError(name='zz')]
    return dict(init=inits, mod=mods, sched=scheds, hook=hooks, step=steps, scorer=scorers, handler=[NumpyHandler(np.float32), NumpyHandler(np.float64)])


def dynamic_state(kind, o, rng):
    """push the object into a used state"""
    if kind == 'hook':
        o.run_verbosity = False
        if hasattr(o, 'best_so_far'):
            o.best_so_far, o.best_t, o.parameters = .25, 7, rng.rand(4)
        if hasattr(o, 'quit'):
            o.quit = True
    if kind == 'step':
        o.start(_net())


def _net():
    import brainstorm as bs
    from brainstorm.layers import Input, FullyConnected
    n = bs.Network.from_layer(Input(out_shapes={'default': ('T', 'B', 3)}) >> FullyConnected(2))
    n.initialize(1.0)
    return n


def norm(x):
    return json.loads(json.dumps(x))


def behave(kind, o, ref, ctx, info):
    """does the re-created object o behave like ref (freshly built with the same arguments)?"""
    from brainstorm.utils import InitializationError
    rng = np.random.RandomState(5)
    if kind == 'init':
        for shp in ((4, 4), (4, 5), (8, 4), (3,), (2, 3, 4)):
            res = []
            for x in (o, ref):
                x.rnd.set_seed(11)
                try:
                    res.append(x(shp))
                except InitializationError:
                    res.append('refused')
            if isinstance(res[1], str):
                ctx.require(isinstance(res[0], str), 'accepts a shape the original refuses', **info)
            else:
                ctx.require(not isinstance(res[0], str), 'refuses a shape the original accepts', **info)
                ctx.same(res[0], res[1], 'values of the re-created initialiser', **info)
    elif kind == 'mod':
        from brainstorm.handlers import NumpyHandler
        h = NumpyHandler(np.float64)
        a = rng.randn(2, 3) * 3; g = rng.randn(2, 3); res = []
        for x in (o, ref):
            p, q = a.copy(), g.copy()
            for _ in range(2):
                if type(x).__name__ in ('L1Decay', 'L2Decay'):
                    x(h, p, q)
                else:
                    x(h, p)
                p += .5 if type(x).__name__ == 'FreezeValues' else 0
            res.append((p, q))
        ctx.same(res[0][0], res[1][0], 'parameters after the re-created modifier', **info); ctx.same(res[0][1], res[1][1], 'gradients', **info)
    elif kind == 'sched':
        for e in range(9):
            for ts in ('epoch', 'update'):
                iv = 1 if type(ref).__name__ == 'MultiStep' else 2
                ctx.require(o(e, 3 * e, ts, iv, None, None, None) == ref(e, 3 * e, ts, iv, None, None, None), 'schedule value', epoch=e, **info)
    elif kind == 'step':
        import copy
        res = []
        for x in (o, ref):
            n = _net(); n.provide_external_data({'default': np.ones((1, 2, 3))}); x.start(n)
            for _ in range(2):
                x.run()
                n.buffer.gradients[...] = .5
            res.append(n.get('parameters'))
        ctx.same(res[0], res[1], 'parameters after steps', **info)
    elif kind == 'scorer':
        t, p = (rng.rand(6, 1) > .5).astype(float), rng.rand(6, 1)
        ctx.require(o(t, p) == ref(t, p) and (o.out_name, o.targets_name, o.mask_name, o.__name__) == (ref.out_name, ref.targets_name, ref.mask_name, ref.__name__), 'score', **info)
    elif kind == 'handler':
        ctx.require(o.zeros((2,)).dtype == ref.zeros((2,)).dtype and o.array_type is ref.array_type, 'handler', **info)
        y = np.array([-1., 2.]); o.inplace_act_func['rel'](y); ctx.require(y[0] == 0, 'activation of re-created handler')
    elif kind == 'hook':
        for k, v in ref.__dict__.items():
            if k in ('__name__', 'schedule', 'scorers'):
                continue
            w = getattr(o, k, 'missing')
            ctx.require(type(w) is type(v) and w == v or isinstance(v, (list, tuple)) and list(w) == list(v), 'hook attribute %s: %r, freshly built %r' % (k, w, v), **info)


def single(ctx):
    from brainstorm.describable import get_description, create_from_description
    for rep in range(ctx.n(6, 60)):
        if ctx.out_of_time():
            return
        sd = ctx.rng.randint(2 ** 30)
        used = objects(ctx.py, np.random.RandomState(sd)); fresh = objects(ctx.py, np.random.RandomState(sd))
        for kind in used:
            for a, f in zip(used[kind], fresh[kind]):
                info = dict(object=type(a).__name__)
                ctx.count((kind, type(a).__name__, rep))
                if rep % 2:
                    dynamic_state(kind, a, ctx.rng)
                before = {k: repr(v) for k, v in a.__dict__.items()}
                d = get_description(a)
                j = norm(d)
                ctx.require({k: repr(v) for k, v in a.__dict__.items()} == before, 'describing changed the object', **info)
                info['description'] = j
                ctx.require(norm(get_description(f)) == j, 'the description contains dynamic state', fresh=norm(get_description(f)), **info)
                for dd in (d, j):
                    b = create_from_description(dd)
                    ctx.require(type(b) is type(a), 'type', **info)
                    ctx.require(norm(get_description(b)) == j, 're-created object has another description', other=norm(get_description(b)), **info)
                    behave(kind, b, f, ctx, info)
                    ctx.require(norm(get_description(b)) == j, 'description changed by use', **info) if kind not in ('hook',) else None
                    ctx.require(norm(dd) == j, 'creating changed the description', **info)


def trainers(ctx):
    import brainstorm as bs
    from brainstorm.describable import get_description, create_from_description
    for rep in range(ctx.n(15, 150)):
        obs = objects(ctx.py, ctx.rng)
        t = bs.Trainer(ctx.py.choice(obs['step']), verbose=bool(rep % 2))
        hs = [h for h in obs['hook']]
        ctx.py.shuffle(hs)
        names = []
        for i, h in enumerate(hs[:ctx.py.randint(0, 8)]):
            if rep % 3 == 0:
                h.__name__ = 'hook%d' % ctx.py.choice([k for k in range(50) if 'hook%d' % k not in names])
            if h.__name__ in names:
                continue
            names.append(h.__name__); t.add_hook(h)
        t.train_scorers = obs['scorer'][:ctx.py.randint(0, 3)]
        if rep % 2:
            t.current_epoch_nr, t.current_update_nr, t.logs, t.results = 3, 17, {'a': [1.0]}, {'b': 2}
        j = norm(get_description(t))
        ctx.count(('trainer', rep), dict(hooks=names))
        # dictionaries are unordered in JSON
        sh = json.loads(json.dumps(j, sort_keys=True))
        for d in (j, sh):
            u = create_from_description(d)
            ctx.require(list(u.hooks) == names, 'order of the hooks of a re-created trainer', want=names, got=list(u.hooks))
            ctx.require([h.__name__ for h in u.hooks.values()] == names, 'names of the hooks')
            ctx.require(norm(get_description(u)) == j, 'description of the re-created trainer', got=norm(get_description(u)), want=j)
            ctx.require(u.current_epoch_nr == 0 and u.current_update_nr == 0 and u.logs == {} and u.results == {}, 'a re-created trainer must be as freshly built')
            ctx.require(u.verbose == t.verbose and type(u.stepper) is type(t.stepper) and [s.__name__ for s in u.train_scorers] == [s.__name__ for s in t.train_scorers], 'trainer attributes')
        # two trainers made from one description share nothing
        a, b = create_from_description(j), create_from_description(j)
        a.logs['x'] = 1; a.results['y'] = 1
        ctx.require(b.logs == {} and b.results == {} and create_from_description(j).logs == {}, 're-created trainers share state')


def mods_for(py, rng, net):
    from brainstorm import value_modifiers as V
    from brainstorm import initializers as I
    w = {}
    for n, b in net.buffer.items():
        if not hasattr(b, 'keys') or 'parameters' not in b.keys() or not len(b['parameters'].keys()) or py.random() < .5:
            continue
        v = py.choice(sorted(b['parameters'].keys()))
        w[n] = {v: [V.ClipValues(-.9, .8), V.MaskValues(rng.rand(*b['parameters'][v].shape))][:py.randint(1, 2)]} if py.random() < .7 else V.ClipValues(-.5, .5)
    return w


def networks(ctx):
    import brainstorm as bs
    from brainstorm import initializers as I, value_modifiers as V
    from brainstorm.describable import get_description, create_from_description
    from brainstorm.handlers import NumpyHandler
    tmp = tempfile.mkdtemp(prefix='c09_')
    try:
        for rep in range(ctx.n(25, 400)):
            if ctx.out_of_time():
                return
            arch, _, net = image_net(ctx.py) if rep % 4 == 3 else try_build(ctx.py, two_inputs=bool(rep % 2))
            dt = [np.float64, np.float32][rep % 2]
            net.set_handler(NumpyHandler(dt))
            net.initialize([I.Gaussian(), {'default': I.Uniform(.5), 'fallback': 0.5}, {'default': I.Orthogonal(), 'fallback': I.Gaussian()}, 0.25][rep % 4], seed=rep)
            wm = mods_for(ctx.py, ctx.rng, net); net.set_weight_modifiers(wm)
            gm = mods_for(ctx.py, ctx.rng, net); net.set_gradient_modifiers(gm)
            net.output_name = 'L0.outputs.default'
            if rep % 3:
                randomize(net, ctx.rng)
            T, B = ctx.py.randint(1, 4), ctx.py.randint(1, 3)
            data = data_for(arch, ctx.rng, T, B)
            info = dict(arch=arch, dtype=str(dt), T=T, B=B)
            ctx.count(('net', rep), info)
            d = norm(get_description(net)); p0 = net.get('parameters')
            n2 = create_from_description(d)
            ctx.require(norm(get_description(n2)) == d, 'description of the re-created network', got=norm(get_description(n2)), want=d, **info)
            ctx.same(net.get('parameters'), p0, 'describing changed parameters', **info)
            if rep % 2:
                net.provide_external_data(data)
            fn = os.path.join(tmp, 'n.h5')
            net.save_as_hdf5(fn, 'comment')
            ctx.same(net.get('parameters'), p0, 'saving changed parameters', **info)
            n3 = bs.Network.from_hdf5(fn)
            ctx.same(n3.get('parameters'), p0, 'parameters of the loaded network', **info)
            ctx.require(n3.get('parameters').dtype == p0.dtype, 'dtype of the loaded network', **info)
            ctx.require(norm(n3.architecture) == norm(net.architecture), 'architecture of the loaded network', **info)
            ctx.require(n3.output_name == net.output_name, 'output name of the loaded network', **info)
            ctx.require(norm(get_description(n3)) == d, 'description of the loaded network', **info)
            for x in (net, n3):
                x.provide_external_data(data); x.forward_pass()
            o, o3 = all_outputs(net, arch, T), all_outputs(n3, arch, T)
            for k in o:
                ctx.same(o3[k], o[k], 'output %s of the loaded network' % k, **info)
            # modifiers
            for x in (net, n3):
                x.buffer.parameters[...] *= 3; x.apply_weight_modifiers()
                x.buffer.gradients[...] = np.linspace(-2, 2, x.buffer.gradients.size); x.apply_gradient_modifiers()
            ctx.same(n3.get('parameters'), net.get('parameters'), 'weight modifiers of the loaded network', **info)
            ctx.same(n3.get('gradients'), net.get('gradients'), 'gradient modifiers of the loaded network', **info)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


USER = {}


def user_classes():
    """describable classes of a user: overriding defaults and initial values, mutable defaults"""
    from brainstorm.describable import Describable
    if not USER:
        class VpBase(Describable):
            __undescribed__ = {'cache': [], 'n': 0}
            __default_values__ = {'a': 1, 'b': [1, 2]}

            def __init__(self, **kw):
                self.cache, self.n, self.a, self.b = [], 0, 1, [1, 2]
                for k, v in kw.items():
                    setattr(self, k, v)

        class VpMid(VpBase):
            __undescribed__ = {'n', 'z'}
            __default_values__ = {'a': 2}

            def __init__(self, **kw):
                VpBase.__init__(self)
                self.n = self.z = None
                self.a, self.c = 2, 'c'
                for k, v in kw.items():
                    setattr(self, k, v)

        class VpLow(VpMid):
            __default_values__ = {'c': 'c', 'd': {}}

            def __init__(self, **kw):
                VpMid.__init__(self)
                self.d = {}
                for k, v in kw.items():
                    setattr(self, k, v)
        USER.update(VpBase=VpBase, VpMid=VpMid, VpLow=VpLow)
    return [USER[k] for k in sorted(USER)]


def hierarchies(ctx):
    from brainstorm.describable import get_description, create_from_description
    py = ctx.py
    for cls in user_classes():
        for rep in range(ctx.n(12, 60)):
            kw = {k: v for k, v in (('a', py.choice([0, 1, 2, 3])), ('b', py.choice([[1, 2], [], [[3], (4,)], None, False])), ('e', py.choice([0, 'c', {'k': [1]}]))) if py.random() < .6}
            if cls.__name__ == 'VpLow' and py.random() < .5:
                kw['d'] = py.choice([{}, {'x': 1}, 0])
            o, f = cls(**kw), cls(**kw)
            o.cache.append(3); o.n = 7
            info = dict(object=cls.__name__, arguments=repr(kw))
            ctx.count((cls.__name__, rep))
            before = repr(sorted(o.__dict__.items()))
            d = get_description(o)
            ctx.require(repr(sorted(o.__dict__.items())) == before, 'describing changed the object', **info)
            ctx.require(norm(d) == norm(get_description(f)), 'the description contains dynamic state', **info)
            r, r2 = create_from_description(d), create_from_description(norm(d))
            for x in (r, r2):
                ctx.require(type(x) is cls, 'type', **info)
                ctx.require(norm(x.__dict__) == norm(f.__dict__), 're-created %r, freshly built %r' % (x.__dict__, f.__dict__), **info)
            for x in (r.__dict__.values()):
                if isinstance(x, list):
                    x.append('used')
                if isinstance(x, dict):
                    x['used'] = 1
            ctx.require(norm(r2.__dict__) == norm(f.__dict__) and norm(create_from_description(norm(d)).__dict__) == norm(f.__dict__), 're-created objects share state', **info)
    class_ = user_classes()[0]
    ctx.raises(TypeError, lambda: get_description(class_(a=object())), 'object with a member that cannot be described')
    ctx.raises(TypeError, lambda: create_from_description([{'@type': 'VpBase', 'a': {'@type': 'Nope'}}]), 'unknown @type inside')


def basic(ctx):
    from brainstorm.describable import get_description, create_from_description
    py = ctx.py

    def rnd(d):
        k = py.randint(0, 7 if d else 5)
        return [None, True, py.randint(-9, 9), py.random(), 'txt%d' % py.randint(0, 9), False, None, None][k] if k < 6 else \
            [rnd(d - 1) for _ in range(py.randint(0, 3))] if k == 6 else {'k%d' % i: rnd(d - 1) for i in range(py.randint(0, 3))}
    for rep in range(ctx.n(300, 4000)):
        x = rnd(3); d = get_description(x)
        ctx.count(('basic', rep))
        ctx.require(norm(d) == d == x, 'description of basic values', x=x)
        ctx.require(create_from_description(d) == x, 'basic values re-created', x=x)
    for bad in (object(), {1, 2}, [lambda: 0], {'a': {'b': object()}}):
        ctx.raises(TypeError, lambda: get_description(bad), 'undescribable object')
    ctx.raises(TypeError, lambda: create_from_description({'@type': 'NoSuchClassAtAll'}), 'unknown @type')
    hierarchies(ctx)


def replay(ctx, item):
    dict(single=single, basic=basic, networks=networks, trainers=trainers)[item['kind']](ctx)


CASES = [basic, single, trainers, networks]
