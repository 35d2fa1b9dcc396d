"""C16: one step of every stepper, from an arbitrary state of parameters and velocity, on an arbitrary network (whose passes
are known by contract only: backward leaves some gradients), makes exactly the documented passes and updates."""
from engine.poly import *
from engine.prover import *
from engine.rt import *
from engine import rt, verify, handler, tensor
from engine.tensor import input_array, View, assign_to
from engine.verify import contract
from . import common

ASSUMPTIONS = [common.REALS, common.NUMPY, common.HANDLER,
               'contract of the network: buffer.parameters and buffer.gradients are the vectors of all parameters and gradients (C04); a forward pass changes no parameters (C02, C05); a backward pass leaves the gradients']
TRUSTED = ['engine/*.py', 'z3', common.EXTRACTION, common.KERNEL]

n = isym('n')
lr, mo = sym('learning_rate'), sym('momentum')
DIMS = [dict(n=1), dict(n=4)]


class Buffers(object):
    pass


class Net(object):
    """a network as far as steppers may rely on it"""

    def __init__(self):
        self.handler = handler.make_handler()
        self.buffer = Buffers()
        self.buffer.parameters = input_array('p', [n])
        self.buffer.gradients = input_array('g_old', [n])
        self.events = []

    def forward_pass(self, training_pass=False, context=None):
        self.events.append(('forward', training_pass, self.buffer.parameters.st.content, context))

    def backward_pass(self):
        assign_to(self.buffer.gradients, input_array('g', [n]))
        self.events.append(('backward',))

    def get_loss_values(self):
        self.events.append(('losses',))
        return {'total_loss': S(sym('loss')), 'L': S(sym('other'))}


def at(v, i):
    return v.get([i]) if isinstance(v, View) else v((i,))


def same(label, v, want):
    """content equality at a generic index"""
    i = free_index(0, n)
    return label, at(v, i), want(i), (i,)


p = lambda i: rd('p', i)
g = lambda i: rd('g', i)
v = lambda i: rd('v', i)


def settings(st):
    return {k: st.__dict__[k] for k in st.__dict__ if k not in ('net', 'velocity', 'update')}


def one_step(rec, cls, make, label, used, params, velocity):
    def run():
        net = Net()
        st = make()
        st.start(net)
        if velocity is not None:
            # any state of the velocity, not only the initial one
            assign_to(st.velocity, input_array('v', [n]))
        before = settings(st)
        r = st.run()
        return net, st, before, r

    def post(x):
        net, st, before, r = x
        ev = [e[:2] if e[0] == 'forward' else e for e in net.events]
        yield 'exactly one training forward pass and one backward pass', ev == [('forward', True), ('backward',)]
        if ev and ev[0][0] == 'forward':
            yield same('parameters the passes work with', net.events[0][2], used)
            yield 'no context given', net.events[0][3] is None
        yield same('parameters after the step', net.buffer.parameters, params)
        yield same('gradients stay as the backward pass left them', net.buffer.gradients, g)
        if velocity is not None:
            yield same('velocity after the step', st.velocity, velocity)
        after = settings(st)
        for k in before:
            a, b = before[k], after.get(k)
            if isinstance(a, S):
                yield 'setting %s unchanged' % k, P(b), P(a)
            else:
                yield 'setting %s unchanged' % k, a == b if not isinstance(a, View) else a is b
    contract(rec, '%s%s' % (cls, label), ['%s.run' % cls, '%s.__init__' % cls, '%s.start' % cls], [(1 - n, 'le')], run, post, dims=DIMS, items=[dict(kind=cls)])


def sgd(rec):
    from brainstorm.training.steppers import SgdStepper
    one_step(rec, 'SgdStepper', lambda: SgdStepper(S(lr)), '', p, lambda i: p(i) - lr * g(i), None)


def momentum(rec):
    from brainstorm.training.steppers import MomentumStepper
    for sc in (True, False):
        l = lr * (1 - mo) if sc else lr
        w = lambda i: mo * v(i) - l * g(i)
        one_step(rec, 'MomentumStepper', lambda: MomentumStepper(S(lr), S(mo), sc), '(scale_learning_rate=%s)' % sc, p, lambda i: p(i) + w(i), w)
    w = lambda i: mo * v(i) - lr * (1 - mo) * g(i)
    one_step(rec, 'MomentumStepper', lambda: MomentumStepper(S(lr), S(mo)), '(default: scaled)', p, lambda i: p(i) + w(i), w)


def nesterov(rec):
    from brainstorm.training.steppers import NesterovStepper
    for sc in (True, False):
        l = lr * (1 - mo) if sc else lr
        one_step(rec, 'NesterovStepper', lambda: NesterovStepper(S(lr), S(mo), sc), '(scale_learning_rate=%s)' % sc,
                 lambda i: p(i) + mo * v(i), lambda i: p(i) + mo * v(i) - l * g(i), lambda i: mo * v(i) - l * g(i))


def forward_only(rec):
    from brainstorm.training.steppers import ForwardStepper
    for tp in (False, True):
        def run():
            net = Net()
            st = ForwardStepper(tp)
            st.start(net)
            return net, st, settings(st), st.run()

        def post(x):
            net, st, before, r = x
            yield 'exactly one forward pass', [e[:2] for e in net.events if e[0] != 'losses'] == [('forward', tp)]
            yield 'losses are read after the pass', net.events[-1] == ('losses',)
            yield 'returns the total loss', P(r), sym('loss')
            yield same('parameters unchanged', net.buffer.parameters, p)
            yield same('gradients unchanged', net.buffer.gradients, lambda i: rd('g_old', i))
            yield 'settings unchanged', settings(st) == before
        contract(rec, 'ForwardStepper(%s)' % tp, ['ForwardStepper.run', 'ForwardStepper.__init__', 'TrainingStepper.start'], [(1 - n, 'le')], run, post, dims=DIMS, items=[dict(kind='ForwardStepper')])


def start(rec):
    """starting resets the state, also on another network"""
    from brainstorm.training import steppers as T
    for cls in ('SgdStepper', 'MomentumStepper', 'NesterovStepper'):
        def run(cls=cls):
            st = getattr(T, cls)(S(lr))
            a, b = Net(), Net()
            m = isym('m')
            b.buffer.parameters = input_array('p2', [m])
            b.buffer.gradients = input_array('g2', [m])
            st.start(a)
            if cls != 'SgdStepper':
                assign_to(st.velocity, input_array('v', [n]))
            st.start(b)
            return a, b, st, m

        def post(x):
            a, b, st, m = x
            yield 'the new network is used', st.net is b
            i = free_index(0, m)
            if cls != 'SgdStepper':
                yield 'velocity has one entry per parameter of the new network', P(st.velocity.shape[0]), m
                yield 'velocity is zero', at(st.velocity, i), ZERO, (i,)
            yield 'starting makes no passes', a.events == [] and b.events == []
            yield 'parameters unchanged', at(b.buffer.parameters, i), rd('p2', i), (i,)
            yield same('parameters of the previous network unchanged', a.buffer.parameters, p)
        contract(rec, '%s.start' % cls, '%s.start' % cls, [(1 - n, 'le'), (1 - isym('m'), 'le')], run, post, dims=[dict(n=2, m=3), dict(n=3, m=1)], items=[dict(kind=cls)])


def tasks(tier):
    for f in (sgd, momentum, nesterov, forward_only, start):
        yield f.__name__, f
