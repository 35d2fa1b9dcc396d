"""C01: the backward pass of every layer type computes the adjoint of the equations proved in C02."""
from . import layers as SL, common, c02
from engine import layerproof

ASSUMPTIONS = c02.ASSUMPTIONS + ['gradient buffers are zero before the pass and context rows of deltas are zero (network.backward_pass clears them)',
                                 'the gradient of a composition is the solution of the adjoint equations of its defining equations (chain rule, backpropagation through time)']
TRUSTED = c02.TRUSTED


def tasks(tier):
    sps = sorted(SL.all_specs(), key=lambda s: -('Clockwork' in s.cls))
    for sp in sps:
        if sp.bwd:
            yield '%s[%s]' % (sp.cls, sp.label), (lambda rec, sp=sp: layerproof.backward(rec, sp))
