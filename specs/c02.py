"""C02: the forward pass of every layer type establishes the documented equations (specs/layers.py)."""
import random
from . import layers as SL, common
from engine import layerproof

ASSUMPTIONS = [common.REALS, common.DENOM, common.NUMPY, common.HANDLER,
               'random masks are arbitrary 0/1 arrays, the same in forward and backward pass',
               'context rows of internals hold the carried state (established by C03)', 'arguments of a pass do not alias each other (established by C04)']
TRUSTED = ['engine/*.py', 'z3', 'numpy', common.EXTRACTION, common.KERNEL]


def tasks(tier):
    for sp in SL.all_specs():
        yield '%s[%s]' % (sp.cls, sp.label), (lambda rec, sp=sp: layerproof.forward(rec, sp))
