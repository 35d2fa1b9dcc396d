"""Obligations: lhs == rhs for all index values and all contents, under the current facts."""
import time, traceback
from .poly import *
from .prover import *
from . import prover
from .rt import *


class Recorder(object):
    def __init__(self):
        self.obls = []
        self.functions = []
        self.vacuity = dict(contexts_satisfiable=0, false_obligations_rejected=0, failures=[])
        self.seconds = 0.0
        self.deadline = None
        self.defs = {}         # meaning of derived symbols, for numeric evaluation

    def under(self, *fn):
        for f in fn:
            if f not in self.functions:
                self.functions.append(f)

    def add(self, name, function, status, detail='', **k):
        self.obls.append(dict(name=name, function=function, status=status, detail=str(detail)[:8000], **k))

    def late(self):
        return self.deadline is not None and time.time() > self.deadline

    def check(self, name, function, lhs, rhs, free=(), dims=({},), lohi=None, arrays=None, vac=True, nseeds=6, lemma=False):
        """prove lhs == rhs; numeric evaluation guards both answers"""
        t0 = time.time()
        del prover.LEAVES[:]
        try:
            d = P(lhs) - P(rhs)
            ok, res = prove_zero(by_equations(d))
            num = numeric_difference(d, list(free), list(dims), nseeds=nseeds, lohi=lohi, arrays=arrays, defs=self.defs)
            for sc in (20.0, 400.0):
                if num is None and not ok and not self.defs:
                    num = numeric_difference(d, list(free), list(dims), nseeds=nseeds, lohi=lohi, arrays=arrays, scale=sc)
            if num is None and not ok and dims:
                # sizes taken from the solver's model of the open case
                more = [dict(dims[0], **{k: v for k, v in h.items() if k in dims[0]}) for h in prover.LEAVES]
                more = [m for m in more if all(abs(v) <= 300 for v in m.values())]
                if more and not self.defs:
                    num = numeric_difference(d, list(free), more, nseeds=len(more) * 3, lohi=lohi, arrays=arrays)
        except Unsupported as e:
            self.add(name, function, 'undecided', 'outside the supported fragment: %s' % e)
            return False
        except RecursionError:
            self.add(name, function, 'undecided', 'expression too deep')
            return False
        finally:
            self.seconds += time.time() - t0
        if ok and num is None:
            self.add(name, function, 'proved')
            if vac:
                self.false_one(name, d)
            return True
        if ok and num is not None:
            self.add(name, function, 'undecided', 'prover and numeric evaluation disagree: %r' % (num,))
            return False
        hints = ([num['dims']] if num is not None else []) + [dict(h) for h in prover.LEAVES]
        tail = 'residual %s' % (show(res, 6000) if res is not None else '')
        if num is not None and not lemma:
            self.add(name, function, 'refuted', 'differs at %r; %s' % (num, tail), hints=hints)
            return False
        self.add(name, function, 'undecided', ('intermediate equation not established; ' if lemma else '') + tail, hints=hints, lemma=lemma)
        return False

    def false_one(self, name, d):
        """the same obligation with a free symbol added must be rejected"""
        hooks = prover.UNFOLD[:]
        del prover.UNFOLD[:]
        try:
            ok, _ = prove_zero(by_equations(d + sym('vacuity!')), budget=[40])
        except Unsupported:
            return
        finally:
            prover.UNFOLD.extend(hooks)
        if ok:
            self.vacuity['failures'].append(name)
        else:
            self.vacuity['false_obligations_rejected'] += 1

    def context_ok(self, ctx, label=''):
        if ctx.feasible():
            self.vacuity['contexts_satisfiable'] += 1
        else:
            self.vacuity['failures'].append('contradictory facts: ' + label)

    def true(self, name, function, cond, detail=''):
        self.add(name, function, 'proved' if cond else 'refuted', detail if not cond else '')
        return cond

    def attempt(self, name, function, fn):
        """run fn; anything outside the fragment makes the obligation undecided"""
        try:
            return fn()
        except Unsupported as e:
            self.add(name, function, 'undecided', 'outside the supported fragment: %s' % e)
        except RecursionError:
            self.add(name, function, 'undecided', 'recursion limit')
        except Exception as e:
            self.add(name, function, 'undecided', 'engine error %s: %s' % (type(e).__name__, traceback.format_exc()[-700:]))
        return None

    def out(self):
        return dict(obligations=self.obls, functions=self.functions, vacuity=self.vacuity, seconds=round(self.seconds, 3), backends=dict(prover.STATS))
