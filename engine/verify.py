"""Contracts of functions: the real (instrumented) function is executed on symbolic arguments along every feasible path,
the postcondition is an equation or condition to be proved on each of them under the path's facts."""
import re
import sys
import traceback
import types
import z3
from .poly import *
from .prover import *
from .rt import *
from . import rt, tensor, loops, prover
from .tensor import HEAP, WRITES


class Raises(object):
    """postcondition: the call is refused"""


def clear():
    del HEAP[:]
    del WRITES[:]
    prover.ARRANGE.clear()
    loops.reset()


def rexc(e):
    tb = traceback.extract_tb(e.__traceback__)
    fr = ['%s:%d' % (f.filename.split('/')[-1], f.lineno) for f in tb if '/brainstorm/' in f.filename]
    return '%s: %s at %s' % (type(e).__name__, str(e)[:200], ' '.join(fr[-3:]))


def modelled():
    """the names of the classes that model values"""
    return {k for n, m in list(sys.modules.items()) if n.split('.')[0] in ('engine', 'specs') and m for k, c in list(vars(m).items()) if isinstance(c, type) and getattr(c, '__module__', '') == n and not issubclass(c, BaseException)}


def raised(e):
    """the exception comes from a raise statement of the code itself"""
    tb = traceback.extract_tb(e.__traceback__)
    return bool(tb) and '/brainstorm/' in tb[-1].filename and (tb[-1].line or '').lstrip().startswith('raise')


def artifact(e):
    """an operation the stand-in of a value or object does not have, or a raise statement in a loop that is abstracted
    (which the caller may well expect): says nothing about the code"""
    if isinstance(e, loops.LoopException):
        return raised(e.exc) or artifact(e.exc)
    if raised(e):
        return False
    if isinstance(e, AttributeError):
        o = getattr(e, 'obj', None)
        c = o if isinstance(o, type) else type(o)
        if c.__module__.split('.')[0] in ('engine', 'specs'):
            return True
    return isinstance(e, (TypeError, AttributeError)) and 'NoneType' not in str(e) and bool(set(re.findall(r'\w+', str(e))) & modelled())


class StandIn(object):
    """an object whose state is given by the specification; everything else (methods, properties) it has from the real class"""

    def __getattr__(self, n):
        real = type(self).real
        if n[:2] == '__' or real is None:
            raise AttributeError(n, name=n, obj=self)
        for c in real().__mro__:
            if n in c.__dict__:
                v = c.__dict__[n]
                if isinstance(v, types.FunctionType):
                    return types.MethodType(v, self)
                if isinstance(v, property):
                    return v.fget(self)
                if isinstance(v, (staticmethod, classmethod)):
                    return v.__get__(None, real())
                return v
        raise AttributeError('%r object has no attribute %r' % (type(self).__name__, n), name=n, obj=self)
    real = None


def contract(rec, name, function, facts, run, ensures, dims=({},), lohi=None, items=None, raises=None, limit=64, integers=(), free=(), arrays=None):
    """run(): executes the function and returns its result; ensures(result) -> list of (label, lhs, rhs) or (label, cond);
    raises: condition under which an exception is required (a 0/1 Poly), all other exceptions violate the contract"""
    fs = [function] if isinstance(function, str) else list(function)
    rec.under(*fs)
    fname = fs[0]
    extra = dict(items=list(items)) if items else {}

    def go():
        with Context(list(facts)) as ctx:
            rec.context_ok(ctx, name)
            clear()
            n = 0
            done = []

            def handle(path):
                guards, (kind, val) = path
                tag = '' if not guards else ' [path %d]' % len(done)
                done.append(1)
                if kind == 'exc':
                    if raises is not None:
                        ob(rec, name + ': refuses exactly when documented' + tag, fname, P(raises), ONE, dims, lohi, extra, free, arrays)
                    else:
                        # infeasible paths have been excluded; a real exception is confirmed by running the code
                        rec.add(name + ': returns normally' + tag, fname, 'undecided', rexc(val), failed=not isinstance(val, (Unsupported, RecursionError, MemoryError)) and not artifact(val), **extra)
                    return
                if raises is not None:
                    ob(rec, name + ': refuses exactly when documented' + tag, fname, P(raises), ZERO, dims, lohi, extra, free, arrays)
                for e in ensures(val):
                    label = '%s: %s%s' % (name, e[0], tag)
                    if len(e) == 2:
                        c = e[1]
                        if isinstance(c, (bool,)):
                            if c:
                                rec.add(label, fname, 'proved')
                            else:
                                rec.add(label, fname, 'undecided', 'condition is false', failed=True, **extra)
                        else:
                            ob(rec, label, fname, b01(c) if not isinstance(c, Poly) else c, ONE, dims, lohi, extra, free, arrays)
                    else:
                        ob(rec, label, fname, e[1], e[2], dims, lohi, extra, tuple(free) + tuple(e[3] if len(e) > 3 else ()), arrays)
            Explorer(limit=limit).run(run, on_path=handle)
            if not done:
                rec.add(name, fname, 'undecided', 'no feasible path')
    rec.attempt(name, fname, go)


def ob(rec, label, fname, lhs, rhs, dims, lohi, extra, free=(), arrays=None):
    rec.check(label, fname, lhs, rhs, free=free, dims=dims, lohi=lohi, arrays=arrays)
    if extra and rec.obls[-1]['status'] != 'proved':
        rec.obls[-1].update(extra)


def lemma(rec, name, function, hyp, goal, timeout=10000):
    """hyp => goal for all values (z3)"""
    s = z3.Solver(); s.set('timeout', timeout)
    s.add(*hyp)
    c = s.check()
    if c == z3.unsat:
        rec.vacuity['failures'].append('contradictory hypotheses: ' + name)
    elif c == z3.sat:
        rec.vacuity['contexts_satisfiable'] += 1
    s.add(z3.Not(goal))
    r = s.check()
    rec.add(name, function, 'proved' if r == z3.unsat else 'undecided', '' if r == z3.unsat else 'solver: %s %s' % (r, str(s.model())[:1500] if r == z3.sat else ''), lemma=True, failed=r == z3.sat)
    return r == z3.unsat
