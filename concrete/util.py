"""Shared machinery of the concrete (bounded) checks: they run the real code of /repo on generated inputs and
compare with the contract written down in the check, evaluated independently in numpy."""
import json, os, random, sys, time, traceback
import numpy as np


class Fail(Exception):
    def __init__(self, msg, data=None):
        Exception.__init__(self, msg)
        self.data = data


def ser(x):
    if isinstance(x, np.ndarray):
        return {'shape': list(x.shape), 'dtype': str(x.dtype), 'data': x.ravel()[:400].tolist()}
    if isinstance(x, dict):
        return {str(k): ser(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [ser(v) for v in x]
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, (int, float, str, bool, type(None))):
        return x
    return repr(x)[:500]


class Ctx(object):
    def __init__(self, seed, thorough, budget):
        self.seed = seed
        self.rng = np.random.RandomState(seed)
        self.py = random.Random(seed)
        self.thorough = thorough
        self.deadline = time.time() + budget
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.case = ''

    def n(self, quick, thorough=None):
        return (thorough if thorough is not None else quick * 8) if self.thorough else quick

    def out_of_time(self):
        return time.time() > self.deadline

    def count(self, key, sample=None):
        self.evals += 1
        self.distinct.add(key if isinstance(key, (str, tuple, int)) else repr(key))
        if sample is not None and len(self.samples) < 8:
            self.samples.append(ser(sample))

    def require(self, cond, msg, **data):
        if not cond:
            raise Fail(msg, data)

    def close(self, got, want, msg, tol=1e-9, **data):
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            raise Fail(msg + ': shape %s instead of %s' % (got.shape, want.shape), data)
        if not np.allclose(got, want, rtol=tol, atol=tol, equal_nan=True):
            d = np.abs(got - want)
            i = np.unravel_index(np.argmax(np.where(np.isnan(d), np.inf, d)), d.shape) if d.ndim else ()
            raise Fail('%s: at %s got %r, contract says %r' % (msg, tuple(int(k) for k in i), got[i], want[i]),
                       dict(data, got=got, want=want))

    def same(self, got, want, msg, **data):
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape or not ((got == want) | ((got != got) & (want != want))).all():
            raise Fail(msg + ': changed' if got.shape == want.shape else msg + ': shape', dict(data, got=got, want=want))

    def raises(self, exc, f, msg, **data):
        try:
            r = f()
        except exc:
            return
        except Exception as e:
            raise Fail('%s: raised %s(%s) instead of %s' % (msg, type(e).__name__, e, exc), data)
        raise Fail(msg + ': accepted', data)


class View(object):
    """Layer buffers without the repository's own view class: attribute, item access, iteration in order."""
    def __init__(self, d):
        self.__dict__['_d'] = d

    def __getattr__(self, n):
        try:
            return self._d[n]
        except KeyError:
            raise AttributeError(n)

    def __getitem__(self, n):
        if isinstance(n, int):
            return list(self._d.values())[n]
        return self._d[n]

    def __iter__(self):
        return iter(self._d.values())

    def __len__(self):
        return len(self._d)

    def __contains__(self, n):
        return n in self._d

    def keys(self):
        return self._d.keys()

    def items(self):
        return self._d.items()

    def values(self):
        return self._d.values()


def alloc(struct, T, B, strided, dtype=np.float64, poison=0.0):
    """memory for one BufferStructure; strided: as a slice of a wider hub, as the network lays it out"""
    fs = tuple(struct.feature_shape)
    F = int(np.prod(fs))
    shp = tuple(struct.shape)
    lead = []
    if shp[:1] == ('T',):
        lead = [T + struct.context_size, B]
    elif shp[:1] == ('B',):
        lead = [B]
    if strided and lead:
        hub = np.full(lead + [F + 3], poison, dtype)
        v = hub[..., 1:1 + F].reshape(tuple(lead) + fs)
        if F and v.size and not np.shares_memory(v, hub):
            raise RuntimeError('copied')
        return v
    return np.full(tuple(lead) + fs, poison, dtype)


def layer_buffers(layer, T, B, strided=False, dtype=np.float64):
    from collections import OrderedDict as OD
    outs = OD((n, alloc(s, T, B, strided, dtype)) for n, s in layer.out_shapes.items())
    odel = OD((n, alloc(s, T, B, strided, dtype)) for n, s in layer.out_shapes.items())
    ins = OD((n, alloc(s, T, B, strided, dtype)) for n, s in layer.in_shapes.items())
    idel = OD((n, alloc(s, T, B, strided, dtype)) for n, s in layer.in_shapes.items())
    par = OD((n, alloc(s, T, B, False, dtype)) for n, s in layer.parameter_shapes.items())
    gra = OD((n, alloc(s, T, B, False, dtype)) for n, s in layer.parameter_shapes.items())
    itn = OD((n, alloc(s, T, B, False, dtype)) for n, s in layer.internal_shapes.items())
    return View(OD([('inputs', View(ins)), ('outputs', View(outs)), ('parameters', View(par)), ('internals', View(itn)),
                    ('input_deltas', View(idel)), ('output_deltas', View(odel)), ('gradients', View(gra))]))


def state_of(v):
    return {k: {n: a.copy() for n, a in g.items()} for k, g in v.items()}


def run_cases(cases, ctx):
    """returns list of failures"""
    fails = []
    for fn in cases:
        if ctx.out_of_time():
            break
        ctx.case = fn.__name__
        ctx.rng = np.random.RandomState((ctx.seed * 7919 + sum(map(ord, fn.__name__))) % (2 ** 31))
        ctx.py = random.Random(ctx.seed * 31 + sum(map(ord, fn.__name__)))
        np.random.seed(ctx.seed)
        try:
            fn(ctx)
        except Fail as f:
            fails.append(dict(case=fn.__name__, seed=ctx.seed, message=str(f), data=ser(f.data or {})))
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            inrepo = [x for x in tb if '/brainstorm/' in x.filename and '/verif/' not in x.filename]
            # an exception is a failure of the property only if the code under test raised it
            if inrepo and '/verif/' not in tb[-1].filename:
                fails.append(dict(case=fn.__name__, seed=ctx.seed, message='unexpected %s: %s' % (type(e).__name__, e),
                                  data={'traceback': traceback.format_exc().splitlines()[-12:]}))
            else:
                raise
    return fails
