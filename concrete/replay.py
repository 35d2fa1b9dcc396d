"""Child process: executes the real code at the sizes and values a failed obligation points to.
usage: replay.py CXX seed items.json out.json      (items: list of dicts understood by concrete.cxx.replay)"""
import importlib, json, os, signal, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from support.boot import boot
boot(tools=True)
from concrete.util import Ctx, run_cases


class Slow(BaseException):
    pass


def alarm(*a):
    raise Slow()


sys.setrecursionlimit(20000)


def untuple(x):
    return tuple(untuple(y) for y in x) if isinstance(x, list) else x


def main(pid, seed, items, out):
    mod = importlib.import_module('concrete.' + pid.lower())
    res = []
    t0 = time.time()
    signal.signal(signal.SIGALRM, alarm)
    for i, item in enumerate(json.load(open(items))):
        if time.time() - t0 > 150:
            break
        ctx = Ctx(int(seed) + i, False, 60)

        def fn(ctx, item=item):
            mod.replay(ctx, {k: untuple(v) if not isinstance(v, dict) else {a: untuple(b) for a, b in v.items()} for k, v in item.items()})
        fn.__name__ = 'replay'
        try:
            signal.alarm(30)
            fs = run_cases([fn], ctx)
            res.append(dict(item=item, failure=fs[0] if fs else None))
        except (Exception, Slow) as e:
            res.append(dict(item=item, failure=None, error=repr(e)[:300]))
        finally:
            signal.alarm(0)
    json.dump(res, open(out, 'w'))


main(*sys.argv[1:5])
