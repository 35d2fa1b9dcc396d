"""Child process: runs the bounded cases of one property and writes a JSON result.
usage: run.py CXX seed tier budget out.json"""
import importlib, json, os, signal, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from support.boot import boot
boot()
from concrete.util import Ctx, run_cases


class CaseTimeout(BaseException):
    pass


def alarm(*a):
    raise CaseTimeout('the case did not finish in time')


def main(pid, seed, tier, budget, out):
    t0 = time.time()
    mod = importlib.import_module('concrete.' + pid.lower())
    ctx = Ctx(int(seed), tier == 'thorough', float(budget))
    res = dict(failures=[], errors=[], cases=[])
    for fn in mod.CASES:
        if ctx.out_of_time():
            break
        n0 = ctx.evals
        try:
            signal.signal(signal.SIGALRM, alarm); signal.alarm(150 if tier != 'thorough' else 900)
            fs = run_cases([fn], ctx)
            res['failures'] += fs
        except (Exception, CaseTimeout):
            res['errors'].append(dict(case=fn.__name__, error=traceback.format_exc()[-3000:]))
        finally:
            signal.alarm(0)
        res['cases'].append(dict(case=fn.__name__, evaluations=ctx.evals - n0))
    res.update(evaluations=ctx.evals, distinct=len(ctx.distinct), samples=ctx.samples, seconds=time.time() - t0, rule=(mod.__doc__ or '').strip())
    json.dump(res, open(out, 'w'))


main(*sys.argv[1:6])
