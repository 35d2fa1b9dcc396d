"""Child process: generates and discharges the obligations of one property from the current source.
usage: run.py CXX seed tier out.json"""
import sys, os, json, time, signal, subprocess, tempfile, importlib, multiprocessing, traceback, warnings
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
warnings.simplefilter('ignore')
sys.setrecursionlimit(20000)
PY = '/opt/venv/bin/python'
TASKS = []


class TaskTimeout(BaseException):
    pass


def alarm(*a):
    raise TaskTimeout()


def one(i):
    """worker: one task in a fresh fork"""
    from engine.obl import Recorder
    name, fn, limit = TASKS[i]
    rec = Recorder()
    t0 = time.time()
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(limit)
    try:
        fn(rec)
    except TaskTimeout:
        rec.add(name + ' (remaining obligations)', name, 'undecided', 'time limit of %d s reached' % limit)
    except Exception as e:
        rec.add(name, name, 'undecided', 'engine error %s' % traceback.format_exc()[-900:])
    finally:
        signal.alarm(0)
    o = rec.out()
    o['wall'] = time.time() - t0
    o['task'] = name
    return o


def dead(i):
    return dict(obligations=[dict(name=TASKS[i][0] + ' (remaining obligations)', function=TASKS[i][0], status='undecided', detail='worker did not answer')], functions=[],
                vacuity=dict(contexts_satisfiable=0, false_obligations_rejected=0, failures=[]), seconds=0, backends={}, wall=0, task=TASKS[i][0])


def confirm(pid, seed, obls):
    """run the real code where failed obligations point to"""
    items, owner = [], []
    for o in obls:
        if o['status'] != 'proved':
            for it in o.get('items', ()):
                if it not in items:
                    items.append(it); owner.append([])
                owner[items.index(it)].append(o)
    if not items:
        return
    # round robin over obligations so that a limit does not starve any of them
    tmp = tempfile.mkdtemp(prefix='verif_replay_')
    try:
        fi, fo = os.path.join(tmp, 'i.json'), os.path.join(tmp, 'o.json')
        n = min(len(items), 160)
        json.dump(items[:n], open(fi, 'w'))
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
        try:
            subprocess.run([PY, os.path.join(HERE, 'concrete', 'replay.py'), pid, str(seed), fi, fo], cwd=tmp, env=env, timeout=200, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            res = json.load(open(fo))
        except Exception:
            res = []
        for r, os_ in zip(res, owner):
            if r.get('failure'):
                for o in os_:
                    o['replayed'] = r
                    o['status'] = 'refuted'
    finally:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)


def main(pid, seed, tier, out):
    t0 = time.time()
    from engine import instrument
    instrument.install()
    import brainstorm
    mod = importlib.import_module('specs.' + pid.lower())
    for t in mod.tasks(tier):
        TASKS.append((t[0], t[1], t[2] if len(t) > 2 else (100 if tier != 'thorough' else 600)))
    total = 420 if tier != 'thorough' else 2300
    ctx = multiprocessing.get_context('fork')
    pool = ctx.Pool(8, maxtasksperchild=1)
    res = [pool.apply_async(one, (i,)) for i in range(len(TASKS))]
    outs = []
    for i, r in enumerate(res):
        try:
            outs.append(r.get(max(0.1, t0 + total - time.time())))
        except Exception:
            outs.append(dead(i))
    pool.terminate()
    obls, funcs, back = [], [], {}
    vac = dict(contexts_satisfiable=0, false_obligations_rejected=0, failures=[])
    for o in outs:
        obls += o['obligations']
        for f in o['functions']:
            if f not in funcs:
                funcs.append(f)
        for k in vac:
            vac[k] = vac[k] + o['vacuity'][k]
        for k, v in o['backends'].items():
            back[k] = round(back.get(k, 0) + v, 3)
    if hasattr(importlib.import_module('concrete.' + pid.lower()), 'replay') if False else True:
        confirm(pid, seed, obls)
    for o in obls:
        # an intermediate equation is not part of the property: only a difference in the results is a violation
        o.pop('items', None)
    seen = set()
    for o in obls:
        r = o.get('replayed')
        if r:
            k = json.dumps(r['item'], sort_keys=True)
            o['replay_key'] = k
    json.dump(dict(obligations=obls, functions=funcs, vacuity=vac, backends=back, seconds=round(sum(o['seconds'] for o in outs), 2), wall=round(time.time() - t0, 2),
                   tasks=[(o['task'], round(o['wall'], 2), len(o['obligations'])) for o in outs],
                   assumptions=list(getattr(mod, 'ASSUMPTIONS', [])), trusted=list(getattr(mod, 'TRUSTED', []))), open(out, 'w'))


if __name__ == '__main__':
    main(*sys.argv[1:5])
    sys.stdout.flush()
    os._exit(0)
