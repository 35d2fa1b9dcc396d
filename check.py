#!/opt/venv/bin/python
"""usage: check.py CXX [quick|thorough]

Decides one property on /repo's current working tree:
  A  specs/cXX.py      contracts of the real functions, obligations generated from the current source and discharged
                       deductively (engine/)
  B  concrete/cXX.py   bounded stand-ins for what A cannot reach, and replay of refuted obligations on the real code
Exit 0: held.  Exit 1: a VIOLATION line was printed.  Exit 2: the check itself could not run."""
import json, os, subprocess, sys, tempfile, time, shutil, signal

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'


def level_of(pid):
    try:
        for c in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks']:
            if c['property'] == pid:
                return c['level']
    except Exception:
        pass
    return 'other'


def spawn(args, tmp, name):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='2', OPENBLAS_NUM_THREADS='2', PYTHONNOUSERSITE='1', MPLBACKEND='Agg')
    log = open(os.path.join(tmp, name + '.log'), 'w')
    return subprocess.Popen([PY] + args, stdout=log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, cwd=tmp, env=env, start_new_session=True)


def wait(p, deadline):
    try:
        p.wait(max(1, deadline - time.time()))
        return True
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); p.wait()
        return False


def load(path, tmp, name, p):
    try:
        return json.load(open(path))
    except Exception:
        log = open(os.path.join(tmp, name + '.log')).read()[-3000:]
        return dict(crashed=True, log=log, rc=p.returncode)


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    total = 3000 if tier == 'thorough' else 780
    budget = 1500 if tier == 'thorough' else 240
    ev = os.path.join(HERE, 'evidence'); rp = os.path.join(ev, 'replay')
    os.makedirs(rp, exist_ok=True)
    for f in os.listdir(rp):
        if f.startswith(pid + '-'):
            os.remove(os.path.join(rp, f))
    tmp = tempfile.mkdtemp(prefix='verif_%s_' % pid)
    rc, lines = 2, []
    try:
        sys.path.insert(0, HERE)
        from support import boot
        b = subprocess.run([PY, '-c', 'import sys; sys.path.insert(0, %r); from support.boot import build_ext, BuildError\ntry:\n  build_ext()\nexcept BuildError as e:\n  print(e); sys.exit(7)' % HERE],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if b.returncode:
            print(b.stdout[-3000:]); print('check %s: cannot build' % pid)
            return 2
        outB, outA = os.path.join(tmp, 'B.json'), os.path.join(tmp, 'A.json')
        hasA = os.path.exists(os.path.join(HERE, 'specs', pid.lower() + '.py'))
        pB = spawn([os.path.join(HERE, 'concrete', 'run.py'), pid, str(seed), tier, str(budget), outB], tmp, 'B')
        pA = spawn([os.path.join(HERE, 'engine', 'run.py'), pid, str(seed), tier, outA], tmp, 'A') if hasA else None
        okB = wait(pB, t0 + total); okA = wait(pA, t0 + total) if pA else True
        B = load(outB, tmp, 'B', pB)
        A = load(outA, tmp, 'A', pA) if hasA else dict(obligations=[], functions=[], assumptions=[])
        viol = []

        def replay(n, d):
            path = os.path.join(rp, '%s-%s.json' % (pid, n))
            json.dump(d, open(path, 'w'), indent=1)
            return path
        fails = B.get('failures', [])
        for i, f in enumerate(fails):
            viol.append((replay('case%d' % i, dict(property=pid, kind='failing input on the real code', how='%s %s/concrete/run.py %s %d %s 600 out.json (case %s)' % (PY, HERE, pid, seed, tier, f['case']), **f)), ''))
        obls = A.get('obligations', [])
        refuted = [o for o in obls if o['status'] == 'refuted']
        for i, o in enumerate(refuted):
            conf = o.get('replayed')
            viol.append((replay('obl%d' % i, dict(property=pid, kind='failed obligation', obligation=o, replay=conf or ('see case files' if fails else None))),
                         '' if (fails or conf) else ' no-failing-input-found'))
            print('failed obligation %s (%s): %s' % (o['name'], o.get('function', ''), str(o.get('detail', ''))[:600]))
        failed = [o for o in obls if o['status'] == 'undecided' and o.get('failed')] if not viol else []
        for i, o in enumerate(failed[:20]):
            # the verifier answered and did not accept the obligation; no input was found that shows the failure
            viol.append((replay('open%d' % i, dict(property=pid, kind='obligation not accepted by the verifier', obligation=o)), ' no-failing-input-found'))
            print('failed obligation %s (%s): %s' % (o['name'], o.get('function', ''), str(o.get('detail', ''))[:600]))
        for f in fails:
            print('failing input, case %s: %s' % (f['case'], f['message'][:600]))
        for path, tail in viol:
            lines.append('VIOLATION property=%s replay=%s%s' % (pid, path, tail))
        proved = [o for o in obls if o['status'] == 'proved']
        und = [o for o in obls if o['status'] == 'undecided']
        if hasA and A.get('crashed'):
            print('part A did not finish: ' + A.get('log', '')[-1500:])
        ran = [c for c in B.get('cases', []) if c['evaluations']]
        crashedB = B.get('crashed') and not viol
        for e in B.get('errors', []):
            print('case %s could not be run: %s' % (e['case'], e['error'][-800:]))
        for o in und:
            print('undecided: %s: %s' % (o['name'], str(o.get('detail', ''))[:300]))
        cov = dict(obligations=len(obls), discharged=len(proved), undecided=[dict(name=o['name'], reason=str(o.get('detail', ''))[:400]) for o in und],
                   refuted=[o['name'] for o in refuted],
                   checker_cmd='%s engine/run.py %s %d %s out.json' % (PY, pid, seed, tier),
                   trusted_base=A.get('trusted', []), functions_under_contract=A.get('functions', []),
                   back_ends=A.get('backends', {}), solver_seconds=A.get('seconds'), vacuity=A.get('vacuity'),
                   proved_obligations=[o['name'] for o in proved][:2000],
                   bounded=dict(label='bounded, not counted as proved', cases=B.get('cases'), seconds=B.get('seconds'), could_not_run=B.get('errors')),
                   evaluations=B.get('evaluations', 0), distinct_nontrivial=B.get('distinct', 0), rule=B.get('rule', ''), samples=B.get('samples', [])[:8],
                   explanation='obligations of contracts discharged deductively on the current source, plus bounded runs of the real code for the remainder')
        json.dump(dict(property=pid, tier=tier, seed=seed, level=level_of(pid), coverage=cov, assumptions=A.get('assumptions', []), wall_s=round(time.time() - t0, 2),
                       violations=len(viol)), open(os.path.join(ev, pid + '.json'), 'w'), indent=1)
        if viol:
            rc = 1
        elif crashedB or not ran or (hasA and A.get('crashed') and B.get('crashed')):
            print(B.get('log', '')[-3000:]); print('check %s could not run' % pid)
            rc = 2
        else:
            rc = 0
            print('%s held: %d/%d obligations discharged, %d undecided, %d bounded evaluations in %.1f s' % (pid, len(proved), len(obls), len(und), B.get('evaluations', 0), time.time() - t0))
        for l in lines:
            print(l)
        return rc
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


sys.exit(main())
