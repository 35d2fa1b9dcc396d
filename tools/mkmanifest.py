import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
import importlib.util
spec = importlib.util.spec_from_file_location('levels', H + '/tools/levels.py'); lv = importlib.util.module_from_spec(spec); spec.loader.exec_module(lv)
checks = []
for p in props:
    i = p['id']
    level, tech, note = lv.LEVELS.get(i, lv.DEFAULT)
    checks.append(dict(property=i, quick_cmd='/opt/venv/bin/python check.py %s quick' % i, thorough_cmd='/opt/venv/bin/python check.py %s thorough' % i, technique=tech, level=level, level_note=note))
json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python -c "import sys; sys.path.insert(0, \'.\'); from support.boot import build_ext; print(build_ext())"',
               hooks=dict(guard='BRAINSTORM_VERIF', enable='no hooks are needed: the checks import the sources of /repo unchanged', source_commits=[]),
               checks=checks, not_applicable=[]), open(H + '/MANIFEST.json', 'w'), indent=1)
