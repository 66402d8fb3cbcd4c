"""writes /verif/MANIFEST.json from the check modules that exist (python3 -m mc.gen_manifest)"""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    f = f"{V}/mc/checks/{p['id'].lower()}.py"
    if not os.path.exists(f):
        na.append(dict(property=p['id'], reason='model checking applies (see DESIGN.md), but the check is not built'))
        continue
    c = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('TECHNIQUE', 'NOTE', 'LEVEL'):
            c[n.targets[0].id] = ast.literal_eval(n.value)
    checks.append(dict(property=p['id'], quick_cmd=f"./check {p['id']}", thorough_cmd=f"VERIF_TIER=thorough ./check {p['id']}",
                       technique=c.get('TECHNIQUE', 'model checking: bounded exhaustive enumeration of executions of the real code against a reference model'),
                       level=c.get('LEVEL', 'model_checking'),
                       level_note=c.get('NOTE', 'Exhaustive within the bounds given in the evidence file; the reference model in mc/ref.py and the check module are trusted.')))
m = dict(version=1, setup_cmd="PYTHONPATH=/repo/src MPLCONFIGDIR=/opt/mplconfig PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c 'import craterstats'",
         checks=checks, not_applicable=na,
         notes='Explorer: mc/core.py; runner: mc/run.py; one module per property in mc/checks. The checks import the code from /repo/src as it is; there are no hooks in /repo.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
