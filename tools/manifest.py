"""Writes MANIFEST.json from the check modules (TECHNIQUE, NOTE) and properties.jsonl."""
import ast, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = json.load(open(V + '/tools/not_applicable.json'))
checks, na = [], []
for l in open(V + '/properties.jsonl'):
    p = json.loads(l); pid = p['id']
    f = V + '/checks/%s.py' % pid.lower()
    if os.path.exists(f):
        t = {}
        for n in ast.parse(open(f).read()).body:
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('TECHNIQUE', 'NOTE'):
                t[n.targets[0].id] = ast.literal_eval(n.value)
        checks.append({'property': pid,
            'quick_cmd': 'python3 run.py check %s --tier quick' % pid,
            'thorough_cmd': 'python3 run.py check %s --tier thorough' % pid,
            'evidence_file': 'evidence/%s.json' % pid,
            'technique': 'static analysis: ' + t['TECHNIQUE'], 'level': 'other', 'level_note': ' '.join(t['NOTE'].split())})
    else:
        na.append({'property': pid, 'reason': NA.get(pid, 'No check is built for it yet.')})
m = {'version': 1, 'setup_cmd': 'bash dumper/build.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo. Every check parses /repo\'s current sources with the LLVM/clang 18 front end (build/astdump, built by setup_cmd or on first use) and decides by value-flow analysis; nothing of /repo is executed.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
