"""Writes DESIGN.md: tools/design_head.md, one section per property (from properties.jsonl, the NOTE of its check and WHY), tools/design_tail.md."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = json.load(open(V + '/tools/not_applicable.json'))
WHY = json.load(open(V + '/tools/why.json'))
out = open(V + '/tools/design_head.md').read().rstrip() + '\n\n## Properties\n'
na = ''
for l in open(V + '/properties.jsonl'):
    p = json.loads(l); pid = p['id']; f = V + '/checks/%s.py' % pid.lower()
    if not os.path.exists(f):
        na += '* **%s %s**: %s\n' % (pid, p['title'], NA.get(pid, 'No check is built for it yet.')); continue
    t = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('TECHNIQUE', 'NOTE'):
            t[n.targets[0].id] = ' '.join(ast.literal_eval(n.value).split())
    out += '\n### %s %s (`checks/%s.py`)\n*%s*\n\n%s\n' % (pid, p['title'], pid.lower(), t['TECHNIQUE'], t['NOTE'])
    if pid in WHY: out += '\nWhy not a test: %s\n' % WHY[pid]
out += '\n## Properties this family cannot decide here\n' + na + '\n'
out += open(V + '/tools/design_tail.md').read()
out += '\n| bug | property | what it needs | what it breaks | caught by |\n|---|---|---|---|---|\n'
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + '/seeded/%s/meta.json' % d))
    out += '| %s | %s | %s | %s | %s |\n' % (d, m['property'], m['needs'], m['what_it_breaks'], m.get('caught_by', m['property']))
open(V + '/DESIGN.md', 'w').write(out)
