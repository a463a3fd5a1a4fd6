"""Composes DESIGN.md: tools/design_head.md, one section per property (table, check, counts of the last run), planted bugs, tools/design_tail.md."""
import ast
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def read(*p):
    with open(os.path.join(HERE, *p), encoding='utf-8') as f:
        return f.read()


props = [json.loads(x) for x in read('properties.jsonl').splitlines()]
man = json.loads(read('MANIFEST.json'))
chk = {c['property']: c for c in man['checks']}
na = {c['property']: c['reason'] for c in man['not_applicable']}
extra = dict(re.findall(r'^## (C\d\d)\n(.*?)(?=^## |\Z)', read('tools', 'design_extra.md'), re.S | re.M))
plants = {}
for p in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    m = json.loads(read(p))
    plants.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(p)), m))
out = [read('tools', 'design_head.md')]
for d in sorted(props, key=lambda d: d['id']):
    pid = d['id']
    if pid in na:
        continue
    c = chk[pid]
    out.append(f'### {pid} {d["title"]}\n')
    out.append(ast.get_docstring(ast.parse(read('sa', 'checks', pid.lower() + '.py'))).replace('\n', ' ') + '\n')
    out.append(f'*Technique.* {c["technique"]}.\n')
    out.append(f'*Scope and limits.* {c["level_note"]}\n')
    out.append(f'*Why tests cannot.* {d["why_tests_cant"]}\n')
    try:
        ev = json.loads(read('evidence', pid + '.json'))['coverage']
        out.append('*Rules (obligations on the current tree, undecided in brackets).* ' + '; '.join(
            f'{r["rule"]}: {r["text"]} ({r["obligations"]}' + (f' [{r["undecided"]}]' if r['undecided'] else '') + ')' for r in ev['rules']) + '.\n')
    except OSError:
        pass
    if pid in extra:
        out.append(extra[pid].strip() + '\n')
    if pid in plants:
        out.append('*Planted bugs.* ' + ', '.join(s for s, m in plants[pid]) + '.\n')
out.append('## Not applicable\n')
for d in sorted(props, key=lambda d: d['id']):
    if d['id'] in na:
        out.append(f'* **{d["id"]} {d["title"]}** {na[d["id"]]}')
out.append('\n## Planted bugs (`seeded/`)\n\nEach compiles, passes the existing tests, has a demonstration, and was run against the checks; all are caught by the check of their property.\n')
out.append('| bug | needs | what it breaks | caught by |\n|---|---|---|---|')
for pid in sorted(plants):
    for s, m in plants[pid]:
        out.append(f'| {s} | {m["needs"]} | {m["what_it_breaks"]} | {pid} |'.replace('\n', ' '))
out.append('\n' + read('tools', 'design_tail.md'))
with open(os.path.join(HERE, 'DESIGN.md'), 'w', encoding='utf-8') as f:
    f.write('\n'.join(out))
