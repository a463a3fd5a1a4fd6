"""Regenerates properties.jsonl and MANIFEST.json from the tables below (python3 tools/props.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(pid, title, statement, over, text, why, files, mechanism, observe, technique=None, note=None, state=None, na=None):
    assert len(title) <= 80, (pid, len(title))
    d = dict(id=pid, title=title, statement=statement, quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
             anchors=dict(files=files.split(), mechanism=[dict(name=n, where=w) for n, w in mechanism], observe_at=observe))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)
    if na:
        NA.append(dict(property=pid, reason=na))
    else:
        d['_t'] = (technique, note)


exec(open(os.path.join(HERE, 'tools', 'table.py'), encoding='utf-8').read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w', encoding='utf-8') as f:
    for d in P:
        f.write(json.dumps({k: v for k, v in d.items() if k != '_t'}, ensure_ascii=False) + '\n')
man = dict(version=1, setup_cmd='python3 -m compileall -q sa', checks=[
    dict(property=d['id'], quick_cmd=f'python3 check.py {d["id"]}', thorough_cmd=f'python3 check.py {d["id"]} --tier thorough',
         technique=d['_t'][0], level='other', level_note=d['_t'][1]) for d in P if '_t' in d], not_applicable=NA)
with open(os.path.join(HERE, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write('\n')
