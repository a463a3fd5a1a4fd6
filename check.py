#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decide one property statically on /repo's current source."""
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from sa.common import Report, AnalysisError, Program  # noqa: E402


def load_known():
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    for line in open(p, encoding='utf-8') if os.path.exists(p) else ():
        line = line.strip()
        if line.startswith('finding:'):
            d = {}
            for part in line[len('finding:'):].split(' || '):
                k, _, v = part.strip().partition('=')
                d[k] = v
            out.append(d)
    return out


def main():
    pid = sys.argv[1]
    tier = 'quick'
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    t0 = time.time()
    mod = importlib.import_module('sa.checks.' + pid.lower())
    try:
        prog = Program()
        rep = Report(pid, prog, tier)
        mod.run(prog, rep)
    except AnalysisError as e:
        print(f'ANALYSIS-ERROR property={pid} {e}')
        return 2
    counts = rep.counts()
    total = sum(c['obligations'] for c in counts.values())
    und = sum(c['undecided'] for c in counts.values())
    nfuncs = len(rep.funcs)
    known = [k for k in load_known() if k.get('property') == pid]
    new, listed = [], []
    for v in rep.violations:
        k = next((k for k in known if k.get('rule') == v['rule'] and k.get('site') == v['site'] and k.get('construct') == v['construct']), None)
        (listed if k else new).append(v)
    short = [f'{r}: {counts.get(r, {}).get("obligations", 0)} < {m}' for r, m in rep.mins.items() if 2 * counts.get(r, {}).get('obligations', 0) < m]
    for r, text in rep.rules.items():
        c = counts.get(r, {'obligations': 0, 'ok': 0, 'undecided': 0, 'violated': 0})
        print(f'{pid} {r}: {c["obligations"]} obligations, {c["ok"]} hold, {c["undecided"]} undecided, {c["violated"]} violated -- {text}')
    print(f'{pid}: {len(prog.modules)} modules, {nfuncs} functions interpreted, {total} obligations, {time.time() - t0:.1f} s')
    for n in rep.notes:
        print('note:', n)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    rp = os.path.join(HERE, 'evidence', f'{pid}.violations.json')
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
        'coverage': {
            'explanation': getattr(mod, '__doc__', '') or pid,
            'modules_parsed': len(prog.modules), 'functions_interpreted': nfuncs,
            'obligations': total, 'discharged': total - und - sum(c['violated'] for c in counts.values()), 'undecided': und,
            'rules': [{'rule': r, 'text': t, **counts.get(r, {}), 'minimum_instances': rep.mins.get(r, 0),
                       'undecided_sites': sorted(s for s, x in rep.obs.get(r, {}).items() if x == 'undecided')[:40],
                       'sites': sorted(rep.obs.get(r, {}))[:400]} for r, t in rep.rules.items()],
            'functions': sorted(rep.funcs)[:400],
            'known_findings': [v['construct'] for v in listed],
        },
        'wall_s': round(time.time() - t0, 3), 'violations': len(new), 'violation_list': new, 'assumptions': rep.assumptions or [
            'the package is reached only through the analysed public entry points; numpy/scipy/pandas calls behave as documented'],
    }
    if new:
        with open(rp, 'w', encoding='utf-8') as f:
            json.dump(new, f, indent=1, ensure_ascii=False)
    elif os.path.exists(rp):
        os.remove(rp)
    with open(os.path.join(HERE, 'evidence', f'{pid}.json'), 'w', encoding='utf-8') as f:
        json.dump(ev, f, indent=1, ensure_ascii=False, default=str)
    for v in listed:
        print(f'KNOWN-FINDING: property={pid} {v["where"]} {v["site"]}: {v["message"]}')
    if new:
        for v in new[:12]:
            print(f'  [{v["rule"]}] {v["where"]} in {v["function"]}: {v["construct"]}\n      {v["site"]}: {v["message"]}')
        if len(new) > 12:
            print(f'  ... and {len(new) - 12} more, see {rp}')
        print(f'VIOLATION property={pid} replay={rp}')
        return 1
    if short:
        print(f'ANALYSIS-ERROR property={pid} fewer instances than confirmed by reading: ' + '; '.join(short))
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
