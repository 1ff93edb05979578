#!/usr/bin/env python3
"""Static checks of escnn.  usage: check.py --property C01 [--tier quick|thorough] [--repo DIR] [-v]

Reads the source of /repo (never imports or runs it), decides the property's rules,
writes evidence/<id>.json.  exit 0: every obligation discharged; exit 1: VIOLATION line.
exit 2: the analysis itself could not be carried out (source unreadable, anchors gone).
"""
import argparse
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from sa.project import Project, AnalysisError      # noqa: E402
from sa.report import Report                       # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--repo', default=os.environ.get('VERIF_REPO', '/repo'))
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args()
    pid = a.property
    t0 = time.time()
    try:
        proj = Project(a.repo)
        mod = importlib.import_module('sa.rules.' + pid.lower())
        rep = Report(pid)
        mod.run(proj, rep, a.tier)
    except AnalysisError as e:
        print(f'ANALYSIS-ERROR property={pid} {e}')
        return 2
    except SyntaxError as e:
        print(f'ANALYSIS-ERROR property={pid} source does not parse: {e}')
        return 2
    except Exception:
        traceback.print_exc()
        print(f'ANALYSIS-ERROR property={pid} internal error')
        return 2
    known = load_known(pid)
    new, old = [], []
    for f in rep.findings:
        k = match_known(known, f)
        (old if k else new).append((f, k))
    seen = set()
    for f, k in old:
        line = f'KNOWN-FINDING: property={pid} {k["rule"]} {k["construct"]}: {k["what"]}'
        if line not in seen:
            seen.add(line)
            print(line)
    low = rep.below_minimum()
    replay = None
    if new and not a.no_evidence:
        os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
        replay = os.path.join(HERE, 'evidence', 'replay', f'{pid}.txt')
        with open(replay, 'w') as fh:
            for f, _ in new:
                fh.write(f'{f["loc"]}: [{f["rule"]}] {f["construct"]}: {f["message"]}\n    rule: {rep.rules[f["rule"]]}\n')
            fh.write(f'\nreproduce: python3 {os.path.join(HERE, "check.py")} --property {pid} -v\n')
    total = sum(rep.obligations.values())
    if not a.no_evidence:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        ev = {
            'property': pid, 'tier': a.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
            'coverage': {
                'explanation': getattr(mod, 'EXPLANATION', (mod.__doc__ or '').strip()),
                'obligations': total,
                'obligations_per_rule': rep.obligations,
                'rules': rep.rules,
                'constructs_analysed': len(rep.units),
                'modules_parsed': len(proj.modules),
                'classes_parsed': len(proj.classes),
                'functions_parsed': sum(1 for _ in proj.all_functions()),
                'undecided': rep.undecided[:50],
                'instances': {k: v[:60] for k, v in rep.samples.items()},
                'rules_below_expected_instances': low,
                'known_findings': [f for f, _ in old],
            },
            'wall_s': round(time.time() - t0, 3),
            'violations': len(new),
            'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        }
        with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1)
    print(f'property={pid} tier={a.tier} obligations={total} constructs={len(rep.units)} undecided={len(rep.undecided)} '
          f'new={len(new)} known={len(old)} wall={time.time() - t0:.2f}s')
    if a.v:
        for r in rep.rules:
            print(f'  rule {r}: {rep.obligations[r]} obligations (min {rep.minima[r]}) -- {rep.rules[r]}')
        for u in rep.undecided:
            print('  undecided', u)
    lines = set()
    for f, _ in new:
        ln = f'{f["loc"]}: [{f["rule"]}] {f["message"]}'
        if ln in lines:          # same construct reached through several classes
            continue
        lines.add(ln)
        print(f'{f["loc"]}: [{f["rule"]}] {f["construct"]}: {f["message"]}')
    if new:
        print(f'VIOLATION property={pid} replay={replay}')
        return 1
    if low:
        for r, n, m in low:
            print(f'NOTE property={pid} rule {r} matched only {n} instances ({m} expected): nothing is claimed about the others')
        if total + len(rep.undecided) == 0:
            print(f'ANALYSIS-ERROR property={pid} no construct the property speaks about was found')
            return 2
    return 0


def load_known(pid):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)['known'] if k['property'] == pid]


def match_known(known, f):
    for k in known:
        if k['rule'] == f['rule'] and k['construct'] == f['construct'] and (k.get('message') is None or k['message'] in f['message']):
            return k
    return None


if __name__ == '__main__':
    sys.exit(main())
