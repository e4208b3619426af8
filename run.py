#!/usr/bin/env python3
"""run.py <property-id> : runs one static check against /repo's current source.
exit 0 held; 1 violation (VIOLATION line); 2 analysis broken (no verdict)."""
import json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'sa'))
import importlib
from extract import load_raw, Broken
from interp import Program
from base import Result

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2: tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    from registry import CHECKS
    if pid not in CHECKS:
        print('unknown property', pid)
        return 2
    mod, fn = CHECKS[pid]
    try:
        prog = Program(load_raw())
        res = Result(pid, prog, tier)
        getattr(importlib.import_module(mod), fn)(res)
        res.finish_floor()
    except Broken as e:
        print('ANALYSIS-BROKEN property=%s: %s' % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s: internal error' % pid)
        return 2
    known = {}
    kp = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(kp):
        for k in json.load(open(kp)).get('findings', []):
            if k['property'] == pid:
                known[k['key']] = k
    viol, kn = [], []
    seen = set()
    for v in res.violations:
        if v['key'] in seen: continue
        seen.add(v['key'])
        (kn if v['key'] in known else viol).append(v)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': res.rule,
            'obligations': res.obligations, 'discharged': res.discharged,
            'translation_units': len(prog.tus), 'functions_in_program': len(prog.funcs),
            'functions_analysed': len(res.functions), 'instances': dict(res.counts),
            'samples': res.samples[:12], 'undecided': res.undecided[:12], 'known_findings': [v['key'] for v in kn],
            'checker_cmd': 'python3 run.py %s' % pid,
        },
        'assumptions': res.assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(viol),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    print('property=%s obligations=%d discharged=%d functions=%d %s (%.1fs)' % (
        pid, res.obligations, res.discharged, len(res.functions), dict(res.counts), time.time() - t0))
    for v in kn:
        print('KNOWN-FINDING: property=%s %s [%s] %s' % (pid, v['msg'], v['key'], v['where']))
    if viol:
        rp = os.path.join(HERE, 'evidence', pid + '.violations.txt')
        with open(rp, 'w') as f:
            for v in viol:
                f.write('%s: %s\n    rule: %s\n    instance: %s\n' % (v['where'], v['msg'], v['rule'], v['key']))
                for d in v.get('detail', ()): f.write('    | %s\n' % d)
        for v in viol[:20]:
            print('  %s: %s  [%s]' % (v['where'], v['msg'], v['key']))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0

if __name__ == '__main__':
    sys.exit(main())
