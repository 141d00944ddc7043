#!/usr/bin/env python3
"""check.py <property> : decides one property of /properties.jsonl on /repo's current tree.

exit 0: held on everything analysed; exit 1 + a VIOLATION line: broken; exit 2: the analysis has no verdict."""
import sys, os, json, time, importlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import prog
from prog import VERIF, AnalysisBroken

RULES = {}          # property -> list of rule module names, from rules/__init__.py


class Result:
    """what a rule analysed on this run"""

    def __init__(self):
        self.obligations = []       # (key, where, ok, what)
        self.stats = {}
        self.notes = []

    def add(self, key, where, ok, what=''):
        self.obligations.append((key, where, bool(ok), what))

    def need(self, cond, msg):
        if not cond:
            raise AnalysisBroken(msg)


def known(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return {}
    return {f['key']: f for f in json.load(open(p))['findings'] if f['property'] == prop and f['status'] == 'known'}


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    t0 = time.time()
    from rules import TABLE

    mods, meta = TABLE[prop]
    R = Result()
    try:
        P = prog.load()
        for m in mods:
            modname, _, fn = m.partition(':')
            mod = importlib.import_module('rules.' + modname)
            getattr(mod, fn or 'check')(P, R, tier)
        if len(R.obligations) < meta['min']:
            raise AnalysisBroken('only %d instances of the rule found, at least %d expected' % (len(R.obligations), meta['min']))
    except AnalysisBroken as x:
        print('ANALYSIS-ERROR property=%s %s' % (prop, x))
        return 2
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-ERROR property=%s internal error' % prop)
        return 2
    kf = known(prop)
    bad, seen = [], {}
    for key, where, ok, what in R.obligations:
        if ok:
            continue
        if key in kf:
            seen[key] = (where, what)
        else:
            bad.append((key, where, what))
    ev = os.path.join(VERIF, 'evidence')
    os.makedirs(ev, exist_ok=True)
    n = len(R.obligations)
    ok = sum(1 for o in R.obligations if o[2])
    cov = {
        'explanation': meta['rule'],
        'obligations': n,
        'discharged': ok,
        'units_parsed': len(P.units),
        'functions_in_program': len(P.fns),
        'stats': R.stats,
        'samples': ['%s @ %s' % (o[0], o[1]) for o in R.obligations[:: max(1, n // 12)]][:14],
        'known_findings_seen': sorted(seen),
    }
    if R.notes:
        cov['notes'] = R.notes[:40]
    doc = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
           'coverage': cov, 'wall_s': round(time.time() - t0, 2), 'violations': len(bad),
           'assumptions': meta.get('assume', [])}
    json.dump(doc, open(os.path.join(ev, prop + '.json'), 'w'), indent=1, default=str)
    for k in sorted(seen):
        print('KNOWN-FINDING: property=%s %s (%s)' % (prop, k, seen[k][0]))
    if bad:
        rp = os.path.join(ev, prop + '.violations.txt')
        with open(rp, 'w') as f:
            for key, where, what in bad:
                f.write('%s\n  at %s\n  %s\n' % (key, where, what))
        for key, where, what in bad[:20]:
            print('  %s: %s -- %s' % (where, key, what))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    print('property=%s held: %d obligations over %d functions in %.1fs' % (prop, n, len(P.fns), time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
