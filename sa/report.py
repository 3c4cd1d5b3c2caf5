"""Outcome of one check: evidence file, VIOLATION / KNOWN-FINDING lines, exit status."""
import json, os, sys, time
from front import VERIF, Broken

KNOWN = VERIF + '/known_findings.txt'


def known(prop):
    """site keys recorded for this property: lines 'known: property=<id> site=<key> <what fails>'"""
    out = {}
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            ln = ln.strip()
            if ln.startswith('known: property=%s ' % prop):
                rest = ln.split('site=', 1)[1]
                key, _, txt = rest.partition(' :: ')
                out[key.strip()] = txt.strip()
    return out


class Report:
    def __init__(self, prop, rule, tier):
        self.prop, self.rule, self.tier = prop, rule, tier
        self.t0 = time.time()
        self.viol = []       # (site key, file:line, text)
        self.analysed = {}
        self.obl = 0
        self.units = []
        self.assume = []

    def count(self, what, n=1):
        self.analysed[what] = self.analysed.get(what, 0) + n

    def obligation(self, ok, key, where, text):
        self.obl += 1
        if not ok:
            self.violation(key, where, text)
        return ok

    def violation(self, key, where, text):
        self.viol.append((key, where, text))

    def finish(self):
        kn = known(self.prop)
        seen = set()
        new, old = [], []
        for k, w, t in self.viol:
            if (k, t) in seen:
                continue
            seen.add((k, t))
            (old if k in kn else new).append((k, w, t))
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        os.makedirs(VERIF + '/build/replay', exist_ok=True)
        rp = VERIF + '/build/replay/%s.txt' % self.prop
        with open(rp, 'w') as f:
            f.write('rule: %s\nre-run: python3 %s/check.py %s\n\n' % (self.rule, VERIF, self.prop))
            for k, w, t in new:
                f.write('[%s]\n  at %s\n  %s\n\n' % (k, w, t))
        ev = {'property': self.prop, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
              'coverage': {'explanation': self.rule, 'analysed': self.analysed, 'obligations': self.obl,
                           'discharged': max(0, self.obl - len(new) - len(old)), 'samples': self.units[:12], 'units': len(self.units),
                           'reported': [{'site': k, 'where': w, 'what': t[:600]} for k, w, t in new],
                           'known_findings': sorted({k for k, _, _ in old})},
              'wall_s': round(time.time() - self.t0, 2),
              'assumptions': self.assume,
              'violations': len(new)}
        json.dump(ev, open(VERIF + '/evidence/%s.json' % self.prop, 'w'), indent=1)
        for k in sorted({k for k, _, _ in old}):
            print('KNOWN-FINDING: property=%s %s: %s' % (self.prop, k, kn[k]))
        for k, w, t in new[:40]:
            print('%s: [%s] %s: %s' % (self.prop, w, k, t[:700]))
        print('%s: analysed %s; %d obligations, %d new violation(s)' % (self.prop, ', '.join('%s=%s' % x for x in sorted(self.analysed.items())), self.obl, len(new)))
        if new:
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            return 1
        return 0
