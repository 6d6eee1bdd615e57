"""Obligations, verdicts, evidence and exit codes of a check."""
import json
import os
import time

from .project import VERIF

PROVEN, VIOLATED, UNDECIDED = 'proven', 'violated', 'undecided'


class Report:
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.obls = []
        self.analysed = {}
        self.rule = ''
        self.assumptions = []
        self.notes = []

    def add(self, key, verdict, what, where='', detail=''):
        """key: stable identification of the obligation (no line numbers)"""
        self.obls.append(dict(key=key, verdict=verdict, what=what, where=where, detail=detail))

    def ok(self, key, what='', where=''):
        self.add(key, PROVEN, what, where)

    def bad(self, key, what, where='', detail=''):
        self.add(key, VIOLATED, what, where, detail)

    def unsure(self, key, what, where=''):
        self.add(key, UNDECIDED, what, where)

    def count(self, name, n=1):
        self.analysed[name] = self.analysed.get(name, 0) + n

    def known(self):
        out = {}
        p = os.path.join(VERIF, 'known-findings.txt')
        for line in open(p) if os.path.exists(p) else ():
            line = line.strip()
            if line.startswith('finding:'):
                d = dict(w.split('=', 1) for w in line.split()[1:3])
                out[(d['property'], d['key'])] = line.split(None, 3)[3]
        return out

    def finish(self, min_obligations=1):
        known = self.known()
        bad = []
        for o in self.obls:
            if o['verdict'] == VIOLATED:
                k = known.get((self.prop, o['key']))
                if k:
                    print('KNOWN-FINDING: property=%s %s' % (self.prop, k))
                    o['verdict'] = 'known-finding'
                else:
                    bad.append(o)
        n = {v: sum(1 for o in self.obls if o['verdict'] == v) for v in (PROVEN, VIOLATED, UNDECIDED)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level='other',
                  coverage=dict(explanation='Static analysis of the current sources. Rule: ' + self.rule,
                                obligations=len(self.obls), discharged=n[PROVEN], undecided=n[UNDECIDED],
                                analysed=self.analysed,
                                samples=[{k: o[k] for k in ('key', 'verdict', 'what', 'where')} for o in self.obls[:400]]),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 3), violations=len(bad))
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s: %d obligations, %d proven, %d violated, %d undecided; analysed %s' % (
            self.prop, len(self.obls), n[PROVEN], len(bad), n[UNDECIDED],
            ', '.join('%s=%s' % kv for kv in sorted(self.analysed.items()))))
        for o in self.obls:
            if o['verdict'] == UNDECIDED:
                print('  undecided: %s: %s%s' % (o['key'], o['what'], ' at ' + o['where'] if o['where'] else ''))
        if bad:
            rp = os.path.join(VERIF, 'evidence', self.prop + '.violations.txt')
            with open(rp, 'w') as f:
                for o in bad:
                    f.write('%s\n  at %s\n  %s\n%s\n\n' % (o['key'], o['where'], o['what'], o['detail']))
            for o in bad[:20]:
                print('  violated: %s at %s: %s' % (o['key'], o['where'], o['what']))
                if o['detail']:
                    print('    ' + o['detail'].replace('\n', '\n    ')[:1500])
            print('VIOLATION property=%s replay=%s' % (self.prop, os.path.relpath(rp, VERIF)))
            return 1
        if not self.obls:
            print('%s: nothing was analysed' % self.prop)
            return 2
        if n[PROVEN] < min_obligations:
            print('%s: UNDECIDED: only %d obligations could be decided; the code has a form this analysis does not understand' % (self.prop, n[PROVEN]))
        return 0
