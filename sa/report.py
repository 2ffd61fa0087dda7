"""Obligations, violations, known findings, evidence."""

import json
import os
import re
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, 'known_findings.txt')


class Broken(Exception):
    """the analysis cannot decide: an anchor is gone or too few instances were found"""


class Report:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.violations = {}
        self.obligations = {}
        self.analysed = {}
        self.notes = []
        self.assumptions = []
        self.rules = {}

    def rule(self, name, text):
        self.rules[name] = text

    def ok(self, rule, construct, where=''):
        """an obligation that the analysis discharged"""
        self.obligations.setdefault(rule, {}).setdefault(str(construct), [True, where, ''])

    def bad(self, rule, construct, where, msg):
        """an obligation that fails: key = rule + construct (no line numbers)"""
        self.obligations.setdefault(rule, {})[str(construct)] = [False, where, msg]
        self.violations['%s|%s' % (rule, construct)] = (where, msg)

    def check(self, cond, rule, construct, where, msg):
        if cond:
            self.ok(rule, construct, where)
        else:
            self.bad(rule, construct, where, msg)
        return cond

    def count(self, what, n=1):
        self.analysed[what] = self.analysed.get(what, 0) + n

    def floor(self, rule, n):
        """the rule must have matched at least n instances"""
        got = len(self.obligations.get(rule, {}))
        if got < n:
            raise Broken('rule %s matched %d instances, at least %d were confirmed by hand' % (rule, got, n))

    def known(self):
        out = {}
        if os.path.exists(KNOWN):
            with open(KNOWN) as f:
                for ln in f:
                    m = re.match(r'finding: property=(\S+) key=<(.*?)> (.*)', ln.strip())
                    if m and m.group(1) == self.prop:
                        out[m.group(2)] = m.group(3)
        return out

    def finish(self, error=None):
        known = self.known()
        fresh = {k: v for k, v in self.violations.items() if k not in known}
        hit = {k: v for k, v in self.violations.items() if k in known}
        total = sum(len(v) for v in self.obligations.values())
        good = sum(1 for v in self.obligations.values() for o in v.values() if o[0])
        samples = []
        for r, v in sorted(self.obligations.items()):
            for c, o in list(sorted(v.items()))[:3]:
                samples.append({'rule': r, 'construct': c, 'where': o[1], 'discharged': o[0]})
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'other',
            'coverage': {
                'explanation': 'Static analysis of the current source of /repo; nothing of it is executed. Each obligation is one instance of a rule '
                               '(a call site, a path, a construct) decided on this run.',
                'obligations': total, 'discharged': good,
                'rules': {r: {'text': self.rules.get(r, ''), 'instances': len(self.obligations.get(r, {})),
                              'failed': sum(1 for o in self.obligations.get(r, {}).values() if not o[0])}
                          for r in sorted(set(self.rules) | set(self.obligations))},
                'analysed': self.analysed,
                'samples': samples,
                'known_findings': sorted(hit),
                'notes': self.notes,
            },
            'assumptions': self.assumptions,
            'violations': len(fresh),
            'wall_s': round(time.time() - self.t0, 3),
        }
        if error:
            ev['coverage']['error'] = error
        os.makedirs(os.environ.get('VERIF_EVIDENCE', os.path.join(HERE, 'evidence')), exist_ok=True)
        with open(os.path.join(os.environ.get('VERIF_EVIDENCE', os.path.join(HERE, 'evidence')), self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s: %d obligations, %d discharged, %d new violation(s), %d known finding(s); analysed %s' % (
            self.prop, total, good, len(fresh), len(hit), ', '.join('%s=%s' % kv for kv in sorted(self.analysed.items()))))
        for r in sorted(set(self.rules) | set(self.obligations)):
            print('  rule %-28s %4d instance(s)  %s' % (r, len(self.obligations.get(r, {})), self.rules.get(r, '')))
        for k, v in sorted(hit.items()):
            print('KNOWN-FINDING: property=%s %s (%s: %s)' % (self.prop, known[k], k, v[1]))
        if error:
            print('ANALYSIS-BROKEN property=%s %s' % (self.prop, error))
            if not fresh:
                return 3
        if fresh:
            d = os.environ.get('VERIF_EVIDENCE', os.path.join(HERE, 'replay'))
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, self.prop + '.json')
            with open(path, 'w') as f:
                json.dump({'property': self.prop, 'violations': [{'key': k, 'where': v[0], 'message': v[1]} for k, v in sorted(fresh.items())],
                           'rerun': 'python3 /verif/check.py %s' % self.prop}, f, indent=1)
            for k, v in sorted(fresh.items()):
                print('  %s: [%s] %s' % (v[0], k, v[1]))
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            return 1
        return 0
