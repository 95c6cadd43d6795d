"""Obligations, verdicts, known findings and evidence."""
from __future__ import annotations
import json
import os
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, pid, tier='quick', seed=1):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.ob = {}            # (rule, key) -> dict(verdict, where, detail, path)
        self.rules = {}
        self.assumptions = []
        self.analysed = set()
        self.notes = []
        self.errors = []

    RANK = {'violated': 2, 'unknown': 1, 'holds': 0}

    def rule(self, name, text):
        self.rules[name] = text
        return name

    def add(self, rule, key, verdict, where='', detail='', path=''):
        """Record an obligation; when the same obligation is met on several paths the worst verdict counts."""
        k = (rule, key)
        o = self.ob.get(k)
        if o is None or self.RANK[verdict] > self.RANK[o['verdict']]:
            self.ob[k] = {'rule': rule, 'key': key, 'verdict': verdict, 'where': where, 'detail': detail,
                          'path': path, 'paths': (o['paths'] if o else 0) + 1}
        else:
            o['paths'] += 1

    def holds(self, rule, key, where='', detail='', path=''):
        self.add(rule, key, 'holds', where, detail, path)

    def violated(self, rule, key, where='', detail='', path=''):
        self.add(rule, key, 'violated', where, detail, path)

    def unknown(self, rule, key, where='', detail='', path=''):
        self.add(rule, key, 'unknown', where, detail, path)

    def merge(self, other):
        for (r, k), o in other['ob']:
            cur = self.ob.get((r, k))
            if cur is None:
                self.ob[(r, k)] = dict(o)
            else:
                n = cur['paths'] + o['paths']
                if self.RANK[o['verdict']] > self.RANK[cur['verdict']]:
                    self.ob[(r, k)] = dict(o)
                self.ob[(r, k)]['paths'] = n
        self.rules.update(other['rules'])
        self.analysed |= set(other['analysed'])
        for e in other['errors']:
            self.errors.append(e)

    def export(self):
        return {'ob': list(self.ob.items()), 'rules': self.rules, 'analysed': sorted(self.analysed),
                'errors': self.errors}

    def count(self, verdict):
        return sum(1 for o in self.ob.values() if o['verdict'] == verdict)


def known_findings():
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)['findings']


def finish(rep: Report, minimum=1):
    """Print the outcome, write the evidence file and return the exit code."""
    known = {(f['rule'], f['key']): f for f in known_findings()
             if f['property'] == rep.pid and f.get('status', 'open') == 'open'}
    viol, listed = [], []
    for o in sorted(rep.ob.values(), key=lambda o: (o['rule'], o['key'])):
        if o['verdict'] != 'violated':
            continue
        (listed if (o['rule'], o['key']) in known else viol).append(o)
    for o in listed:
        f = known[(o['rule'], o['key'])]
        print('KNOWN-FINDING: property=%s %s [%s] %s' % (rep.pid, o['key'], o['where'], f['what']))
    evdir = os.environ.get('SA_EVIDENCE', os.path.join(ROOT, 'evidence'))
    os.makedirs(evdir, exist_ok=True)
    decided = rep.count('holds') + rep.count('violated')
    rc = 0
    if viol:
        rp = os.path.join(evdir, '%s.violation.json' % rep.pid)
        with open(rp, 'w') as f:
            json.dump({'property': rep.pid, 'violations': viol}, f, indent=1)
        for o in viol:
            print('  %s: %s: %s (%s)%s' % (o['where'], o['rule'], o['detail'], o['key'],
                                           '\n      path: ' + o['path'] if o['path'] else ''))
        print('VIOLATION property=%s replay=%s' % (rep.pid, rp))
        rc = 1
    else:
        rp = os.path.join(evdir, '%s.violation.json' % rep.pid)
        if os.path.exists(rp):
            os.remove(rp)
    byrule = {}
    for o in rep.ob.values():
        d = byrule.setdefault(o['rule'], {'holds': 0, 'violated': 0, 'unknown': 0, 'paths': 0})
        d[o['verdict']] += 1
        d['paths'] += o['paths']
    from .loader import Program
    samples = {}
    for o in rep.ob.values():
        samples.setdefault(o['rule'], [])
        if len(samples[o['rule']]) < 12:
            samples[o['rule']].append({'obligation': o['key'], 'verdict': o['verdict'], 'where': o['where'],
                                       'detail': o['detail'][:300]})
    ev = {
        'property': rep.pid, 'tier': rep.tier, 'seed': rep.seed, 'level': 'other',
        'wall_s': round(time.time() - rep.t0, 2),
        'coverage': {
            'explanation': 'Static analysis of the current source in /repo: %d obligations decided (%d hold, %d violated of '
                           'which %d are listed known findings), %d left undecided by the abstraction (never reported); '
                           '%d functions of the package analysed along the driven call graph.'
                           % (decided, rep.count('holds'), rep.count('violated'), len(listed), rep.count('unknown'),
                              len(rep.analysed)),
            'rules': rep.rules, 'obligations_by_rule': byrule, 'sample_obligations': samples,
            'undecided': [{'rule': o['rule'], 'obligation': o['key'], 'why': o['detail'][:200]}
                          for o in rep.ob.values() if o['verdict'] == 'unknown'][:60],
            'functions_analysed': sorted(rep.analysed), 'analysis_errors': rep.errors[:20],
        },
        'assumptions': rep.assumptions,
        'violations': [{'rule': o['rule'], 'key': o['key'], 'where': o['where'], 'detail': o['detail'][:500],
                        'path': o['path'][:500]} for o in viol],
    }
    with open(os.path.join(evdir, rep.pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s: %d obligations: %d hold, %d violated (%d known), %d undecided; %d functions; %.1fs'
          % (rep.pid, len(rep.ob), rep.count('holds'), rep.count('violated'), len(listed), rep.count('unknown'),
             len(rep.analysed), time.time() - rep.t0))
    for e in rep.errors[:10]:
        print('  note: analysis incomplete: %s' % e)
    if rc == 0 and decided < minimum:
        print('analysis broken: only %d obligations decided, at least %d expected' % (decided, minimum))
        return 3
    return rc
