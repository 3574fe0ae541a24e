"""Result of one check: obligations, violations, evidence."""
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PICA_REPO', '/repo')


class CheckError(Exception):
    """The check itself cannot give an answer."""


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.ob = {}          # rule -> [count, samples]
        self.viol = []        # (key, text)
        self.analysed = {}    # what -> list / count
        self.assumptions = []
        self.rules = {}
        self.explanation = ''
        self.gaps = []        # constructs that are beyond the analysis: nothing is claimed for them

    def rule(self, name, text):
        self.rules[name] = text
        self.ob.setdefault(name, [0, []])

    def ok(self, rule, what=''):
        o = self.ob.setdefault(rule, [0, []])
        o[0] += 1
        if what and len(o[1]) < 6:
            o[1].append(str(what)[:240])

    def bad(self, rule, key, text):
        o = self.ob.setdefault(rule, [0, []])
        o[0] += 1
        key = '%s:%s' % (rule, key)
        if key not in [k for k, _ in self.viol]:
            self.viol.append((key, text))

    def check(self, cond, rule, key, text='', okmsg=''):
        if cond:
            self.ok(rule, okmsg or key)
        else:
            self.bad(rule, key, text or key)
        return cond

    def floor(self, rule, n):
        """Fail closed when a rule matched fewer instances than confirmed by hand."""
        got = self.ob.get(rule, [0])[0]
        if got < n and not self.gaps:
            self.bad(rule, 'instances', 'rule matched %d instances, expected at least %d' % (got, n))

    def finish(self, level='other'):
        known = {}
        kf = os.path.join(VERIF, 'known_findings.txt')
        if os.path.exists(kf):
            for line in open(kf):
                line = line.strip()
                if line.startswith('finding: property=%s ' % self.pid):
                    rest = line.split(' ', 2)[2]
                    key, _, txt = rest.partition(' :: ')
                    known[key.strip()] = txt
        new = [(k, t) for k, t in self.viol if k not in known]
        for k, t in self.viol:
            if k in known:
                print('KNOWN-FINDING: property=%s %s %s' % (self.pid, k, known[k]))
        ev = os.path.join(VERIF, 'evidence')
        os.makedirs(ev, exist_ok=True)
        n = sum(c for c, _ in self.ob.values())
        for g in self.gaps[:10]:
            print('INCOMPLETE: %s: not decided: %s' % (self.pid, g[:300]))
        if not n:
            raise CheckError('nothing was decided')
        doc = {
            'property': self.pid,
            'tier': os.environ.get('VERIF_TIER', 'quick'),
            'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
            'level': level,
            'coverage': {
                'explanation': self.explanation,
                'obligations': n,
                'discharged': n - len(self.viol),
                'rules': {r: {'text': self.rules.get(r, ''), 'instances': c, 'samples': s}
                          for r, (c, s) in self.ob.items()},
                'analysed': self.analysed,
                'exhaustive': not self.gaps,
                'not_decided': self.gaps[:50],
            },
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 2),
            'violations': len(new),
        }
        with open(os.path.join(ev, self.pid + '.json'), 'w') as f:
            json.dump(doc, f, indent=1)
        if new:
            rp = os.path.join(ev, self.pid + '.violations.txt')
            with open(rp, 'w') as f:
                for k, t in new:
                    f.write('%s\n  %s\n' % (k, t))
            for k, t in new[:20]:
                print('%s: %s: %s' % (self.pid, k, t))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        print('%s: held, %d obligations (%s)' % (
            self.pid, n, ', '.join('%s %d' % (r, c) for r, (c, _) in self.ob.items())))
        return 0
