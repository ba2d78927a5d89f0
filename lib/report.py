"""Result collection, known findings, evidence and exit codes of one check."""
import os, sys, json, time, re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known-findings.txt')

def known(prop):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line)
            if m and m.group(1) == prop: out[m.group(2)] = m.group(3).strip()
    return out

class Result(object):
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.obligations = 0; self.discharged = 0
        self.violations = {}            # key -> (where, msg, detail)
        self.undecided = []             # (what, why)
        self.counts = {}                # free-form measured counts
        self.samples = []
        self.rule = ''
        self.minimum = {}               # count name -> smallest acceptable value
        self.trusted = []
        self.errors = []
        self.exhaustive = True
    def count(self, k, n=1): self.counts[k] = self.counts.get(k, 0) + n
    def ok(self, n=1): self.obligations += n; self.discharged += n
    def sample(self, s):
        if len(self.samples) < 12: self.samples.append(s)
    def violate(self, key, where, msg, detail=None):
        key = re.sub(r'\s+', '_', key)
        self.obligations += 1
        self.violations.setdefault(key, (where, msg, detail))
    def undecide(self, what, why):
        self.obligations += 1
        self.undecided.append((what, str(why)[:300]))
    def error(self, msg): self.errors.append(msg)
    def finish(self, level='proof'):
        p = self.prop
        kn = known(p)
        new = dict((k, v) for k, v in self.violations.items() if k not in kn)
        for k, lo in self.minimum.items():
            if self.counts.get(k, 0) < lo:
                self.error('anchor lost: %s = %d, expected at least %d' % (k, self.counts.get(k, 0), lo))
        print('%s: %d obligations, %d discharged, %d undecided, %d known, %d violated' % (p, self.obligations, self.discharged, len(self.undecided), len(self.violations) - len(new), len(new)))
        for k, v in sorted(self.counts.items()): print('  %-36s %s' % (k, v))
        for w, y in self.undecided[:40]: print('  undecided: %s: %s' % (w, y))
        for k in sorted(self.violations):
            if k in kn: print('KNOWN-FINDING: property=%s %s' % (p, kn[k]))
        rep = os.path.join(VERIF, 'evidence', 'replay')
        for k in sorted(new)[:30]:
            w, m, d = new[k]
            print('  VIOLATED %s\n    at %s\n    %s' % (k, w, m))
        cov = {'obligations': self.obligations, 'discharged': self.discharged, 'undecided': len(self.undecided),
               'undecided_items': ['%s: %s' % x for x in self.undecided[:50]],
               'known_findings': len(self.violations) - len(new), 'rule': self.rule, 'samples': self.samples or ['(none)'],
               'counts': self.counts, 'checker_cmd': 'python3 check.py ' + p,
               'trusted_base': self.trusted or ['clang 18 front end', 'LLVM 18 IR reader', 'the analysis in /verif/lib'],
               'explanation': self.rule}
        ev = {'property': p, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level, 'coverage': cov,
              'wall_s': round(time.time() - self.t0, 2), 'violations': [{'key': k, 'where': v[0], 'what': v[1]} for k, v in sorted(new.items())]}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', p + '.json'), 'w'), indent=1)
        if new:
            os.makedirs(rep, exist_ok=True)
            path = os.path.join(rep, p + '.txt')
            with open(path, 'w') as f:
                f.write('%s\nrule: %s\n' % (p, self.rule))
                for k, (w, m, d) in sorted(new.items()): f.write('\n%s\n  at %s\n  %s\n%s' % (k, w, m, '  %s\n' % d if d else ''))
                f.write('\nreplay: cd /verif && python3 check.py %s\n' % p)
            print('VIOLATION property=%s replay=%s' % (p, os.path.relpath(path, VERIF)))
            return 1
        if self.errors:
            for x in self.errors: print('CHECK-ERROR %s: %s' % (p, x))
            return 2
        return 0
