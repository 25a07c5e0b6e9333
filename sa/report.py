"""Verdict, known findings and evidence of one check."""
import json, os, time
from .prog import VERIF, REPO, Program, AnalysisBroken

_progs = {}
def program(cfg):
    if cfg not in _progs: _progs[cfg] = Program(cfg)
    return _progs[cfg]

class Report(object):
    def __init__(self, pid, tier):
        self.pid = pid; self.tier = tier
        self.t0 = time.time()
        self.obl = 0; self.ok = 0
        self.samples = []
        self.counts = {}
        self.viol = []
        self.rules = []
        self.assume = []
        self.funcs = set()
        self.notes = []
    def prog(self, cfg='sweep'): return program(cfg)
    def rule(self, text): self.rules.append(text)
    def assumption(self, text): self.assume.append(text)
    def count(self, what, n=1): self.counts[what] = self.counts.get(what, 0) + n
    def analysed(self, *names):
        for n in names: self.funcs.add(n)
    def oblige(self, desc, ok, where='', msg='', key=None):
        """one decided obligation; ok False is a violation"""
        self.obl += 1
        if ok:
            self.ok += 1
            if len(self.samples) < 40: self.samples.append('%s%s' % (desc, ' [%s]' % rel(where) if where else ''))
        else: self.violation(where, msg or desc, key)
        return ok
    def violation(self, where, msg, key=None):
        v = (rel(where), msg, key or msg)
        if v not in self.viol: self.viol.append(v)
    def need(self, n, at_least, what):
        """the rule must have found its instances"""
        self.count('instances: ' + what, n)
        if n < at_least: raise AnalysisBroken('%s: found %d, expected at least %d' % (what, n, at_least))
    def known(self):
        out = []
        p = os.path.join(VERIF, 'known_findings.txt')
        if os.path.exists(p):
            for line in open(p):
                line = line.strip()
                if line.startswith('known: property=%s ' % self.pid):
                    out.append(line.split(' key=', 1)[1].strip())
        return out
    def finish(self):
        ev = os.path.join(VERIF, 'evidence'); os.makedirs(ev, exist_ok=True)
        known = self.known()
        hits = [v for v in self.viol if v[2] in known]
        new = [v for v in self.viol if v[2] not in known]
        rp = os.path.join(ev, self.pid + '.report.txt')
        with open(rp, 'w') as f:
            for w, m, k in self.viol: f.write('%s: %s\n    [%s]\n' % (w, m, k))
        cov = {'explanation': 'Static analysis of the resolved syntax trees of the current sources: ' + ' '.join(self.rules),
               'obligations': self.obl, 'discharged': self.ok, 'samples': self.samples or ['(none)'],
               'functions_analysed': len(self.funcs), 'functions': sorted(self.funcs)[:150]}
        cov.update(self.counts)
        if self.notes: cov['notes'] = self.notes[:20]
        d = {'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
             'coverage': cov, 'assumptions': self.assume, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(new)}
        with open(os.path.join(ev, self.pid + '.json'), 'w') as f: json.dump(d, f, indent=1, default=str)
        for w, m, k in hits: print('KNOWN-FINDING: property=%s %s: %s' % (self.pid, w, m))
        for w, m, k in new: print('%s: %s' % (w, m))
        print('property=%s obligations=%d discharged=%d functions=%d time=%.1fs' % (self.pid, self.obl, self.ok, len(self.funcs), time.time() - self.t0))
        if new:
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        return 0

def rel(w):
    return str(w).replace(REPO + '/', '')
