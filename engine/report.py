"""Obligation bookkeeping, known findings, evidence files and exit codes shared by all checks."""
import json, os, sys, time, hashlib, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known_findings.json')

UNMODELLED = '(the path goes through a call that is neither analysed nor modelled)'
class Report:
    def __init__(self, prop, tier, seed):
        self.prop = prop; self.tier = tier; self.seed = seed
        self.t0 = time.time()
        self.obl = 0; self.dis = 0
        self.viols = {}          # key -> (text, [detail lines])
        self.und = {}            # key -> text
        self.funcs = set(); self.paths = 0
        self.samples = []
        self.counts = {}
        self.rules = []
        self.unmodelled = {}
    # -- recording
    def rule(self, text): self.rules.append(text)
    def ok(self, sample=None, n=1):
        self.obl += n; self.dis += n
        if sample and len(self.samples) < 12 and sample not in self.samples: self.samples.append(sample)
    def viol(self, key, text, details=()):
        if any(UNMODELLED in str(d) or '$call.' in str(d) or '$havoc.' in str(d) for d in details):
            return self.undecided(key, 'the path goes through a call that is neither analysed nor modelled')
        self.obl += 1
        self.viols.setdefault(key, (text, list(details)))
    def undecided(self, key, text=''):
        self.obl += 1
        self.und.setdefault(key, text)
    def check(self, cond, key, text, details=(), sample=None):
        if cond: self.ok(sample)
        else: self.viol(key, text, details)
        return cond
    def count(self, k, n=1): self.counts[k] = self.counts.get(k, 0) + n
    def used(self, I_):
        self.funcs |= I_.analysed
        for k, n in I_.unmodelled.items(): self.unmodelled[k] = self.unmodelled.get(k, 0) + n
    # -- finishing
    def finish(self):
        known = {}
        try:
            for e in json.load(open(KNOWN)).get('findings', []):
                if e['property'] == self.prop: known[e['key']] = e
        except FileNotFoundError: pass
        evd = os.path.join(VERIF, 'evidence'); os.makedirs(evd, exist_ok=True)
        for fn in os.listdir(evd):
            if fn.startswith(self.prop + '-') and fn.endswith('.txt'): os.unlink(os.path.join(evd, fn))
        new = []
        for k, (text, det) in sorted(self.viols.items()):
            if k in known:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, known[k]['what'])); continue
            rp = os.path.join(evd, '%s-%s.txt' % (self.prop, hashlib.sha1(k.encode()).hexdigest()[:10]))
            with open(rp, 'w') as fh:
                fh.write('property %s\nkey      %s\n%s\n' % (self.prop, k, text))
                for d in det: fh.write('    %s\n' % d)
                fh.write('rules applied:\n')
                for r in self.rules: fh.write('    %s\n' % r)
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            print('    ' + text)
            for d in det[:6]: print('      ' + str(d)[:300])
            new.append({'key': k, 'text': text, 'details': [str(d) for d in det][:20]})
        for k, v in list(self.und.items())[:8]: print('undecided: %s %s' % (k, str(v)[:200]))
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'other',
              'coverage': {
                  'explanation': 'Static analysis of the MIR that rustc produces for the current tree of /repo; nothing is executed. ' + ' '.join(self.rules),
                  'obligations': self.obl, 'discharged': self.dis, 'undecided': len(self.und),
                  'undecided_list': ['%s %s' % (k, str(v)[:300]) for k, v in list(self.und.items())[:40]],
                  'functions_analysed': len(self.funcs), 'functions': sorted(self.funcs)[:400],
                  'abstract_paths': self.paths, 'counts': self.counts, 'unmodelled_calls': self.unmodelled,
                  'samples': self.samples or ['(none)']},
              'wall_s': round(time.time() - self.t0, 3),
              'violations': len(new), 'violation_list': new,
              'known_findings_seen': [k for k in self.viols if k in known]}
        with open(os.path.join(evd, '%s.json' % self.prop), 'w') as fh: json.dump(ev, fh, indent=1)
        print('%s: %d obligations, %d discharged, %d undecided, %d violations (%d known), %d functions, %d paths, %.1fs' % (
            self.prop, self.obl, self.dis, len(self.und), len(self.viols), len(self.viols) - len(new), len(self.funcs), self.paths, time.time() - self.t0))
        return 1 if new else 0
