"""Obligation bookkeeping, known findings, evidence and exit codes shared by all checks."""
import os, sys, json, time
from .build import VERIF, REPO, AnalysisBroken

KNOWN = os.path.join(VERIF, 'known_findings.txt')


def known_findings(pid):
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if not l.startswith('finding: property=%s ' % pid): continue
            rest = l.split(' ', 2)[2]
            key, _, desc = rest.partition(' ')
            if key.startswith('key='): out[key[4:]] = desc
    return out


class Check:
    def __init__(self, pid, prog, tier='quick', title=''):
        self.pid = pid; self.prog = prog; self.tier = tier; self.title = title
        self.t0 = time.time()
        self.obligations = []       # (rule, key, ok, where, msg)
        self.counts = {}
        self.assumptions = []
        self.rules = []
        self.notes = []

    def rule(self, text): self.rules.append(text)
    def count(self, what, n=1): self.counts[what] = self.counts.get(what, 0) + n
    def assume(self, t):
        if t not in self.assumptions: self.assumptions.append(t)

    def ob(self, rule, key, ok, where, msg=''):
        """one obligation; key identifies the construct (stable across line shifts)"""
        key = key.replace(' ', '_')
        self.obligations.append((rule, key, bool(ok), where, msg))
        return bool(ok)

    def need(self, cond, what):
        if not cond: raise AnalysisBroken(what)

    def minimum(self, what, n):
        got = self.counts.get(what, 0)
        if got < n: raise AnalysisBroken('vacuity: only %d %s (expected at least %d)' % (got, what, n))

    def finish(self):
        bad = [o for o in self.obligations if not o[2]]
        kn = known_findings(self.pid)
        newv, known = [], []
        seen = set()
        for o in bad:
            if o[1] in seen: continue
            seen.add(o[1])
            (known if o[1] in kn else newv).append(o)
        if not self.obligations: raise AnalysisBroken('no obligations were generated')
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        byrule = {}
        for o in self.obligations:
            r = byrule.setdefault(o[0], [0, 0]); r[0] += 1; r[1] += o[2]
        samples = []
        seenr = set()
        for o in self.obligations:
            if o[0] not in seenr or len(samples) < 12:
                seenr.add(o[0])
                samples.append({'rule': o[0], 'construct': o[1], 'where': o[3], 'holds': o[2]})
            if len(samples) >= 40: break
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
            'coverage': {
                'explanation': 'Static analysis of the resolved program (LLVM IR of every library source of /repo, linked; nothing is executed). ' + ' '.join(self.rules),
                'obligations': len(self.obligations),
                'discharged': sum(1 for o in self.obligations if o[2]),
                'functions_resolved': len(self.prog.repo_funcs),
                'analysed': self.counts,
                'obligations_by_rule': {k: {'total': v[0], 'discharged': v[1]} for k, v in byrule.items()},
                'known_findings_seen': [o[1] for o in known],
                'samples': samples,
            },
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 3),
            'violations': len(newv),
        }
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w'), indent=1)
        print('%s: %d obligations, %d discharged; %s' % (self.pid, len(self.obligations), ev['coverage']['discharged'],
              ', '.join('%s=%d' % kv for kv in sorted(self.counts.items()))))
        for o in known:
            print('KNOWN-FINDING: property=%s %s: %s (%s)' % (self.pid, o[1], kn[o[1]], o[3]))
        rp = os.path.join(VERIF, 'evidence', self.pid + '.violations.txt')
        if not newv and os.path.exists(rp): os.remove(rp)
        if newv:
            rp = os.path.join(VERIF, 'evidence', self.pid + '.violations.txt')
            with open(rp, 'w') as f:
                for o in newv: f.write('%s\n  rule: %s\n  at: %s\n  %s\n' % (o[1], o[0], o[3], o[4]))
            for o in newv[:20]:
                print('  violated: [%s] %s at %s: %s' % (o[0], o[1], o[3], o[4]))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        return 0
