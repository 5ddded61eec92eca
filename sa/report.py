"""Violations, known findings, evidence."""
import json, os, sys, time, hashlib
from .program import VERIF, AnalysisError

KNOWN = os.path.join(VERIF, 'known_findings.txt')


def known(prop):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('finding: property=%s ' % prop):
                rest = line.split(' ', 2)[2]
                if rest.startswith('key='):
                    key, _, desc = rest[4:].partition(' :: ')
                    out[key.strip()] = desc.strip()
    return out


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.viol = {}
        self.counts = {}
        self.floors = []
        self.rules = {}
        self.samples = {}
        self.extra = {}
        self.assumptions = []
        self.units = None

    def rule(self, name, text):
        """Declares a rule; every obligation examined under it is counted."""
        self.rules[name] = text
        self.counts.setdefault(name, 0)
        return name

    def ob(self, rule, what=None, n=1):
        self.counts[rule] = self.counts.get(rule, 0) + n
        if what is not None:
            s = self.samples.setdefault(rule, [])
            if len(s) < 8:
                s.append(what)

    def floor(self, rule, least):
        self.floors.append((rule, least))

    def bad(self, rule, key, loc, msg):
        """key identifies the construct independently of line numbers."""
        k = '%s|%s' % (rule, key)
        if k not in self.viol:
            self.viol[k] = (rule, loc, msg)

    def assume(self, s):
        self.assumptions.append(s)

    def finish(self, P=None):
        tier = os.environ.get('VERIF_TIER', 'quick')
        seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        for rule, least in self.floors:
            if self.counts.get(rule, 0) < least and all(k in known(self.prop) for k in self.viol):
                raise AnalysisError('rule %s matched %d instances, fewer than the %d confirmed by hand: the analysis is broken'
                                    % (rule, self.counts.get(rule, 0), least))
        kn = known(self.prop)
        new = {k: v for k, v in self.viol.items() if k not in kn}
        old = {k: v for k, v in self.viol.items() if k in kn}
        total = sum(self.counts.values())
        cov = {
            'explanation': 'Static analysis of the type-checked program (clang AST of every translation unit of the library, '
                           'build configuration of _build). Each rule below was applied to every construct it matches; '
                           'a construct is discharged when the rule holds for it on every path considered.',
            'rules': self.rules,
            'obligations_per_rule': self.counts,
            'obligations': total,
            'discharged': total - len(self.viol),
            'samples': ['%s: %s' % (r, w) for r in sorted(self.samples) for w in self.samples[r]],
        }
        if P is not None:
            cov['translation_units'] = len(P.tus)
            cov['functions_in_program'] = len(P._F)
        cov.update(self.extra)
        ev = {'property': self.prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': 'other',
              'coverage': cov, 'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2),
              'violations': len(new)}
        evd = os.path.join(VERIF, 'evidence')
        os.makedirs(evd, exist_ok=True)
        for k in sorted(old):
            print('KNOWN-FINDING: property=%s %s [%s] at %s' % (self.prop, kn[k] or old[k][2], k, old[k][1]))
        rp = os.path.join(evd, '%s.violations.txt' % self.prop)
        if os.path.exists(rp):
            os.unlink(rp)
        if new:
            with open(rp, 'w') as f:
                for k, (rule, loc, msg) in sorted(new.items()):
                    f.write('%s\n  rule %s: %s\n  instance: %s\n  %s\n\n' % (loc, rule, self.rules.get(rule, ''), k, msg))
        with open(os.path.join(evd, '%s.json' % self.prop), 'w') as f:
            json.dump(ev, f, indent=1)
        for k, (rule, loc, msg) in sorted(new.items()):
            print('VIOLATION property=%s replay=%s %s: [%s] %s' % (self.prop, rp, loc, k, msg))
        print('%s: %d obligations, %d violations (%d known), %.1f s' % (self.prop, total, len(self.viol), len(old), time.time() - self.t0))
        return 1 if new else 0
