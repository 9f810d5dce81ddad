"""Shared plumbing: locations, findings, evidence, exit codes."""
import json
import os
import sys
import time

REPO = os.environ.get('LSLSA_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from . import props  # noqa: E402
KNOWN = os.path.join(VERIF, 'known_findings.txt')


class AnalysisError(Exception):
    """The analysis itself cannot give an answer (anchor vanished, no parse...)."""


class Finding(object):
    def __init__(self, rule, construct, where, message):
        self.rule, self.construct, self.where, self.message = rule, construct, where, message

    @property
    def key(self):
        return '%s|%s' % (self.rule, self.construct)

    def __str__(self):
        return '%s: [%s] %s: %s' % (self.where, self.rule, self.construct, self.message)


class Result(object):
    """What one check run covered and found."""

    def __init__(self):
        self.findings = []
        self.coverage = {}
        self.assumptions = []

    def add(self, fs):
        self.findings.extend(fs)

    def count(self, **kw):
        for k, v in kw.items():
            if isinstance(v, int) and isinstance(self.coverage.get(k, 0), int):
                self.coverage[k] = self.coverage.get(k, 0) + v
            else:
                self.coverage[k] = v

    def need(self, what, have, least):
        """anchor: an instance count that must not silently vanish"""
        self.coverage[what] = have
        if have < least:
            raise AnalysisError('%s: %d found, at least %d expected: the rule would be vacuous' % (what, have, least))


def known(pid):
    """keys of the recorded (unfixed) findings of this property"""
    out = {}
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            ln = ln.strip()
            if not ln.startswith('known:'):
                continue
            head, _, what = ln[len('known:'):].strip().partition(' :: ')
            prop, _, key = head.partition(' ')
            if prop == 'property=' + pid and key.startswith('key='):
                out[key[4:]] = what
    return out


def drive(pid, mod, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    try:
        res = mod.run(tier)
    except AnalysisError as e:
        print('ERROR property=%s the analysis gives no answer: %s' % (pid, e))
        return 2
    except Exception as e:
        import traceback
        traceback.print_exc()
        print('ERROR property=%s the analysis gives no answer: %s' % (pid, e))
        return 2
    kn = known(pid)
    seen, new = set(), []
    for f in res.findings:
        if f.key in kn:
            if f.key not in seen:
                print('KNOWN-FINDING: property=%s %s' % (pid, kn[f.key] or f))
            seen.add(f.key)
        else:
            new.append(f)
    res.coverage.setdefault('explanation', props.P[pid]["rule"])
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': res.coverage,
          'assumptions': list(res.assumptions) + list(getattr(mod, 'ASSUME', [])),
          'wall_s': round(time.time() - t0, 3), 'violations': [str(f)[:1500] for f in new]}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    path = os.path.join(VERIF, 'evidence', pid + '.json')
    with open(path, 'w') as fh:
        json.dump(ev, fh, indent=1, sort_keys=True, default=str)
        fh.write('\n')
    if not new:
        print('OK property=%s %s' % (pid, ', '.join('%s=%s' % (k, v) for k, v in sorted(res.coverage.items()) if isinstance(v, int))))
        return 0
    rep = os.path.join(VERIF, 'evidence', pid + '.violations.txt')
    with open(rep, 'w') as fh:
        for f in new:
            fh.write(str(f) + '\n')
    for f in new[:20]:
        print('  ' + str(f)[:900])
    print('VIOLATION property=%s replay=%s' % (pid, rep))
    return 1
