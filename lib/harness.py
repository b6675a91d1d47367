"""Running a check: load, analyse, compare with the known findings, write evidence, report."""
import json
import os
import sys
import time
import traceback
from multiprocessing import get_context

import front

VERIF = front.VERIF
KNOWN = os.path.join(VERIF, 'known_findings.jsonl')


class Finding:
    def __init__(self, key, msg, fn=None, where=None, path=None):
        self.key, self.msg, self.fn, self.where, self.path = key, msg, fn, where, path

    def obj(self):
        o = {'key': self.key, 'message': self.msg}
        if self.fn:
            o['function'] = self.fn
        if self.where:
            o['where'] = self.where
        if self.path:
            o['path'] = self.path
        return o


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.thorough = tier == 'thorough'
        self.findings = {}
        self.cov = {}
        self.samples = []
        self.assume = []
        self.min = []          # (name, measured, minimum)
        self._M = {}

    def module(self, prec='FLOAT64', **kw):
        k = (prec, tuple(sorted((a, str(b)) for a, b in kw.items())))
        if k not in self._M:
            self._M[k] = front.load(prec, **kw)
        return self._M[k]

    def report(self, key, msg, fn=None, where=None, path=None):
        if key not in self.findings:
            self.findings[key] = Finding(key, msg, fn, where, path)

    def require(self, name, n, least):
        """the analysis must have had something to decide: below `least` it gives no answer"""
        self.min.append((name, n, least))

    def pmap(self, func, items, procs=None):
        """func(item) in forked workers; results in order"""
        global _F
        _F = func
        items = list(items)
        procs = procs or min(8, os.cpu_count() or 1)
        if procs == 1 or len(items) < 4:
            return [func(x) for x in items]
        with get_context('fork').Pool(procs) as p:
            return p.map(_call, items, chunksize=max(1, len(items) // (procs * 8)))


_F = None


def _call(x):
    return _F(x)


def known(prop):
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l and not l.startswith('#') and not l.startswith('fixed:'):
                o = json.loads(l)
                if o['property'] == prop:
                    out[o['key']] = o
    return out


def main(prop, checkfn, level, rule, tier=None):
    tier = tier or os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    t0 = time.time()
    c = Ctx(prop, tier)
    try:
        checkfn(c)
    except front.BuildError as e:
        print('ERROR: /repo does not compile for analysis: %s' % e)
        return 2
    except Exception:
        traceback.print_exc()
        print('ERROR: analysis failed')
        return 3
    kn = known(prop)
    new = [f for f in c.findings.values() if f.key not in kn]
    old = [f for f in c.findings.values() if f.key in kn]
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    cov = dict(c.cov)
    cov['rule'] = rule
    if c.samples:
        cov['samples'] = c.samples[:12]
    if level == 'proof':
        cov.setdefault('checker_cmd', 'bin/check %s' % prop)
    cov['findings'] = [f.obj() for f in new][:50]
    cov['known_findings'] = [f.obj() for f in old]
    cov['known_findings_not_seen'] = [k for k in kn if k not in c.findings]
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level,
          'coverage': cov, 'assumptions': c.assume, 'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    p = os.path.join(VERIF, 'evidence', prop + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(p + '.tmp', p)
    bad = [(n, m, l) for n, m, l in c.min if m < l]
    for f in old:
        print('KNOWN-FINDING: property=%s %s' % (prop, kn[f.key].get('what', f.msg)))
    if new:
        rp = os.path.join(VERIF, 'evidence', prop + '.violations.json')
        with open(rp, 'w') as fo:
            json.dump([f.obj() for f in new], fo, indent=1, default=str)
        for f in new[:40]:
            print('  %s: %s%s' % (f.fn or '', f.msg, ' [%s]' % f.where if f.where else ''))
            for x in (f.path or [])[:30]:
                print('      ' + str(x))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    if bad:
        for n, m, l in bad:
            print('ERROR: only %d %s analysed, at least %d expected: the check gives no answer' % (m, n, l))
        return 4
    print('%s: held; %s' % (prop, ', '.join('%s=%s' % (k, v) for k, v in c.cov.items() if isinstance(v, int))))
    return 0
