"""Obligation bookkeeping, verdicts and evidence files."""
import json
import os
import sys
import time
import traceback
from .build import VERIF, REPO
from .vf import AnalysisError


class Check:
    def __init__(self, prop, technique='', level='other'):
        self.prop = prop
        self.t0 = time.time()
        self.obl = []          # (name, ok, loc, msg, key)
        self.level = level
        self.notes = {}
        self.assumptions = []
        self.samples = []
        self.fns = set()
        self.undecided = []
        self.rules = {}

    def rule(self, rid, text):
        self.rules[rid] = text

    def ok(self, name, cond, loc='', msg='', key=None):
        """record an obligation; cond True/False/None (None: undecided)"""
        if cond is None:
            self.undecided.append((name, loc, msg))
            return
        self.obl.append((name, bool(cond), loc, msg, key or name))

    def eq(self, name, facts, a, b, loc='', key=None):
        """obligation: a == b under facts (proved, refuted with a witness, or undecided)"""
        from .cases import prove_eq
        from .evalx import refute
        from .alg import R
        a, b = R(a), R(b)
        v = prove_eq(list(facts), a, b)
        if v is True:
            self.ok(name, True, loc, '', key)
            return True
        w = None if opaque(a, b) else refute(list(facts), a, b)
        if w is not None:
            self.ok(name, False, loc, 'found: %s | required: %s | %s' % (_cut(a), _cut(b), w), key)
            return False
        self.ok(name, None, loc, 'found: %s | required: %s' % (_cut(a), _cut(b)), key)
        return None

    def holds(self, name, facts, f, loc='', key=None, what=''):
        from .cases import prove
        from .evalx import refute_formula
        from .logic import fstr
        if prove(list(facts), f):
            self.ok(name, True, loc, '', key)
            return True
        w = refute_formula(list(facts), f)
        if w is not None:
            self.ok(name, False, loc, '%s required: %s fails %s' % (what, fstr(f)[:300], w), key)
            return False
        self.ok(name, None, loc, '%s required: %s' % (what, fstr(f)[:300]), key)
        return None

    def par(self, fn, items, nproc=8):
        """run fn(sub-check, item) for every item in forked workers and merge"""
        global _PAR
        import multiprocessing as mp
        _PAR = (fn, self.prop)
        items = list(items)
        if len(items) <= 1 or os.environ.get('VERIF_SERIAL'):
            res = [_par_one(i) for i in items]
        else:
            # fixed shares, each in a fresh process: results do not depend on scheduling
            n = min(len(items), 4 * nproc)
            with mp.get_context('fork').Pool(min(nproc, n), maxtasksperchild=1) as pool:
                part = pool.map(_par_some, [items[i::n] for i in range(n)], chunksize=1)
            res = [part[i % n][i // n] for i in range(len(items))]
        for r in res:
            self.obl += r['obl']
            self.undecided += r['und']
            self.fns |= r['fns']
            for a in r['ass']:
                if a not in self.assumptions:
                    self.assumptions.append(a)
            self.rules.update(r['rules'])
            if r['err']:
                self.undecided.append(r['err'])
        return [r['ret'] for r in res]

    def analysed(self, f):
        self.fns.add(f)

    def finish(self):
        tier = os.environ.get('VERIF_TIER', 'quick')
        seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        bad = [o for o in self.obl if not o[1]]
        known = load_known(self.prop)
        viol = []
        kf = []
        for o in bad:
            m = [k for k in known if k['key'] == o[4]]
            if m:
                kf.append((o, m[0]))
            else:
                viol.append(o)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        ndis = sum(1 for o in self.obl if o[1])
        ev = {
            'property': self.prop, 'tier': tier, 'seed': seed, 'level': self.level,
            'coverage': {
                'explanation': self.notes.pop('explanation', 'static value-flow / dataflow analysis of the current sources'),
                'obligations': len(self.obl), 'discharged': ndis,
                'functions_analysed': sorted(self.fns)[:400], 'n_functions': len(self.fns),
                'rules': self.rules,
                'undecided': [list(u) for u in self.undecided][:50],
                'samples': [o[0] for o in self.obl[:: max(1, len(self.obl) // 12)]][:14],
                'checker_cmd': 'python3-vt /verif/checks/run.py %s' % self.prop,
                'trusted_base': ['clang 18 front end and LLVM 18 inlining/SROA/GVN', 'engine/*.py'],
                'known_findings': [k['what'] for _, k in kf],
            },
            'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(viol)}
        ev['coverage'].update(self.notes)
        for k in {k['what']: k for _, k in kf}.values():
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        rp = os.path.join(VERIF, 'evidence', self.prop + '.report.txt')
        rc = 0
        with open(rp, 'w') as f:
            for o in viol:
                f.write('VIOLATION %s\n  at: %s\n  %s\n' % (o[0], o[2], o[3]))
            for u in self.undecided:
                f.write('UNDECIDED %s\n  at: %s\n  %s\n' % u)
        if viol:
            for o in viol[:20]:
                print('  %s\n    at %s\n    %s' % (o[0], o[2], o[3][:1500]))
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            rc = 1
        elif not self.obl or (self.undecided and self.strict_undecided()):
            for u in self.undecided[:10]:
                print('UNDECIDED %s at %s: %s' % u)
            print('analysis broken: %d obligations, %d undecided' % (len(self.obl), len(self.undecided)))
            rc = 3
        else:
            for u in self.undecided[:10]:
                print('not decided (not covered): %s at %s' % u[:2])
            print('%s: %d obligations discharged over %d functions (%.1fs)' % (self.prop, ndis, len(self.fns), time.time() - self.t0))
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w'), indent=1, default=str)
        return rc

    def strict_undecided(self):
        """the analysis is broken (error exit) when it lost its subject: no
        obligations left, or most of them without an answer.  Undecided
        obligations, and parts the analysis could not follow, are printed and
        listed in the evidence file as not covered."""
        lost = sum(10 for u in self.undecided if u[0] in ('analysis could not proceed', 'internal error'))
        return len(self.undecided) + lost > len(self.obl)


def opaque(*rs):
    """an expression mentions a value the analysis could not resolve"""
    from .alg import deep_atoms, atom_desc
    for r in rs:
        for x in deep_atoms(r):
            d = atom_desc(x)
            if d[0] in OPAQUE or (d[0] == 'ld' and d[1][0] == 'pite'):
                return True
    return False


OPAQUE = ('unknown', 'opq', 'rec', 'recv', 'kx', 'bytes')

_PAR = None


def _par_some(items):
    return [_par_one(i) for i in items]


def _par_one(item):
    fn, prop = _PAR
    c = Check(prop)
    err = None
    ret = None
    try:
        ret = fn(c, item)
    except AnalysisError as e:
        err = ('analysis could not proceed', str(item), str(e))
        if os.environ.get('VERIF_TRACE'):
            traceback.print_exc(limit=-2)
    except Exception as e:
        traceback.print_exc(limit=-2)
        err = ('internal error', str(item), repr(e))
    return {'obl': c.obl, 'und': c.undecided, 'fns': c.fns, 'ass': c.assumptions, 'rules': c.rules, 'err': err, 'ret': ret}


def _cut(x, n=500):
    s = str(x)
    return s if len(s) <= n else s[:n] + '...'


def load_known(prop):
    p = os.path.join(VERIF, 'known-findings.jsonl')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'):
                d = json.loads(l)
                if d.get('property') == prop and d.get('status') == 'open':
                    out.append(d)
    return out
