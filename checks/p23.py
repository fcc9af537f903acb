"""P23: series of Earth orientation records: interpolation, UT1 approximation, regularisation."""
import random
from functools import lru_cache
from fractions import Fraction as Fr
from engine import build
from engine.alg import R, A, atom_desc, subst_rat, _neg_lead
from engine.fold import fold
from engine.logic import Not
from engine.vf import AnalysisError
from .eopops import STUB, ld, same, TWOPI
from .tides import tide

DIR = 'src/lib/eop/'
HDR = 'include/eop.hpp'
XP, YP, DUT, LOD, DX, DY, DAT, XR, YR = range(9)
NAMES = ('xp', 'yp', 'UT1-UTC', 'LOD', 'dX', 'dY')
PRIOR, LATER, LINEAR, LESS, REQUESTED = range(5)
MAXN = 12


def run(ck):
    ck.rule('lagrange', 'inside the series, each quantity is the Lagrange polynomial through equally many records on both sides, UT1 through UT1-TAI; the status says which degree')
    ck.rule('outside', 'outside the series the nearest record is returned with the requested epoch, and the status says so')
    ck.rule('hint', 'the result does not depend on where an earlier query left the search')
    ck.rule('regularise', 'regularising subtracts, restoring adds, the zonal tide variation at each record\'s epoch to UT1 and LOD of every record; nothing else changes')
    items = []
    for n in (1, 2, 3, 4, 7, MAXN):
        for k in range(n + 1):
            items += [('interp', n, k, deg, n) for deg in range(1, 10)]
            items.append(('approx', n, k, 0, n))
    for n in (2, 5):
        for k in range(n + 1):
            items += [('interp', n, k, deg, h) for deg in (1, 3) for h in range(n)]
            items += [('approx', n, k, 0, h) for h in range(n)]
    items += [('default', n, k, 5, 0) for n, k in ((3, 1), (8, 4), (8, 0), (8, 8))]
    items += [('history', 4, k, 3, j) for k in range(5) for j in range(5)]
    items += [('copy', 4, k, 3, j) for k in range(5) for j in range(5)]
    items += [('at', n, i, deg, j) for n in (1, 2, 5) for i in range(n) for deg in (0, 1, 3, 5) for j in range(n + 1)]
    items += [('reg', 3, 0, b, 0) for b in (0, 1, 2)] + [('meta', 3, 0, 0, 0)]
    mod()
    ck.par(one, items)
    ck.analysed('drv_interp'), ck.analysed('drv_approx'), ck.analysed('drv_history'), ck.analysed('drv_regularize'), ck.analysed('drv_there_and_back')
    ck.assumptions += ['series are in chronological order; degree 1 to 9; at least one record',
                       'the window arithmetic compares only distances up to five records from both ends: series of up to %d records, every position of the epoch, cover all cases' % MAXN,
                       'identities between rational functions of the epochs are compared at exact random rational epochs',
                       'leap seconds, UTC and calendar conversions are those of the (absent) datetime library']


@lru_cache(None)
def mod():
    return build.linked('eopseries.cpp', build.sources('eop/lagrange_interpolation.cpp', 'eop/approx_dut1.cpp', 'eop/regularize.cpp', 'eop/zonal_tides.cpp', 'fundarg/fundarg.cpp'), flags=STUB + ['-DVFN_DAYS'])


def X(i):
    return A('sym', 'x%s' % i)


def days(f, I, v):
    d = v[0] + v[1] / 86400 - v[2] - v[3] / 86400
    if d.is_zero():
        return R(0)
    if d.is_const():
        return d
    return -A('fn', 'vfn_days', (-d,)) if _neg_lead(d) else A('fn', 'vfn_days', (d,))


def memory(n, pts=('t',)):
    mem = {('arg', 'd'): {4 * i: (R(0), 4) for i in range(n)}, ('arg', 's'): {8 * i: (86400 * X(i), 8) for i in range(n)}}
    for p in pts:
        mem[('arg', p)] = {0: (R(0), 4), 8: (86400 * X(p), 8)}
    return mem


def lt(a, b):
    return ('flt', a - b)


def order(n, at):
    fs = [lt(X(i), X(j)) for i in range(n) for j in range(i + 1, n)] + [Not(lt(X(j), X(i))) for i in range(n) for j in range(i, n) if i != j]
    for p, k in at.items():
        fs += [Not(lt(X(p), X(i))) for i in range(k)] + [lt(X(i), X(p)) for i in range(k - 1)]
        fs += [lt(X(p), X(i)) for i in range(k, n)] + [Not(lt(X(i), X(p))) for i in range(k, n)]
    return fs


def val(i, q):
    return ld('v', 8 * (9 * i + q))


def points(n, seed):
    r = random.Random(seed)
    xs = sorted(r.sample(range(1, 10 ** 6), n))
    return xs, r


def value(v, pts):
    """epochs replaced by numbers"""
    def fa(a):
        d = atom_desc(a)
        if d[0] == 'sym' and d[1][0] == 'x' and d[1][1:] in pts:
            return R(pts[d[1][1:]])
        if d[0] == 'fn' and d[1] == 'vfn_days':
            return value(R(d[2][0]), pts)
        if d[0] == 'fn' and d[1].startswith('vfn_'):
            return A('fn', d[1], d[2])
        return None
    return subst_rat(R(v), fa)


def leap(p='t'):
    """TAI-UTC at the requested epoch"""
    return A('fn', 'vfn_dat', (A('fn', 'vfn_utc_day', (R(0), 86400 * X(p))),))


def expected(n, k, deg, q, pts):
    h = min((deg + 1) // 2, k, n - k)
    ids = range(k - h, k + h)
    out = R(0)
    for j in ids:
        w = Fr(1)
        for i in ids:
            if i != j:
                w *= Fr(pts['t'] - pts[str(i)], pts[str(j)] - pts[str(i)])
        y = val(j, q) - (val(j, DAT) if q == DUT else 0)
        out = out + R(w) * y
    return out + (leap() if q == DUT else 0), h


def numbers(n, k, seed):
    xs, r = points(n, seed)
    pts = {str(i): x for i, x in enumerate(xs)}
    lo = xs[k - 1] if k else xs[0] - 1000
    hi = xs[k] if k < n else lo + 2000
    pts['t'] = Fr(lo) + Fr(r.randrange(1, 997), 1000) * (hi - lo)
    return pts


def one(ck, it):
    kind, n, k, deg, h = it
    m = mod()
    if kind == 'reg':
        return regular(ck, m, n, deg)
    if kind == 'meta':
        return meta(ck, m, n)
    if kind == 'at':
        return exact(ck, m, n, k, deg, h)
    at = {'t': k}
    mem = memory(n, ('t', 't1') if kind in ('history', 'copy') else ('t',))
    if kind in ('history', 'copy'):
        at['t1'] = h
    args = {'n': R(n), 'hint': R(h), 'degree': R(deg)}
    drv = {'interp': 'drv_interp', 'approx': 'drv_approx', 'default': 'drv_interp_default', 'history': 'drv_history', 'copy': 'drv_copy'}[kind]
    loc = DIR + ('approx_dut1.cpp' if kind == 'approx' else 'lagrange_interpolation.cpp')
    f = fold(m, drv, args=args, mem=mem, handlers={'vfn_days': days}, assume=order(n, at))
    what = '%d records, epoch %s' % (n, 'before the first' if k == 0 else 'after the last' if k == n else 'between records %d and %d' % (k, k + 1))
    what += ', degree %d' % deg if kind != 'approx' else ', approximate UT1'
    if h != n or kind in ('history', 'copy'):
        what += ', search starting at record %d' % h if kind in ('interp', 'approx') else ', after a query at position %d' % h if kind == 'history' else ', on a copy queried at position %d before' % h if kind == 'copy' else ''
    res = lambda q: f.result(('arg', 'o'), 8 * (0 if kind == 'approx' else q))
    qs = (DUT,) if kind == 'approx' else (XP, YP, DUT, LOD, DX, DY)
    if k in (0, n):
        near = 0 if k == 0 else n - 1
        for q in qs:
            same(ck, '%s: %s of the nearest record' % (what, NAMES[q]), res(q), val(near, q), loc)
        want = PRIOR if k == 0 else LATER
    else:
        d = 1 if kind == 'approx' else deg
        for seed in (1, 2):
            pts = numbers(n, k, seed)
            for q in qs:
                w, hh = expected(n, k, d, q, pts)
                diff = value(res(q), pts) - w
                ck.ok('%s: %s' % (what, NAMES[q]), diff.is_zero() or (None if any(atom_desc(a)[0] not in ('ld', 'fn', 'arg') for a in diff.atoms()) else False), loc, 'differs by %s' % str(diff)[:300])
        want = LINEAR if hh == 1 else REQUESTED if 2 * hh == d + 1 else LESS
    status(ck, what, f.ret, want, loc)
    if kind != 'approx':
        same(ck, '%s: epoch of the result' % what, f.result(('arg', 'od'), 0, 'i32'), R(0), loc)
        same(ck, '%s: epoch of the result' % what, f.result(('arg', 'o'), 72), 86400 * X('t'), loc)
    ck.ok('%s: only live records are read' % what, not f.faults, loc, '; '.join(dict.fromkeys(f.faults))[:300])
    ck.ok('%s: always answers' % what, not f.deads, loc, 'the call may not return')


def exact(ck, m, n, i, deg, hint):
    """the epoch of a record: that record's values (degree 0 here: approximate UT1)"""
    mem = memory(n)
    mem[('arg', 't')][8] = (86400 * X(i), 8)
    f = fold(m, 'drv_interp' if deg else 'drv_approx', args={'n': R(n), 'hint': R(hint), 'degree': R(deg)}, mem=mem, handlers={'vfn_days': days}, assume=order(n, {}))
    loc = DIR + ('lagrange_interpolation.cpp' if deg else 'approx_dut1.cpp')
    what = '%d records, epoch of record %d, %s, search starting at record %d' % (n, i + 1, 'degree %d' % deg if deg else 'approximate UT1', hint)
    pts = numbers(n, 0, 3)
    for q in (XP, YP, DUT, LOD, DX, DY) if deg else (DUT,):
        w = [val(i, q)]
        if q == DUT:
            # through UT1-TAI, or the record itself where it counts as outside the series
            w = [val(i, q) - val(i, DAT) + leap(str(i))] + (w if i in (0, n - 1) else [])
        got = value(f.result(('arg', 'o'), 8 * q if deg else 0), pts)
        w = [value(x, pts) for x in w]
        ck.ok('%s: %s' % (what, NAMES[q]), any((got - x).is_zero() for x in w) or (None if any(atom_desc(a)[0] not in ('ld', 'fn', 'arg') for a in got.atoms()) else False), loc, 'got %s' % str(got)[:300])
    good = [x for x, ok in ((PRIOR, i == 0), (LATER, i == n - 1), (LINEAR, n > 1), (LESS, n > 1 and deg), (REQUESTED, n > 1 and deg)) if ok]
    r = f.ret if not isinstance(f.ret, bool) else R(int(f.ret))
    ck.ok('%s: status' % what, any((r - x).is_zero() for x in good) if r.is_const() else None, loc, 'status %s' % r)
    ck.ok('%s: within the records, always answers' % what, not f.deads and not f.faults, loc, str(f.deads + f.faults)[:300])


def status(ck, what, got, want, loc):
    v = got if isinstance(got, bool) else None
    same(ck, '%s: status' % what, R(int(v)) if v is not None else got, R(want), loc)


def meta(ck, m, n):
    f = fold(m, 'drv_meta', args={'n': R(n)}, handlers={'vfn_days': days})
    ck.analysed('drv_meta')
    same(ck, 'number of records', f.ret, R(n), HDR)
    for i, r in ((0, 0), (1, n - 1)):
        same(ck, 'first and last epoch', f.result(('arg', 'od'), 4 * i, 'i32'), ld('d', 4 * r, 'i32'), HDR)
        same(ck, 'first and last epoch', f.result(('arg', 'o'), 8 * i), ld('s', 8 * r), HDR)
    same(ck, 'cleared series', f.result(('arg', 'od'), 8, 'i32'), R(0), HDR)
    for i in range(5):
        r = fold(m, 'drv_out', args={'i': R(i)}).ret
        ck.ok('out-of-bounds status %d' % i, r is (i in (PRIOR, LATER)) if isinstance(r, bool) else None, HDR)


def regular(ck, m, n, back):
    from .p22 import DIR as _
    from .eopops import spec, horner, AS, strip_turns
    from .p13 import LS
    from engine.fold import trig
    if back == 2:
        f = fold(m, 'drv_there_and_back', args={'n': R(n)}, handlers={'vfn_days': days})
    else:
        f = fold(m, 'drv_regularize', args={'n': R(n), 'back': R(back)}, handlers={'vfn_days': days})
    loc = DIR + 'regularize.cpp'
    what = ('regularised', 'restored', 'regularised and restored')[back]
    same(ck, '%s series: number of records' % what, f.ret, R(n), loc)
    for k in range(n):
        for q in range(9):
            got = f.result(('arg', 'o'), 8 * (10 * k + q))
            if q not in (DUT, LOD) or back == 2:
                if q in (DUT, LOD):
                    tide(ck, '%s series, record %d: UT1 and LOD' % (what, k), got, val(k, q), loc)
                else:
                    same(ck, '%s series, record %d: other values' % (what, k), got, val(k, q), loc)
                continue
            cy = (ld('d', 4 * k, 'i32') - 51544 + (ld('s', 8 * k) - 43200) / 86400) / 36525
            fa = [horner(cs, cy) * R(AS) for _, cs in LS]
            acc = R(0)
            for row in spec('table81.txt'):
                nn, v = [int(x) for x in row[:5]], [Fr(x) for x in row[5:]]
                arg = sum((a * b for a, b in zip(nn, fa)), R(0))
                s, c = trig('sin', arg), trig('cos', arg)
                acc = acc + (100 * (v[0] * s + v[1] * c) if q == DUT else 10 * (v[2] * c + v[3] * s))
            want = val(k, q) + (1 if back else -1) * acc / 10 ** 6
            tide(ck, '%s series, record %d: %s' % (what, k, NAMES[q]), got, want, loc, syms=list(zip(('l', 'lp', 'F', 'D', 'Om'), fa)))
        same(ck, '%s series: epochs' % what, f.result(('arg', 'o'), 8 * (10 * k + 9)), ld('s', 8 * k), loc)
        same(ck, '%s series: epochs' % what, f.result(('arg', 'od'), 4 * k, 'i32'), ld('d', 4 * k, 'i32'), loc)
