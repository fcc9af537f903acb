"""P24: free core nutation model."""
from functools import lru_cache
from fractions import Fraction as Fr
from engine import build
from engine.alg import R, A, atom_desc, subst_rat
from engine.fold import fold, trig
from engine.logic import Not
from engine.trig import expmap, diff
from .eopops import STUB, TWOPI, ld, same, spec
from .p23 import X, days, memory, order, numbers, lt, value
from .tides import tide

DIR = 'src/lib/free_core_nutation/'
HDR = 'include/fcn.hpp'
MAXN = 5


def run(ck):
    ck.rule('model', 'X = c cos phi - s sin phi, Y = s cos phi + c sin phi with c, s linear between the coefficients around the epoch, phi = -2 pi (t - J2000) / 430.21 d')
    ck.rule('outside', 'before the first and after the last coefficient: those of the nearest epoch, uncertainty growing by 0.3 uas per day of distance')
    ck.rule('table', 'without coefficients: those of Table 5.2c, every row')
    items = [('fcn', n, k) for n in range(1, MAXN + 1) for k in range(n + 1)] + [('at', n, k) for n in range(1, MAXN + 1) for k in range(n)] + [('table', 0, 0), ('get', 0, 0)] + [('default', 0, k) for k in (0, 1, 17, 29, 30)]
    mod()
    ck.par(one, items)
    for d in ('drv_fcn', 'drv_table', 'drv_get', 'drv_default'):
        ck.analysed(d)
    ck.assumptions += ['coefficients in chronological order, at least one; series of up to %d entries (the search looks at neighbouring pairs only)' % MAXN,
                       'exact real arithmetic; rational identities in the epochs compared at exact random epochs']


@lru_cache(None)
def mod():
    return build.linked('fcn.cpp', build.sources('free_core_nutation/lambert.cpp', 'free_core_nutation/load_iers10_table52c.cpp'), flags=STUB + ['-DVFN_DAYS'])


def phase(v, t='t'):
    """the angle -2 pi (t - J2000)/430.21 as a symbol"""
    def fa(a):
        d = atom_desc(a)
        if d[0] == 'fn' and d[1] in ('sin', 'cos'):
            x = value(R(d[2][0]), {})
            w = R(TWOPI) / R(Fr('430.21')) * (X(t) - R(Fr('51544.5')))
            for s in (1, -1):
                e = x - s * w
                if x.is_poly() and all(abs(e.n.t.get(m, 0)) <= 1e-13 * abs(w.n.t.get(m, 1)) for m in set(e.n.t)):
                    return trig(d[1], s * A('sym', 'phi'))
        return None
    return subst_rat(R(v), fa)


def one(ck, it):
    kind, n, k = it
    m = mod()
    h = {'vfn_days': days}
    if kind == 'get':
        r = fold(m, 'drv_get')
        w = [A('arg', 'r'), A('arg', 'i'), A('arg', 'i'), -A('arg', 'r'), A('arg', 's'), A('arg', 's')]
        for i, x in enumerate(w):
            same(ck, 'coefficient %s' % ('XC', 'XS', 'YC', 'YS', 'SX', 'SY')[i], r.result(('arg', 'o'), 8 * i), x, HDR)
        return
    rows = [[Fr(x) for x in r] for r in spec('table52c.txt')]
    if kind == 'table':
        r = fold(m, 'drv_table', handlers=h)
        loc = DIR + 'load_iers10_table52c.cpp'
        same(ck, 'number of rows of Table 5.2c', r.ret, R(len(rows)), loc)
        for i, w in enumerate(rows):
            same(ck, 'Table 5.2c row %d' % i, r.result(('arg', 'd'), 4 * i, 'i32'), R(w[0]), loc)
            same(ck, 'Table 5.2c row %d' % i, r.result(('arg', 's'), 8 * i), R(0), loc)
            for j in range(3):
                same(ck, 'Table 5.2c row %d' % i, r.result(('arg', 'v'), 8 * (3 * i + j)), R(w[j + 1]), loc)
        return
    T = R(Fr(0)) + X('t')
    if kind == 'default':
        n = len(rows)
        at = [R(w[0]) for w in rows]
        mem = {('arg', 't'): {0: (R(0), 4), 8: (86400 * X('t'), 8)}}
        facts = [Not(lt(T, a)) for a in at[:k]] + [lt(a, T) for a in at[:max(k - 1, 0)]] + [lt(T, a) for a in at[k:]] + [Not(lt(a, T)) for a in at[k:]]
        f = fold(m, 'drv_default', mem=mem, handlers=h, assume=facts)
        val = lambda i, q: R(rows[i][q + 1])
        pts = {str(i): w[0] for i, w in enumerate(rows)}
        pts['t'] = (rows[k - 1][0] if k else rows[0][0] - 100) + Fr(137, 7)
    else:
        mem, pts, facts = memory(n), numbers(n, k, 5), order(n, {'t': k})
        if kind == 'at':
            mem[('arg', 't')][8] = (86400 * X(k), 8)
            pts['t'], facts = pts[str(k)], order(n, {})
        f = fold(m, 'drv_fcn', args={'n': R(n)}, mem=mem, handlers=h, assume=facts)
        val = lambda i, q: ld('v', 8 * (3 * i + q))
    if kind == 'at':
        c, s, e = [val(k, q) for q in range(3)]
        e = e if k == n - 1 else A('fn', 'fabs', (e,))
    elif k in (0, n):
        i = 0 if k == 0 else n - 1
        c, s, e = [val(i, q) for q in range(3)]
        e = e + R(Fr('0.3')) * abs(pts['t'] - pts[str(i)])
    else:
        a = Fr(pts['t'] - pts[str(k - 1)]) / (pts[str(k)] - pts[str(k - 1)])
        c, s, e = [val(k - 1, q) + R(a) * (val(k, q) - val(k - 1, q)) for q in range(3)]
        e = A('fn', 'fabs', (e,)) if not e.is_const() else R(abs(e.cval()))
    ph = A('sym', 'phi')
    want = [c * trig('cos', ph) + s * trig('sin', ph), s * trig('cos', ph) - c * trig('sin', ph), 2 * e, 2 * e]
    what = ('table: ' if kind == 'default' else '') + '%d coefficients, epoch %s' % (n, 'of coefficient %d' % (k + 1) if kind == 'at' else 'before the first' if k == 0 else 'after the last' if k == n else 'between %d and %d' % (k, k + 1))
    loc = DIR + 'lambert.cpp'
    for i, nm in enumerate(('X', 'Y', 'uncertainty of X', 'uncertainty of Y')):
        got = value(phase(f.result(('arg', 'o'), 8 * i), k if kind == 'at' else 't'), pts)
        if i < 2:
            series(ck, '%s: %s' % (what, nm), got, want[i], loc)
        else:
            same(ck, '%s: %s' % (what, nm), unabs(got, f), unabs(want[i], f), loc, rel=1e-13)
    ck.ok('%s: always answers, within bounds' % what, not f.deads and not f.faults, loc, str(f.deads + f.faults)[:300])


def unabs(v, f):
    """|x| with a canonical sign"""
    from engine.alg import _neg_lead

    def fa(a):
        d = atom_desc(a)
        if d[0] == 'fn' and d[1] == 'fabs':
            x = unabs(R(d[2][0]), f)
            return R(abs(x.cval())) if x.is_const() else A('fn', 'fabs', (-x if _neg_lead(x) else x,))
        return None
    return subst_rat(R(v), fa)


def series(ck, name, got, want, loc):
    a, b = expmap(got), expmap(want)
    d = None if a is None or b is None else diff(a, b, 1e-11, 0.0)
    ck.ok(name, None if d is None else not d, loc, '; '.join(d or [])[:300])
