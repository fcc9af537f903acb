"""P31: stop watch (clock.hpp)."""
from functools import lru_cache
from engine import build
from engine.alg import R, A, atom_desc, subst_rat
from engine.fold import Fold, Dead
from . import strs
from .eopops import same

LOC = 'include/clock.hpp'


def run(ck):
    ck.rule('duration', 'the total duration is the sum of stop - last start over all stops; it counts stops; averages are total / count in the asked unit')
    ck.rule('copies', 'copies, moved and assigned clocks go on with the running interval, total, count and name; the original keeps its own')
    ck.rule('name', 'names are kept, cut to the buffer, null-terminated; nothing is accessed outside the object')
    mod()
    ck.rule('compare', 'the printed comparison names both clocks in order and gives the difference of their averages in percent of the other')
    ck.par(one, list(cases()))
    for d in ('drv_clock', 'drv_running', 'drv_laps', 'drv_name', 'drv_copy', 'drv_faster', 'drv_compare'):
        ck.analysed(d)
    ck.assumptions += ['std::chrono::high_resolution_clock::now returns the time (an input at every call)', 'exact real arithmetic']


@lru_cache(None)
def mod():
    return build.driver('clock.cpp')


def go(name, args=None, times=None, text=None):
    """fold with the k-th reading of the clock = times[k] ns, or an unknown number of milliseconds"""
    n = [0]

    def now(f, I, v):
        n[0] += 1
        return R(times[n[0] - 1]) if times else 10 ** 6 * A('arg', 't%d' % (n[0] - 1))
    marks = []
    h = dict(strs.HANDLERS)
    h['_ZNSt6chrono3_V212system_clock3nowEv'] = h['_ZNSt6chrono3_V212steady_clock3nowEv'] = now
    h['vfn_mark'] = lambda f, I, v: marks.append(1) or R(0)
    prints = []
    h['printf'] = lambda f, I, v: prints.append((strs.text(f, v[0]), [strs.text(f, x) if isinstance(x, tuple) else x for x in v[1:]])) or R(0)
    f = Fold(mod(), mod().fns[name], h)
    ret = None
    try:
        ret = f.run({k: R(v) for k, v in (args or {}).items()}, {('arg', 's'): strs.const(text)} if text is not None else None)
    except Dead:
        pass
    f.leaks, f.prints = [], prints
    return f, ret, bool(marks)


def T(k):
    return A('arg', 't%d' % k)


def cases():
    for n in (0, 1, 2, 3, 5):
        yield ('laps', n)
    yield ('running',)
    yield ('stops',)
    yield ('compare',)
    for how in range(4):
        yield ('copy', how)
    for n in (0, 1, 22, 23, 24, 25, 40):
        yield ('name', n)
    for c, d in (((5000, 2), (11000, 5)), ((11000, 5), (5000, 2)), ((2000, 1), (4000, 2)), ((1000, 1), (9000, 4)), ((9000, 4), (1000, 1)), ((4000, 2), (3000, 1)), ((3000, 1), (4000, 2))):
        yield ('faster', c, d)
    for n, tot in ((1, 1999), (2, 3998), (3, 7000), (4, 999)):
        yield ('units', n, tot)


def one(ck, it):
    {'laps': laps, 'running': running, 'stops': stops, 'copy': copy, 'name': name, 'faster': faster, 'compare': compare, 'units': units}[it[0]](ck, *it[1:])


def fine(ck, what, f, ok):
    ck.ok(what + ': returns, no access outside the objects', ok and not f.faults, LOC, '; '.join(f.faults[:3]))
    return ok and not f.faults


def exact(x):
    """integer quotients of multiples of the divisor"""
    def fa(a):
        d = atom_desc(a)
        if d[0] == 'fn' and d[1] == 'idiv' or d[0] == 'idiv':
            y, k = d[-2:] if d[0] == 'idiv' else d[2] if len(d) == 3 else d[2:]
            y = subst_rat(R(y), fa) / R(k)
            if y.is_poly() and all(c.denominator == 1 for c in y.n.t.values()):
                return y
        return None
    return subst_rat(R(x), fa)


def put(ck, what, f, o, a, total, n):
    """total: milliseconds"""
    g = lambda k: exact(f.result(('arg', 'o'), 8 * (o + k), 'i64'))
    same(ck, what + ': total duration', g(0), total * 10 ** 6, LOC)
    same(ck, what + ': number of samples', g(1), R(n), LOC)
    same(ck, what + ': total duration in microseconds', g(2), total * 1000, LOC)
    same(ck, what + ': total duration in milliseconds', g(3), total, LOC)
    if n:
        for k, (u, s) in enumerate((('microseconds', 1000), ('milliseconds', 1), ('nanoseconds', 10 ** 6))):
            same(ck, '%s: average in %s' % (what, u), exact(f.result(('arg', 'a'), 8 * (a + k))), total * s / n, LOC)


def laps(ck, n):
    f, _, ok = go('drv_clock', {'n': n})
    what = '%d intervals' % n
    if fine(ck, what, f, ok):
        put(ck, what, f, 0, 0, sum((T(2 * i + 1) - T(2 * i) for i in range(n)), R(0)), n)


def running(ck):
    f, _, ok = go('drv_running')
    if fine(ck, 'running interval', f, ok):
        for k, (w, x) in enumerate((('elapsed', (T(3) - T(2)) * 10 ** 6), ('total', (T(1) - T(0)) * 10 ** 6), ('samples', R(1)), ('elapsed later', (T(4) - T(2)) * 10 ** 6))):
            same(ck, 'running interval: ' + w, f.result(('arg', 'o'), 8 * k, 'i64'), x, LOC)


def stops(ck):
    f, _, ok = go('drv_laps')
    if fine(ck, 'two stops', f, ok):
        same(ck, 'two stops: total', f.result(('arg', 'o'), 0, 'i64'), (T(1) + T(2) - 2 * T(0)) * 10 ** 6, LOC)
        same(ck, 'two stops: samples', f.result(('arg', 'o'), 8, 'i64'), R(2), LOC)


def copy(ck, how):
    what = ('copied', 'moved', 'assigned', 'self-assigned')[how] + ' clock'
    f, _, ok = go('drv_copy', {'how': how})
    if not fine(ck, what, f, ok):
        return
    put(ck, what, f, 0, 0, T(1) - T(0) + T(7) - T(2), 2)
    if how != 1:
        put(ck, what + ', original', f, 4, 3, T(1) - T(0), 1)
    got = [f.result(('arg', 's'), i, 'i8') for i in range(9)]
    ck.ok(what + ': name', all(x.is_const() and int(x.cval()) == c for x, c in zip(got, b'original\0')), LOC, 'name %s' % [str(x) for x in got])


def name(ck, n):
    s = ''.join(chr(97 + i % 26) for i in range(n))
    f, _, ok = go('drv_name', text=s)
    what = 'name of %d characters' % n
    if not fine(ck, what, f, ok):
        return
    got = [f.result(('arg', 'o'), i, 'i8') for i in range(min(n, 23) + 1)]
    want = s[:23].encode() + b'\0'
    ck.ok(what, all(x.is_const() and int(x.cval()) == c for x, c in zip(got, want)), LOC, 'name %s' % [str(x) for x in got])


def times(c):
    tot, n = c
    out, t = [], 10 ** 15
    for i in range(n):
        d = tot // n + (tot % n if i == 0 else 0)
        out += [t, t + d]
        t += d + 12345
    return out


def faster(ck, c, d):
    f, r, ok = go('drv_faster', {'n': c[1], 'm': d[1]}, times(c) + times(d))
    what = 'average of %d ns in %d samples against %d ns in %d' % (*c, *d)
    if fine(ck, what, f, ok):
        r = bool(r.cval()) if not isinstance(r, bool) and hasattr(r, 'is_const') and r.is_const() else r
        ck.ok(what + ': faster', r is (c[0] * d[1] < d[0] * c[1]) if isinstance(r, bool) else None, LOC, 'found %s' % (r,))


def units(ck, n, tot):
    f, _, ok = go('drv_clock', {'n': n}, times((tot, n)))
    what = '%d ns in %d samples' % (tot, n)
    if fine(ck, what, f, ok):
        g = lambda k: f.result(('arg', 'o'), 8 * k, 'i64')
        same(ck, what + ': microseconds', g(2), R(tot // 1000), LOC)
        same(ck, what + ': milliseconds', g(3), R(tot // 10 ** 6), LOC)
        for k, u in ((0, 1000), (2, 1)):
            a = f.result(('arg', 'a'), 8 * k)
            ck.ok(what + ': average in units of %d ns' % u, (abs(a.cval() * n * u - tot) < u) if a.is_const() else None, LOC, 'found %s' % a)


def compare(ck):
    f, _, ok = go('drv_compare')
    if not fine(ck, 'comparison', f, ok):
        return
    args = [a for _, l in f.prints for a in l]
    names = [bytes(a) if not isinstance(a, bytes) else a for a in args if isinstance(a, (bytes, list))]
    vals = [a for a in args if not isinstance(a, (bytes, list))]
    if not f.prints or len(vals) != 1:
        ck.ok('comparison: one value printed by printf', None, LOC, 'found %d' % len(vals))
        return
    ck.ok('comparison: names in order', names == [b'one', b'two'], LOC, 'found %s' % names)
    d = (T(3) - T(2) + T(5) - T(4)) / 2
    same(ck, 'comparison: percent', exact(vals[0]), 100 * (T(1) - T(0) - d) / d, LOC)
