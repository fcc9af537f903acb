"""P33: AOD1B data streams: coefficients at any time."""
from fractions import Fraction
from functools import lru_cache
from engine import build
from engine.alg import R, A, Rat
from engine.fold import Fold, Dead
from engine.vf import P, AnalysisError
from . import strs, files, p32
from .eopops import STUB, same
from .p29 import atom
from .p32 import DAY, GPS2TT, TYPES, tri, mjd

HPP = 'include/aod1b_data_stream.hpp'
DEG = 1
STEP = 3 * 3600 * 10 ** 9


def run(ck):
    ck.rule('interpolation', 'coefficients at t are the linear interpolation in time of the two data blocks of the type asked for whose epochs enclose t, whatever was asked for before')
    ck.rule('days', 'with a directory, the file of the next day is read when the last block is passed')
    ck.rule('refusal', 'epochs before the first and from the last block on, and files that cannot be read, give an error; earlier and later questions are not disturbed')
    ck.rule('extent', 'no access outside the buffers')
    mod()
    ck.par(one, list(cases()))
    for d in ('drv_atm', 'drv_ocn', 'drv_glo', 'drv_oba', 'drv_days'):
        ck.analysed(d)
    ck.assumptions += ['file streams and std::from_chars behave as documented (models in checks/files.py)', 'GPS to TT and calendar are those of the datetime library', 'exact real arithmetic']


@lru_cache(None)
def mod():
    return build.linked('aodstream.cpp', build.sources('aod1b/*.cpp', 'stokes_coefficients.cpp', 'tidal_constituent.cpp', 'doodson/*.cpp'), flags=p32.IO, roots='^drv_|Aod1bDataStream|Aod1bDataBlockIterator')


def civil(day):
    a = day + 2400001 + 32044
    b = (4 * a + 3) // 146097
    c = a - 146097 * b // 4
    d = (4 * c + 3) // 1461
    e = c - 1461 * d // 4
    m = (5 * e + 2) // 153
    return 100 * b + d - 4800 + m // 10, m + 3 - 12 * (m // 10), e - (153 * m + 2) // 5 + 1


def text(day, n, order, x, tag, skip=()):
    """file of one day: n epochs from midnight on; (lines, values per type and epoch)"""
    y, m, d = civil(day)
    st = lambda k: '%04d-%02d-%02d %02d:00:00' % (y, m, d, 3 * k)
    ref = mjd(2000, 1, 1) * 86400 + 43200
    sec = lambda k: '%d.000000 (%s)' % (day * 86400 + 3 * 3600 * k - ref, st(k))
    L = p32.header(p32.NONTIDAL, x, {'TIME FIRST OBS(SEC PAST EPOCH)': sec(0), 'TIME LAST OBS(SEC PAST EPOCH)': sec(n - 1), 'MAXIMUM DEGREE': str(DEG), 'NUMBER OF DATA SETS': str(n * len(order))}, prefix=tag)
    V = {}
    i = 0
    for k in range(n):
        for t in order:
            i += 1
            l, v = p32.block(x, '%s%s%d' % (tag, t, k), tri(DEG))
            if (t, k) in skip:
                continue
            V[t, day * DAY + k * STEP + GPS2TT] = v
            L.append('DATA SET %02d: %6d COEFFICIENTS FOR %s OF TYPE %s' % (i, len(l), st(k), t))
            L += l
    return L, V


D0 = mjd(2008, 7, 3)


def cases():
    for t in TYPES:
        yield ('ask', 'every interval of %s' % t, t, 6, [(k, i) for i in range(5) for k in 'nmm'], 0)
    for i in range(5):
        for j in range(5):
            yield ('ask', 'interval %d, then %d' % (i, j), 'ocn', 6, [('m', i), ('m', j), ('m', i)], 0)
            yield ('ask', 'node %d, then %d' % (i, j), 'glo', 6, [('n', i), ('n', j), ('m', j)], 0)
    for i in range(3):
        for j in range(5):
            yield ('ask', 'interval %d, outside, then %d' % (i, j), 'atm', 6, [('m', i), ('after', 0), ('m', j), ('before', 0), ('m', j)], 0)
    for w in ('after', 'before', 'last', 'long after', 'long before'):
        yield ('ask', 'first ' + w, 'oba', 5, [(w, 0), ('m', 1), (w, 0), ('m', 3), ('m', 0)], 0)
    for n in (4, 5, 8):
        yield ('ask', 'file of %d epochs, jumps' % n, 'atm', n, [('m', n - 2), ('m', 0), ('n', n - 2), ('m', 1), ('m', n - 2), ('m', n - 3), ('m', 0), ('n', 0)], 0)
    for how in (1, 2, 3):
        yield ('ask', ('', 'moved before the start', 'moved', 'assigned')[how], 'ocn', 6, [('m', 1), ('m', 3), ('m', 0), ('m', 4), ('after', 0), ('m', 2)], how)
    # days
    for i in (0, 3, 4):
        for j in range(4):
            yield ('days', 'day 0 interval %d, then day 1 interval %d' % (i, j), [('m', 0, i), ('m', 1, j), ('m', 1, (j + 2) % 4)], 2, 0, D0)
    for q in ([('m', 0, 5), ('m', 0, 6)], [('gap', 0, 0), ('m', 1, 0)], [('n', 1, 0), ('m', 1, 0)], [('gap', 0, 0), ('gap', 0, 0), ('m', 0, 2)], [('m', 1, 3), ('m', 1, 0), ('m', 2, 0), ('gap', 1, 0), ('m', 2, 1)], [('m', 1, 0), ('m', 0, 2)],
              [('m', 0, 1), ('m', 2, 1)]):
        for day in (D0, mjd(2008, 2, 28), mjd(2009, 12, 31)):
            yield ('days', 'days %s from %d-%02d-%02d' % ((q,) + civil(day)), q, 3, 0, day)
    for how in (2, 3):
        yield ('days', 'moved between days %d' % how, [('m', 0, 1), ('m', 1, 1), ('m', 1, 2)], 2, how, D0)
    yield ('days', 'no next file', [('m', 0, 2), ('m', 1, 1), ('m', 0, 1), ('m', 0, 3)], 1, 0, D0)
    yield ('days', 'no next file, again', [('gap', 0, 0), ('m', 0, 4), ('gap', 0, 0), ('m', 0, 0)], 1, 0, D0)
    yield ('longdir',)
    for what in ('no block of the type', 'two blocks', 'unreadable block', 'unreadable heading', 'unreadable later block'):
        yield ('bad', what)


def times(i, n, day, q):
    """epoch (ns, TT) of a question: value, range"""
    kind, k = q
    t0 = day * DAY + GPS2TT
    end = t0 + (n - 1) * STEP
    if kind == 'n':
        return R(t0 + k * STEP), None
    if kind == 'last':
        return R(end), None
    if kind == 'before':
        return R(t0 - 1), None
    if kind == 'long before':
        return R(t0 - 5 * DAY), None
    if kind == 'after':
        return R(end + 1), None
    if kind == 'long after':
        return R(end + 5 * DAY), None
    a = A('arg', 't%d' % i)
    lo = t0 + k * STEP
    return a, (Fraction(lo + 1), True, Fraction(lo + STEP - 1), True)


def go(fn, texts, names, args, ts, mem=None):
    fl = files.Files(texts, names)
    h = dict(fl.h)
    h['vfn_gps2tt'] = lambda f, I, v: v[0] + GPS2TT
    h['#catch'] = True
    h['vfn_doy'] = p32.doy
    h['vfn_from_char'] = p32.from_char
    h['vfn_ymd'] = p32.to_char
    h['strrchr'] = p32.strrchr
    h['vfn_ymd_of'] = lambda f, I, v: R(civil(int(v[0].cval()))[int(v[1].cval())])
    f = Fold(mod(), mod().fns[fn], h)
    f.ranges = {atom(t): r for t, r in ts if r is not None}
    m = {('arg', 't'): {8 * i: (t, 8) for i, (t, r) in enumerate(ts)}, ('arg', 'st'): {4 * i: (R(-999), 4) for i in range(len(ts) + 1)}}
    for k, v in (mem or {}).items():
        m[('arg', k)] = v
    ok = True
    try:
        f.run({k: R(v) for k, v in dict(args, n=len(ts), deg=DEG, ord=DEG).items()}, m)
    except Dead:
        ok = False
    return f, fl, ok


def one(ck, it):
    {'ask': ask, 'days': days, 'bad': bad, 'longdir': longdir}[it[0]](ck, *it[1:])


def fine(ck, what, r, ok):
    kept = [b for b, (n, gone) in r.blocksz.items() if gone is None and b[1] != 'string']   # (strings: the library's)
    ck.ok(what + ': memory is released', not (ok and kept), HPP, 'blocks kept: %s' % (kept[:3],))
    ck.ok(what + ': no access outside the buffers', not r.faults, HPP, '; '.join(r.faults[:3]))
    ck.ok(what + ': returns', ok, HPP)
    return ok and not r.faults


def answer(ck, what, r, i, t, rng, V, ty, must=True):
    """i-th answer against the blocks of the type: {epoch: values}"""
    st = r.result(('arg', 'st'), 4 * (i + 1), 'i32')
    if not st.is_const():
        return ck.ok(what + ': status', None, HPP)
    B = sorted((e, v) for (k, e), v in V.items() if k == ty)
    at = t.cval() if t.is_const() else (rng[0] + rng[2]) / 2
    hit = [(a, b) for a, b in zip(B, B[1:]) if a[0] <= at < b[0]]
    if not hit:
        return ck.ok(what + ': refused', not st.is_zero(), HPP, 'coefficients are given outside the epochs of the file')
    if not st.is_zero():
        return ck.ok(what + ': answered', not must, HPP, 'status %s' % st)
    (a, va), (b, vb) = hit[0]
    w = (t - a) / (b - a)
    p = 0
    for l, m in tri(DEG):
        for q in 'CS':
            same(ck, '%s: %s(%d,%d)' % (what, q, l, m), r.result(('arg', 'o'), 256 * i + 8 * p), va[q, l, m] * (1 - w) + vb[q, l, m] * w, HPP, rel=1e-9)
            p += 1


def ask(ck, what, ty, n, qs, how):
    x = p32.Text(p32.STYLES)
    L, V = text(D0, n, TYPES, x, 'a')
    L2, _ = text(D0 + 40, n, TYPES, x, 'b')
    ts = [times(i, n, D0, q) for i, q in enumerate(qs)]
    r, fl, ok = go('drv_' + ty, {'f.asc': '\n'.join(L) + '\n', 'g.asc': '\n'.join(L2) + '\n'}, x.names, {'how': how}, ts, {'fn': strs.const('f.asc'), 'other': strs.const('g.asc')})
    if not fine(ck, what, r, ok):
        return
    same(ck, what + ': initialisation', r.result(('arg', 'st'), 0, 'i32'), R(0), HPP)
    for i, (t, g) in enumerate(ts):
        answer(ck, '%s, question %d' % (what, i + 1), r, i, t, g, V, ty)


def days(ck, what, qs, nd, how, day):
    x = p32.Text(p32.STYLES)
    V, texts = {}, {}
    n = 8
    fn = lambda d: 'data/AOD1B_%04d-%02d-%02d_X_06.asc' % civil(d)
    for d in range(nd):
        L, v = text(day + d, n, TYPES, x, 'abc'[d])
        texts[fn(day + d)] = '\n'.join(L) + '\n'
        V.update(v)
    L, _ = text(day + 300, n, TYPES, x, 'z')
    texts['g.asc'] = '\n'.join(L) + '\n'
    ts, must, last = [], [], 0
    for i, (k, d, j) in enumerate(qs):
        t = times(i, n, day + d, (k if k != 'gap' else 'm', 7 if k == 'gap' else j))
        ts.append(t)
        e = d + (k == 'gap')
        # steps back into a file left behind, and over whole files, may be refused
        must.append(e >= last - (0 if k != 'gap' else 0) and e <= last + 1)
        if must[-1] and e < nd:
            last = max(last, e)
        elif not must[-1]:
            break
    ts = ts[:len(must)]
    r, fl, ok = go('drv_days', texts, x.names, {'how': how}, ts, {'fn': strs.const(fn(day)), 'dir': strs.const('data'), 'other': strs.const('g.asc')})
    if not fine(ck, what, r, ok):
        return
    same(ck, what + ': initialisation', r.result(('arg', 'st'), 0, 'i32'), R(0), HPP)
    for i, (t, g) in enumerate(ts):
        answer(ck, '%s, question %d' % (what, i + 1), r, i, t, g, V, 'glo', must[i])


def longdir(ck):
    x = p32.Text(p32.STYLES)
    dr = 'data/' + 'directory/' * 30
    fn = dr + 'AOD1B_%04d-%02d-%02d_X_06.asc' % civil(D0)
    gn = dr + 'AOD1B_%04d-%02d-%02d_X_06.asc' % civil(D0 + 1)
    L, V = text(D0, 5, TYPES, x, 'a')
    L2, V2 = text(D0 + 1, 5, TYPES, x, 'b')
    V.update(V2)
    ts = [times(0, 5, D0, ('m', 1)), times(1, 5, D0 + 1, ('m', 1))]
    r, fl, ok = go('drv_days', {fn: '\n'.join(L) + '\n', gn: '\n'.join(L2) + '\n'}, x.names, {'how': 0}, ts, {'fn': strs.const(fn), 'dir': strs.const(dr), 'other': strs.const('g.asc')})
    what = 'directory of 300 characters'
    if fine(ck, what, r, ok):
        for i, (t, g) in enumerate(ts):
            answer(ck, '%s, question %d' % (what, i + 1), r, i, t, g, V, 'glo', i == 0)


def bad(ck, what):
    x = p32.Text(p32.STYLES)
    order = TYPES if what != 'no block of the type' else ('atm', 'ocn', 'oba')
    L, V = text(D0, 2 if what == 'two blocks' else 6, order, x, 'a')
    k = [i for i, l in enumerate(L) if l.endswith('glo')]
    if what == 'unreadable block':
        L[k[1] + 2] = 'x' + L[k[1] + 2]
    if what == 'unreadable heading':
        L[k[1]] = L[k[1]].replace('SET', 'SIT')
    if what == 'unreadable later block':
        L[k[4] + 2] = 'x' + L[k[4] + 2]
    ts = [times(0, 6, D0, ('m', 1)), times(1, 6, D0, ('m', 4))]
    r, fl, ok = go('drv_glo', {'f.asc': '\n'.join(L) + '\n'}, x.names, {'how': 0}, ts, {'fn': strs.const('f.asc'), 'other': strs.const('g.asc')})
    if not fine(ck, what, r, ok):
        return
    st = [r.result(('arg', 'st'), 4 * i, 'i32') for i in range(3)]
    if what == 'two blocks' and st[0].is_zero():
        return answer(ck, what + ', first question', r, 0, ts[0][0], ts[0][1], V, 'glo', False)
    i = 2 if what == 'unreadable later block' else 0
    ck.ok(what + ': refused', not st[i].is_zero() if st[i].is_const() else None, HPP, 'status %s' % st[i])
