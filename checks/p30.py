"""P30: reading EOP (IERS C04) and free core nutation series."""
from fractions import Fraction
from functools import lru_cache
from engine import build
from engine.alg import R, A
from engine.fold import Fold, Dead
from . import strs, files
from .eopops import STUB, same
from .p28 import Text, STYLES

E = 'src/lib/eop/'
C14, C20, CH, C04 = E + 'parse_iers_c0414.cpp', E + 'parse_iers_c0420.cpp', E + 'choose_eop_c04_series.cpp', E + 'parse_iers_c04.cpp'
LAM = 'src/lib/free_core_nutation/parse_lambert_coeffs.cpp'
IO = ['-I' + build.VERIF + '/stubs/io'] + STUB
TTDAT = Fraction(32184, 1000)


def run(ck):
    ck.rule('records', 'the series holds exactly the records of the file whose TT epoch lies in [start, end), in file order, every quantity from its own column and nothing of what it held before')
    ck.rule('time scale', 'epochs of C04 records, which are UTC, are converted to TT; TAI-UTC is that of the UTC day')
    ck.rule('coefficients', 'the nutation coefficients are exactly those of the file whose epoch lies in [from, to)')
    ck.rule('refusal', 'missing files, unknown headers, empty intervals and lines of the interval that cannot be read give an error status')
    ck.rule('extent', 'no access outside the buffers')
    mod()
    ck.par(one, list(c04()) + list(lam()))
    for d in ('drv_c04', 'drv_lambert'):
        ck.analysed(d)
    ck.assumptions += ['file streams and std::from_chars behave as documented (models in checks/files.py)', 'UTC-TT conversion and TAI-UTC are those of the datetime library', 'exact real arithmetic; C04/20 epochs at multiples of 1/4 day']


@lru_cache(None)
def mod():
    return build.linked('series.cpp', [s for s in build.sources('eop/*.cpp', 'free_core_nutation/*.cpp') if not s.endswith('zonal_tides_iers.cpp')], flags=IO)


H20 = ['# EARTH ORIENTATION PARAMETER (EOP) PRODUCT CENTER CENTER (PARIS OBSERVATORY) - INTERNATIONAL EARTH ROTATION AND REFERENCE SYSTEMS SERVICE',
       '# EOP (IERS) 20 C04 TIME SERIES  consistent with ITRF 2020 - sampled at 0h UTC', '# Contact: someone', '# Reference Precession-Nutation Model: IAU 2000',
       '# format(4(i4),f10.2,2(f12.6),f12.7)', '# YR  MM  DD  HH       MJD        x(")        y(")  UT1-UTC(s)']
H14 = ['', 13 * ' ' + 'EARTH ORIENTATION PARAMETER (EOP) PRODUCT CENTER CENTER (PARIS OBSERVATORY)', 20 * ' ' + 'INTERNATIONAL EARTH ROTATION AND REFERENCE SYSTEMS SERVICE',
       30 * ' ' + 'EOP (IERS) 14 C04 TIME SERIES', '', '       FORMAT(3(I4),I7,2(F11.6),2(F12.7))', '  Date      MJD      x          y        UT1-UTC       LOD', '']
H14 = H14[1:]
Q = {20: ('xp', 'yp', 'dut', 'dX', 'dY', 'xp_rate', 'yp_rate', 'lod'), 14: ('xp', 'yp', 'dut', 'lod', 'dX', 'dY')}
OUT = ('xp', 'yp', 'dut', 'lod', 'dX', 'dY', 'dat', 'xp_rate', 'yp_rate')


def leap(day):
    """TAI-UTC of the model datetime library: one leap second inside the files"""
    return 10 if day < 37668 else 11


def tt(day, sec=0):
    return day, Fraction(sec) + TTDAT + leap(day)


class C04File:
    def __init__(self, kind, days, hours=(0,), gap=1, err=True):
        self.x, self.kind = Text(STYLES), kind
        self.head = list(H20 if kind == 20 else H14)
        self.lines, self.recs = [], []
        for n, d in enumerate(days):
            for h in hours if kind == 20 else (0,):
                v = {}
                c = []
                for q in Q[kind]:
                    v[q] = A('arg', '%s(%d.%d)' % (q, d, h))
                    c.append(self.x.num('%s(%d.%d)' % (q, d, h)))
                if err:
                    c += ['0.030000', '0.0020000', '0.004774'] * 2
                s = ' ' * (gap + n % 3)
                date = '%4d%4d%4d' % (1962, 1, n + 1)
                if kind == 20:
                    date += '%4d%10.2f' % (h, d + h / 24.0)
                else:
                    date += '%7d' % d
                self.lines.append(date + s + s.join(c))
                self.recs.append((d, h * 3600, v))

    def text(self, end=True):
        return '\n'.join(self.head + self.lines) + ('\n' if end else '')


def day_of(f, I, v):
    d, s = int(v[0].cval()), v[1].cval()
    d2, s2 = tt(d, s)
    return R(d2 + int(s2 // 86400))


def sec_of(f, I, v):
    d2, s2 = tt(int(v[0].cval()), v[1].cval())
    return R(s2 % 86400)


def epoch(t):
    return {0: (R(t[0]), 4), 8: (R(t[1]), 8)}


def whole(f, I, v):
    if not v[0].is_const():
        f.faults.append('a quantity of the record is taken for its date')
        raise Dead()
    return files.modf(f, I, v)


def fold_c04(text, names, a, b, have, q):
    fl = files.Files({'eop.txt': text} if text is not None else {'other': ''}, names)
    h = dict(fl.h)
    h['vfn_tt_day'], h['vfn_tt_sec'] = day_of, sec_of
    h['modf'] = whole
    h['vfn_dat'] = lambda f, I, v: R(leap(int(v[0].cval())))
    f = Fold(mod(), mod().fns['drv_c04'], h)
    try:
        f.run({'have': R(have)}, {('arg', 'fn'): strs.const('eop.txt'), ('arg', 'a'): epoch(a), ('arg', 'b'): epoch(b), ('arg', 'q'): epoch(q)})
    except Dead:
        f.mem = {('arg', 'k'): {0: (R(-99), 4), 4: (R(0), 4)}}
    return f, fl


def key(t):
    return t[0] * 86400 + t[1]


def shift(t, s):
    x = key(t) + Fraction(s)
    return int(x // 86400), x % 86400


DAYS = range(37665, 37671)


def c04():
    ms = Fraction(1, 1000)
    for kind in (20, 14):
        for i, d in enumerate(DAYS):
            for e in DAYS[i:]:
                a, b = tt(d), tt(e)
                yield ('c04', 'C04/%d, from a record up to a record (%d, %d)' % (kind, i, e - DAYS[0]), kind, {}, shift(a, 0), shift(b, 0 if e > d else ms), 0)
                if e > d:
                    yield ('c04', 'C04/%d, just after a record up to just after a record (%d, %d)' % (kind, i, e - DAYS[0]), kind, {}, shift(a, ms), shift(b, ms), 3)
                    yield ('c04', 'C04/%d, UTC midnights (%d, %d)' % (kind, i, e - DAYS[0]), kind, {}, (d, Fraction(0)), (e, Fraction(0)), 5)
        for have in (0, 1, 7):
            yield ('c04', 'C04/%d, everything, series held %d records' % (kind, have), kind, {}, (37000, Fraction(0)), (38000, Fraction(0)), have)
        yield ('c04', 'C04/%d, six weeks' % kind, kind, {'days': range(37665, 37709)}, (37000, Fraction(0)), (38000, Fraction(0)), 0)
        yield ('c04', 'C04/%d, before the file' % kind, kind, {}, (37000, Fraction(0)), (37100, Fraction(0)), 4)
        yield ('c04', 'C04/%d, after the file' % kind, kind, {}, (38000, Fraction(0)), (38100, Fraction(0)), 4)
        yield ('c04', 'C04/%d, no error columns' % kind, kind, {'err': False}, (37000, Fraction(0)), (38000, Fraction(0)), 0)
        yield ('c04', 'C04/%d, wide columns' % kind, kind, {'gap': 5}, (37000, Fraction(0)), (38000, Fraction(0)), 0)
        for what in range(len(Q[kind])):
            yield ('badc04', 'C04/%d, %s unreadable' % (kind, Q[kind][what]), kind, ('col', what))
        for what in ('short', 'date', 'blankdate', 'mjd', 'none', 'long', 'empty', 'interval', 'point', 'h1', 'h2', 'cut'):
            yield ('badc04', 'C04/%d, %s' % (kind, what), kind, (what, 0))
        for n in range(1, 13):
            yield ('badc04', 'C04/%d, last line of %d characters' % (kind, n), kind, ('tail', n))
    yield ('badc04', 'C04/14, h3', 14, ('h3', 0))
    yield ('badc04', 'C04/20, hours unreadable', 20, ('hours', 0))
    for a in ((37665, Fraction(0)), shift(tt(37666), 21600), shift(tt(37667), 21601)):
        yield ('c04', 'C04/20, four records a day from %s' % float(key(a) / 86400), 20, {'hours': (0, 6, 12, 18)}, a, shift(tt(37669), 43200), 2)


def one(ck, it):
    {'c04': good, 'badc04': badc04, 'lam': lambert, 'badlam': badlam}[it[0]](ck, *it)


def status(ck, what, r, fl, mark, loc):
    ck.ok(what + ': no access outside the buffers', not r.faults, loc, '; '.join(r.faults[:3]))
    st = r.result(('arg', 'k'), 0, 'i32')
    ok = st.is_const() and int(st.cval()) != -99 and mark in fl.marks
    ck.ok(what + ': returns', ok if st.is_const() else None, loc)
    return st


def good(ck, kind, what, c, kw, a, b, have):
    loc = C20 if c == 20 else C14
    fi = C04File(c, **{'days': DAYS, **kw})
    want = [(d, s, v) for d, s, v in fi.recs if key(a) <= key(tt(d, s)) < key(b)]
    q = shift(tt(*want[0][:2]), 5000) if want else (37665, Fraction(0))
    r, fl = fold_c04(fi.text(have % 2 == 0), fi.x.names, a, b, have, q)
    st = status(ck, what, r, fl, 1, loc)
    same(ck, what + ': status', st, R(0), loc)
    if not (st.is_const() and st.is_zero()):
        return
    n = r.result(('arg', 'k'), 4, 'i32')
    same(ck, what + ': number of records', n, R(len(want)), loc)
    if not (n.is_const() and int(n.cval()) == len(want)):
        return
    for k, (d, s, v) in enumerate(want):
        t = shift(tt(d, s), 0)
        same(ck, '%s: day of record %d' % (what, k), r.result(('arg', 'od'), 4 * k, 'i32'), R(t[0]), loc)
        same(ck, '%s: seconds of record %d' % (what, k), r.result(('arg', 'o'), 8 * (10 * k + 9)), R(t[1]), loc)
        for j, nm in enumerate(OUT):
            same(ck, '%s: %s of record %d' % (what, nm, k), r.result(('arg', 'o'), 8 * (10 * k + j)), R(leap(d)) if nm == 'dat' else R(v.get(nm, 0)), loc)
    if len(want) > 1:
        same(ck, what + ': look-up right after reading, status', r.result(('arg', 'k'), 8, 'i32'), r.result(('arg', 'k'), 12, 'i32'), C04)
        same(ck, what + ': look-up right after reading', r.result(('arg', 'o'), 8 * 498), r.result(('arg', 'o'), 8 * 499), C04)


def badc04(ck, kind, what, c, how):
    loc = C20 if c == 20 else C14
    fi = C04File(c, DAYS)
    a, b, text, k = (37000, Fraction(0)), (38000, Fraction(0)), 1, 3
    h, n = how
    f = fi.lines[k].split()
    nd = 5 if c == 20 else 4
    refused = True
    if h == 'col':
        f[nd + n] = 'x' + f[nd + n]
        fi.lines[k] = '%s%4s%4s ' % tuple(f[:3]) + ' '.join(f[3:])
    elif h == 'mjd' or h == 'hours':
        j = nd - 1 if h == 'mjd' else 3
        f[j] = 'x' + f[j]
        fi.lines[k] = '%s%4s%4s ' % tuple(f[:3]) + ' '.join(f[3:])
    elif h == 'short':
        fi.lines[k] = '1962'
    elif h == 'tail':
        fi.lines.append('1962   1  31   0  37800.00'[:n])
    elif h == 'cut':
        fi.lines[k] = fi.lines[k][:60]
    elif h == 'date':
        fi.lines[k] = 'abcd   1   4' + ' zz' * 8
    elif h == 'blankdate':
        fi.lines[k] = '1962   1   4'
    elif h == 'long':
        fi.lines[k] += ' ' * 300
    elif h in ('h1', 'h2', 'h3'):
        i = int(h[1]) - 1
        fi.head[i] = fi.head[i].replace('E', 'e')
    elif h == 'interval':
        a, b = b, a
    elif h == 'point':
        b = a
    text = None if h == 'none' else '' if h == 'empty' else fi.text()
    r, fl = fold_c04(text, fi.x.names, a, b, 3, (37665, Fraction(0)))
    st = status(ck, what, r, fl, 1, loc)
    ck.ok(what + ': refused', (not st.is_zero()) if st.is_const() else None, loc)


# ---- free core nutation
EPOCHS = ('45708.0', '45890.6', '46073.2', '46255.9', '46438.5')


class LamFile:
    def __init__(self, gap=3, many=0, first='% Year  mjd     real     imag    sigma  (all in microas)'):
        self.x = Text(STYLES)
        self.first = first
        self.lines, self.recs = [], []
        for k, e in enumerate(EPOCHS + tuple('%.1f' % (46621.1 + 182.6 * i) for i in range(many))):
            v = [A('arg', '%s(%d)' % (q, k)) for q in ('real', 'imag', 'sigma')]
            c = ['%.1f' % (1984 + k / 2), e] + [self.x.num('%s(%d)' % (q, k)) for q in ('real', 'imag', 'sigma')]
            self.lines.append(' ' * (k % 2) + (' ' * (gap + k % 3)).join(c))
            self.recs.append((Fraction(e), v))

    def text(self, end=True):
        return '\n'.join([self.first] + self.lines) + ('\n' if end else '')


def lam():
    day = lambda x: (int(Fraction(x) // 1), (Fraction(x) % 1) * 86400)
    ms = Fraction(1, 1000)
    for i, a in enumerate(EPOCHS):
        for b in EPOCHS[i:]:
            yield ('lam', 'from %s to %s' % (a, b), {}, day(a), day(b), 0, 0)
            yield ('lam', 'from after %s to after %s' % (a, b), {}, shift(day(a), ms), shift(day(b), ms), 2, 0)
    for have in (0, 5):
        yield ('lam', 'everything, %d held' % have, {}, (30000, Fraction(0)), (60000, Fraction(0)), have, 0)
        yield ('lam', 'no interval given, %d held' % have, {}, (0, Fraction(0)), (0, Fraction(0)), have, 1)
    yield ('lam', 'before the file', {}, (30000, Fraction(0)), (30001, Fraction(0)), 2, 0)
    yield ('lam', 'after the file', {}, (50000, Fraction(0)), (50001, Fraction(0)), 2, 0)
    yield ('lam', 'half a century', {'many': 90}, (30000, Fraction(0)), (70000, Fraction(0)), 0, 0)
    yield ('lam', 'narrow columns', {'gap': 1}, (30000, Fraction(0)), (60000, Fraction(0)), 0, 0)
    yield ('lam', 'blank before the title', {'first': '  % year mjd'}, (30000, Fraction(0)), (60000, Fraction(0)), 0, 0)
    for c in range(5):
        for k in (0, 2, 4):
            yield ('badlam', 'column %d of line %d unreadable' % (c + 1, k), ('col', c, k))
            yield ('badlam', 'line %d of %d columns' % (k, c), ('cut', c, k))
    for h in ('none', 'empty', 'title', 'interval', 'long'):
        yield ('badlam', h, (h, 0, 0))


def fold_lam(text, names, a, b, have, al):
    fl = files.Files({'fcn.txt': text} if text is not None else {'other': ''}, names)
    f = Fold(mod(), mod().fns['drv_lambert'], dict(fl.h))
    try:
        f.run({'have': R(have), 'all': R(al)}, {('arg', 'fn'): strs.const('fcn.txt'), ('arg', 'a'): epoch(a), ('arg', 'b'): epoch(b)})
    except Dead:
        f.mem = {('arg', 'k'): {0: (R(-99), 4), 4: (R(0), 4)}}
    return f, fl


def lambert(ck, kind, what, kw, a, b, have, al):
    fi = LamFile(**kw)
    r, fl = fold_lam(fi.text(have % 2 == 0), fi.x.names, a, b, have, al)
    want = [(e, v) for e, v in fi.recs if al or key(a) <= e * 86400 < key(b)]
    what = 'FCN, ' + what
    st = status(ck, what, r, fl, 2, LAM)
    same(ck, what + ': status', st, R(0), LAM)
    if not (st.is_const() and st.is_zero()):
        return
    n = r.result(('arg', 'k'), 4, 'i32')
    same(ck, what + ': number of coefficients', n, R(len(want)), LAM)
    if not (n.is_const() and int(n.cval()) == len(want)):
        return
    for k, (e, v) in enumerate(want):
        same(ck, '%s: day %d' % (what, k), r.result(('arg', 'od'), 4 * k, 'i32'), R(int(e // 1)), LAM)
        same(ck, '%s: seconds of day %d' % (what, k), r.result(('arg', 'o'), 8 * 4 * k), R((e % 1) * 86400), LAM)
        for j in range(3):
            same(ck, '%s: %s of line %d' % (what, ('real', 'imaginary', 'sigma')[j], k), r.result(('arg', 'o'), 8 * (4 * k + j + 1)), v[j], LAM)


def badlam(ck, kind, what, how):
    fi = LamFile()
    a, b = (30000, Fraction(0)), (60000, Fraction(0))
    h, c, k = how
    f = fi.lines[k].split()
    if h == 'col':
        f[c] = 'x' + f[c]
        fi.lines[k] = '  '.join(f)
    elif h == 'cut':
        fi.lines[k] = '  '.join(f[:c])
    elif h == 'title':
        fi.first = 'year mjd real'
    elif h == 'interval':
        a, b = b, a
    elif h == 'long':
        fi.lines[1] += ' ' * 300
    text = None if h == 'none' else '' if h == 'empty' else fi.text()
    r, fl = fold_lam(text, fi.x.names, a, b, 2, 0)
    what = 'FCN, ' + what
    st = status(ck, what, r, fl, 2, LAM)
    ck.ok(what + ': refused', (not st.is_zero()) if st.is_const() else None, LAM)
