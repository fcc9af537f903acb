"""P28: reading gravity models (ICGEM format, versions 1.0 and 2.0)."""
import datetime
from fractions import Fraction
from functools import lru_cache
from engine import build
from engine.alg import R, A, _neg_lead
from engine.fold import fold, Fold, Dead
from engine.logic import ge, lt
from engine.vf import P
from . import strs, files
from .eopops import STUB, same

DIR = 'src/lib/icgem/'
HDR, V = DIR + 'icgemio_read_header.cpp', {1: DIR + 'icgemio_read_data_v1.cpp', 2: DIR + 'icgemio_read_data_v2.cpp'}
LINE = {1: DIR + 'resolve_igcem_data_line_v1.cpp', 2: DIR + 'resolve_igcem_data_line_v2.cpp'}
IO = ['-I' + build.VERIF + '/stubs/io'] + STUB + ['-DVFN_SPAN']
ERR = {'no': 0, 'calibrated': 2, 'formal': 2, 'calibrated_and_formal': 4}
STYLES = ('plain', 'e', 'E', 'neg', 'nege', 'bare')
FORTRAN = ('D', 'd', 'negD', 'plus', 'plusD', 'D+')
ORIGIN = datetime.date(2000, 1, 1).toordinal()
FN = {'fn': 'model.gfc'}


def run(ck):
    ck.rule('header', 'header items are those the file states, in any order; optional ones have their defaults; unreadable ones and headers without end are refused')
    ck.rule('coefficients', 'every coefficient to the asked degree and order is gfc + gfct + trnd (t-t0) + sum asin sin(2 pi (t-t0) / p) + acos cos(2 pi (t-t0) / p) of the entries valid at the epoch')
    ck.rule('columns', 'columns of formal / calibrated errors are skipped, for each of the four kinds of error columns')
    ck.rule('refusal', 'lines that do not follow the format, degrees or orders out of range and missing files give an error status')
    ck.rule('extent', 'no access outside the buffers')
    mod()
    ck.par(one, list(headers()) + list(data()) + list(bad()))
    for d in ('drv_header', 'drv_data', 'drv_all'):
        ck.analysed(d)
    ck.assumptions += ['file streams and std::from_chars behave as documented (models in checks/files.py)', 'calendar dates are converted by the datetime library', 'exact real arithmetic']


@lru_cache(None)
def mod():
    return build.linked('icgem.cpp', build.sources('icgem/*.cpp', 'stokes_coefficients.cpp'), flags=IO)


@lru_cache(None)
def enums():
    r = fold(mod(), 'drv_enum')
    v = [int(r.result(('arg', 'o'), 4 * i, 'i32').cval()) for i in range(7)]
    return dict(zip(('no', 'calibrated', 'formal', 'calibrated_and_formal', 1, 2, 'years'), v))


@lru_cache(None)
def turn():
    return fold(mod(), 'drv_turn').ret


def civil(f, I, v):
    y, m, d, h, mi, s, ns = [int(x.cval()) for x in v]
    try:
        day = datetime.date(y, m, d).toordinal() - ORIGIN
    except ValueError:
        raise Dead()
    return R((((day * 24 + h) * 60 + mi) * 60 + s) * 10 ** 9 + ns)


def instant(s):
    """yyyymmdd or yyyymmdd.hhmm"""
    day = datetime.date(int(s[:4]), int(s[4:6]), int(s[6:8])).toordinal() - ORIGIN
    return (day * 1440 + (int(s[9:11]) * 60 + int(s[11:13]) if len(s) > 8 else 0)) * 60 * 10 ** 9


def span(d):
    """a time difference in fractional years"""
    if d.is_zero():
        return R(0)
    return -A('fn', 'years', (-d,)) if _neg_lead(d) else A('fn', 'years', (d,))


def years(f, I, v):
    if not (v[2].is_const() and int(v[2].cval()) == enums()['years']):
        return A('fn', 'difference of another kind', tuple(v))
    return span(v[0] - v[1])


class Text:
    """numbers of the file: text for every input"""

    def __init__(self, styles):
        self.names, self.n, self.styles = {}, 0, styles

    def text(self, style=None):
        self.n += 1
        style = style or self.styles[self.n % len(self.styles)]
        m = '%d.%04d7' % (self.n % 9 + 1, self.n)
        return {'plain': m, 'e': m + 'e-05', 'E': m + 'E+02', 'neg': '-' + m, 'nege': '-' + m + 'e-11', 'bare': '.%04d7e-02' % self.n, 'D': m + 'D-09', 'd': m + 'd-03',
                'negD': '-' + m + 'D+01', 'plus': '+' + m, 'plusD': '+' + m + 'D-04', 'D+': m + 'D+00'}[style]

    def num(self, name, style=None):
        t = self.text(style)
        x = Fraction(t.replace('D', 'e').replace('d', 'e'))
        assert x not in self.names
        self.names[x] = A('arg', name)
        return t


# ---- header
ITEMS = [('product_type', 'gravity_field'), ('modelname', 'GOCO06s'), ('earth_gravity_constant', None), ('radius', None), ('max_degree', '4'), ('errors', 'formal'),
         ('norm', 'fully_normalized'), ('tide_system', 'zero_tide'), ('format', 'icgem2.0')]


def header(items, x, order=0, begin=True, indent=0, tail='', pre=(), end='end_of_head ' + '=' * 20):
    """text of a header"""
    o = list(items)
    o = o[order:] + o[:order]
    out = list(pre) + (['begin_of_head ' + '=' * 30] if begin else [])
    for i, (k, v) in enumerate(o):
        if v is None:
            v = x.num({'earth_gravity_constant': 'GM', 'radius': 'Re'}[k], ('E', 'plain', 'e')[i % 3])
        out.append(' ' * ((indent * (i + 1)) % 7) + k + ' ' * (1 + (indent * i) % 5) + v + tail)
    return '\n'.join(out + [end, ''])


def without(*ks):
    return [i for i in ITEMS if i[0] not in ks]


def with_(**kv):
    return [(k, kv.get(k, v)) for k, v in ITEMS]


NAMES = ('GOCO06s', 'EIGEN-GRGS.RL04.MEAN-FIELD', 'a' * 63)


def headers():
    for o in range(len(ITEMS)):
        yield ('header', 'order of lines %d' % o, ITEMS, dict(order=o, indent=o % 4, begin=o % 2 == 0))
    for e in ERR:
        yield ('header', 'errors %s' % e, with_(errors=e), dict(order=2, tail='  '))
    for f in ('icgem1.0', 'icgem2.0'):
        yield ('header', 'format %s' % f, with_(format=f), {})
    for n in ('fully_normalized', 'unnormalized'):
        yield ('header', 'norm %s' % n, with_(norm=n), dict(tail='   '))
    for t in ('zero_tide', 'tide_free', 'mean_tide', 'unknown'):
        yield ('header', 'tide system %s' % t, with_(tide_system=t), dict(order=3))
    for n in NAMES:
        yield ('header', 'model name of %d characters' % len(n), with_(modelname=n), dict(tail=' '))
    for k in ('norm', 'tide_system', 'format', 'errors', 'modelname', 'product_type'):
        yield ('header', 'without %s' % k, without(k), {})
    for d in ('0', '2', '360', '2190'):
        yield ('header', 'max degree %s' % d, with_(max_degree=d), {})
    for p in (('This is a model of the field', '', 'author somebody', 'earth_gravity_constants are in SI units', 'radius_of_convergence 12', 'normalization 4 pi', 'format_note none',
               'max_degree_of_gravity 7', 'errors_are formal', 'modelname_long X', 'tide_systems none', 'product_types all'),):
        yield ('header', 'other lines', ITEMS, dict(pre=p))
        yield ('header', 'other lines, no begin_of_head', ITEMS, dict(pre=p, begin=False))


def want_header(items):
    d = dict(items)
    e = enums()
    return dict(max_degree=int(d['max_degree']), errors=e[d.get('errors', 'no')], version=e[2 if d.get('format') == 'icgem2.0' else 1],
                norm=int(d.get('norm', 'fully_normalized') == 'fully_normalized'), product_type=d.get('product_type', ''), modelname=d.get('modelname', ''), tide_system=d.get('tide_system', 'unknown'))


# ---- data
def entry(x, key, n, m, err, v, *rest, sep=' ', width=0):
    """a data line; the names of its C and S"""
    i = x.n
    cs = ['%s %d %d #%d' % (q, n, m, i) for q in 'CS']
    e = [x.text('plain') for _ in range(ERR[err])] if key != 'dot' or rest else []
    cols = ['%*d' % (width, n), '%*d' % (width, m), x.num(cs[0]), x.num(cs[1])] + e + list(rest)
    return key.ljust(4) + sep + (sep + ' ' * (x.n % 3)).join(cols), cs


EPOCH = ('20050101', '20100315')
PER = ('1.0', '0.5')
IV = (('20050101.0000', '20080215.1230'), ('20080215.1230', '20120630.0600'))


def model1(x, err, alias, nmax, mmax, swap=False):
    """lines of a version 1.0 file and the terms they hold: (n, m, kind, C, S, t0, period)"""
    L, T = [], []

    def add(key, n, m, *rest, t0=None, p=None):
        l, cs = entry(x, key, n, m, err, 1, *rest, width=5 if swap else 0)
        L.append(l)
        T.append((n, m, {'dot': 'trnd'}.get(key, key), A('arg', cs[0]), A('arg', cs[1]), t0, p))
    for n in range(nmax + 1):
        for m in range(min(n, mmax) + 1):
            if (n, m) in ((2, 0), (2, 1), (3, 3)) or n == 3 and mmax < 3 and m == 1:
                t0 = EPOCH[(n + m) % 2]
                add('gfct', n, m, t0, t0=t0)
                add('dot' if alias else 'trnd', n, m, t0=t0)
                for k in (('asin', 'acos') if not swap else ('acos', 'asin')):
                    for per in PER[:2 if n == 2 else 1]:
                        p = x.num('period %s %d %d %d' % (k, n, m, x.n), 'plain')
                        add(k, n, m, p, t0=t0, p=x.names[Fraction(p)])
            else:
                add('gfc', n, m)
    return L, T


def model2(x, err, nmax, mmax, gap=False):
    """version 2.0: every term has its interval [t0, t1)"""
    L, T = [], []

    def add(key, n, m, iv=None, p=None):
        rest = list(iv or ()) + ([p] if p else [])
        l, cs = entry(x, key, n, m, err, 2, *rest)
        L.append(l)
        T.append((n, m, key, A('arg', cs[0]), A('arg', cs[1]), iv, x.names[Fraction(p)] if p else None))
    for n in range(nmax + 1):
        for m in range(min(n, mmax) + 1):
            if (n, m) in ((2, 0), (2, 1), (3, 3)):
                if (n, m) == (2, 1):
                    add('gfc', n, m)
                for iv in IV[:1 if gap and m else 2]:
                    add('gfct', n, m, iv)
                    add('trnd', n, m, iv)
                    for k in ('acos', 'asin'):
                        for _ in range(2 if n == 2 else 1):
                            add(k, n, m, iv, x.num('period %s %d %d %d' % (k, n, m, x.n), 'plain'))
            else:
                add('gfc', n, m)
    return L, T


def data():
    sizes = [(-1, -1, 4, 4), (3, 3, 1, 0), (3, 1, 5, 5), (2, 2, 2, 2), (4, -1, 2, 1), (0, 0, 3, 3), (2, 0, 0, 0)]
    for err in ERR:
        for i, s in enumerate(sizes if err == 'formal' else sizes[:2]):
            yield ('v1', 'errors %s, degree %d, order %d' % (err, s[0], s[1]), err, s, dict(alias=i % 2 == 1, swap=i % 3 == 2, fortran=i % 2 == 0, nmax=4, mmax=4))
    yield ('v1', 'file of lower order than degree', 'no', (-1, -1, 1, 1), dict(alias=False, swap=False, fortran=True, nmax=4, mmax=2))
    yield ('v1', 'file of lower degree than stated', 'calibrated', (4, 3, 1, 1), dict(alias=True, swap=False, fortran=False, nmax=3, mmax=3))
    yield ('v1', 'all, default degree and order', 'calibrated_and_formal', None, dict(alias=True, swap=True, fortran=True, nmax=4, mmax=4))
    for ep in range(5):
        for err in ERR:
            yield ('v2', 'errors %s, epoch %d' % (err, ep), err, (-1, -1, 4, 4), dict(ep=ep, nmax=4, mmax=4, gap=True))
        yield ('v2', 'degree 3, order 1, epoch %d' % ep, 'formal', (3, 1, 5, 5), dict(ep=ep, nmax=4, mmax=4, gap=False))
        yield ('v2', 'all, default degree and order, epoch %d' % ep, 'formal', None, dict(ep=ep, nmax=4, mmax=4, gap=False))
    yield ('v2', 'file of lower order than degree', 'no', (-1, -1, 1, 1), dict(ep=1, nmax=4, mmax=2, gap=False))
    yield ('v2', 'file of lower degree than stated', 'formal', (4, 4, 5, 5), dict(ep=2, nmax=3, mmax=3, gap=False))
    for i, s in enumerate(sizes):
        yield ('v2', 'degree %d, order %d' % s[:2], 'calibrated', s, dict(ep=2, nmax=4, mmax=4, gap=False))


def value(T, n, m, q, t, v):
    """the formula"""
    from engine.fold import trig
    s = R(0)
    for (a, b, k, C, S, t0, p) in T:
        if (a, b) != (n, m):
            continue
        c = C if q == 'C' else S
        if v == 2 and t0:
            if not (instant(t0[0]) <= t[1] < instant(t0[1])):
                continue
            t0 = t0[0]
        dt = span(t[0] - instant(t0)) if t0 else None
        s = s + (c if k in ('gfc', 'gfct') else c * dt if k == 'trnd' else c * trig('sin' if k == 'asin' else 'cos', turn() / p * dt))
    return s


def epochs():
    """all epochs, by the intervals of the file: (assumptions, an instant of the range)"""
    t = A('arg', 't')
    b = sorted({instant(x) for iv in IV for x in iv})
    lim = 9 * 10 ** 18
    out = [([ge(t, -lim + 1), lt(t, b[0])], b[0] - 10 ** 15)]
    for lo, hi in zip(b, b[1:]):
        out.append(([ge(t, lo), lt(t, hi)], (lo + hi) // 2))
    out.append(([ge(t, b[-1]), lt(t, lim)], b[-1] + 10 ** 15))
    # the very beginning of an interval
    return out + [(None, b[1])]


def stream(fl, drv, args, t=None, assume=()):
    h = dict(fl.h)
    h['vfn_civil'] = civil
    h['vfn_span'] = years
    a = {k: R(v) for k, v in args.items()}
    if t is not None:
        a['t'] = t
    f = Fold(mod(), mod().fns[drv], h, assume=assume)
    try:
        f.run(a, {('arg', 'fn'): strs.const(FN['fn'])})
    except Dead:        # left by an exception
        f.mem = {('arg', 'k'): {0: (R(-1), 4)}}
    return f


def done(ck, what, r, fl, loc):
    """buffers respected; returns normally"""
    ck.ok(what + ': no access outside the buffers', not r.faults, loc, '; '.join(r.faults[:3]))


def one(ck, it):
    kind, what = it[:2]
    if kind == 'header':
        return one_header(ck, *it[1:])
    if kind == 'bad':
        return one_bad(ck, *it[1:])
    v = int(kind[1])
    what = 'version %d.0, %s' % (v, what)
    err, s, o = it[2:]
    x = Text(STYLES + FORTRAN if v == 1 and o['fortran'] else STYLES)
    head = header(with_(errors=err, format='icgem%d.0' % v, max_degree=str(4)), x, order=1)
    if v == 1:
        L, T = model1(x, err, o['alias'], o['nmax'], o['mmax'], o['swap'])
        t, assume = A('arg', 't'), ()
        tt = (t, None)
    else:
        L, T = model2(x, err, o['nmax'], o['mmax'], o['gap'])
        assume, at = epochs()[o['ep']]
        t = A('arg', 't') if assume else R(at)
        tt = (t, at)
        assume = assume or ()
    fl = files.Files({FN['fn']: head + '\n'.join(L) + ('\n' if len(L) % 2 else '')}, x.names)
    if s is None:
        r = stream(fl, 'drv_all', dict(c0=3, c1=2), t, assume)
        l = k = 4
    else:
        r = stream(fl, 'drv_data', dict(l=s[0], m=s[1], c0=s[2], c1=s[3]), t, assume)
        l = 4 if s[0] < 0 else s[0]
        k = l if s[1] < 0 else s[1]
    done(ck, what, r, fl, V[v])
    st = r.result(('arg', 'k'), 0, 'i32')
    same(ck, what + ': status', st, R(0), V[v])
    if not (st.is_const() and st.is_zero()) or 2 not in fl.marks:
        return
    use = [e for e in T if e[0] <= l and e[1] <= k and (v == 1 or not e[5] or instant(e[5][0]) <= tt[1] < instant(e[5][1]))]
    dn, dm = max(e[0] for e in use), max(e[1] for e in use)
    same(ck, what + ': maximum degree', r.result(('arg', 'k'), 4, 'i32'), R(dn), V[v])
    same(ck, what + ': maximum order', r.result(('arg', 'k'), 8, 'i32'), R(dm), V[v])
    same(ck, what + ': normalisation', r.result(('arg', 'k'), 12, 'i32'), R(1), V[v])
    same(ck, what + ': gravitational constant', r.result(('arg', 'o'), 0), A('arg', 'GM'), V[v])
    same(ck, what + ': reference radius', r.result(('arg', 'o'), 8), A('arg', 'Re'), V[v])
    p = 16
    for m in range(dm + 1):
        for n in range(m, dn + 1):
            for q in 'CS':
                same(ck, '%s: %s(%d,%d)' % (what, q, n, m), r.result(('arg', 'o'), p), value(T, n, m, q, tt, v), V[v])
                p += 8


def one_header(ck, what, items, how):
    what = 'header, ' + what
    x = Text(STYLES)
    fl = files.Files({FN['fn']: header(items, x, **how) + 'gfc 0 0 1.0 0.0\n'}, x.names)
    r = stream(fl, 'drv_header', {})
    done(ck, what, r, fl, HDR)
    ck.ok(what + ': accepted', fl.marks == [1] and not r.deads, HDR)
    if fl.marks != [1]:
        return
    w = want_header(items)
    same(ck, what + ': gravitational constant', r.result(('arg', 'o'), 0), A('arg', 'GM'), HDR)
    same(ck, what + ': radius', r.result(('arg', 'o'), 8), A('arg', 'Re'), HDR)
    for i, k in enumerate(('max_degree', 'errors', 'version', 'norm')):
        same(ck, '%s: %s' % (what, k.replace('_', ' ')), r.result(('arg', 'k'), 4 * i, 'i32'), R(w[k]), HDR)
    for i, k in enumerate(('product_type', 'modelname', 'tide_system')):
        t = strs.text(r, P(('arg', 's'), R(256 * i)))
        t = None if t is None else bytes(c & 255 for c in t).decode('latin1')
        ck.ok('%s: %s' % (what, k.replace('_', ' ')), None if t is None else t == w[k], HDR, 'found: %s | required: %s' % (t, w[k]))


# ---- what must be refused
def bad():
    for k in ('product_type', 'modelname', 'earth_gravity_constant', 'radius', 'max_degree', 'errors', 'norm', 'tide_system', 'format'):
        yield ('bad', 'header, %s without value' % k, 'header', with_(**{k: ''}), {}, None)
    for k in ('earth_gravity_constant', 'radius', 'max_degree'):
        yield ('bad', 'header, %s is no number' % k, 'header', with_(**{k: 'x12'}), {}, None)
    yield ('bad', 'header, format is unknown', 'header', with_(format='icgem3.0'), {}, None)
    yield ('bad', 'header without end', 'header', ITEMS, dict(end=''), None)
    yield ('bad', 'header with a line longer than the buffer', 'header', ITEMS, dict(pre=('x' * 300,)), None)
    for k, n in (('product_type', 70), ('modelname', 140), ('norm', 70), ('tide_system', 70)):
        yield ('bad', 'header, %s of %d characters' % (k, n), 'long', with_(**{k: 'y' * n}), dict(order=[i[0] for i in ITEMS].index(k) + 1), None)
    yield ('bad', 'missing file', 'header', None, {}, None)
    G1 = ['gfct 2 0 1.5 2.5 0.1 0.2 20050101', 'trnd 2 0 1.25 2.25 0.1 0.2', 'asin 2 0 1.125 2.125 0.1 0.2 1.0', 'acos 2 0 1.625 2.625 0.1 0.2 0.5']
    G2 = ['gfct 2 0 1.5 2.5 0.1 0.2 20050101.0000 20080215.1230', 'trnd 2 0 1.25 2.25 0.1 0.2 20050101.0000 20080215.1230', 'asin 2 0 1.125 2.125 0.1 0.2 20050101.0000 20080215.1230 1.0',
          'acos 2 0 1.625 2.625 0.1 0.2 20050101.0000 20080215.1230 0.5']
    for v, G in ((1, G1), (2, G2)):
        for key, good in [('gfc', 'gfc 2 0 1.5 2.5 0.1 0.2')] + [(g[:4], g) for g in G]:
            cols = good.split(' ')
            need = set(range(1, len(cols))) - {5, 6}
            if v == 1 and key == 'trnd':
                need -= {5, 6}
            for i in sorted(need):
                c = list(cols)
                c[i] = '*' if i < 5 or '.' not in c[i] or len(c[i]) < 9 else 'x' + c[i]
                pre = [G[0]] if key not in ('gfc', 'gfct') else []
                yield ('bad', 'version %d.0, %s, column %d unreadable' % (v, key, i + 1), 'data', v, pre + [' '.join(c), 'gfc 3 0 1.5 1.5 0.1 0.2'], None)
            pre = [G[0]] if key not in ('gfc', 'gfct') else []
            for i in (2, 3, 4):
                yield ('bad', 'version %d.0, %s, line ends after column %d' % (v, key, i), 'data', v, pre + [' '.join(cols[:i])], None)
            yield ('bad', 'version %d.0, %s, order above degree' % (v, key), 'data', v, pre + [' '.join([cols[0], '2', '3'] + cols[3:])], None)
            yield ('bad', 'version %d.0, %s, negative degree' % (v, key), 'data', v, pre + [' '.join([cols[0], '-1', '0'] + cols[3:])], None)
            yield ('bad', 'version %d.0, %s, negative order' % (v, key), 'data', v, pre + [' '.join([cols[0], '2', '-1'] + cols[3:])], None)
        for k in ('gfz ', 'xgfc', 'GFC '):
            yield ('bad', 'version %d.0, unknown keyword %s' % (v, k.strip()), 'data', v, ['gfc 2 0 1.5 1.5 0.1 0.2', k + ' 2 0 1.5 1.5 0.1 0.2'], None)
        yield ('bad', 'version %d.0, line longer than the buffer' % v, 'data', v, ['gfc 2 0 1.5 1.5 0.1 0.2', 'gfc 3 0 1.5 1.5 ' + '1' * 300], None)
        yield ('bad', 'version %d.0, degree above that of the file' % v, 'data', v, ['gfc 2 0 1.5 1.5 0.1 0.2'], (5, 5))
        yield ('bad', 'version %d.0, order above degree' % v, 'data', v, ['gfc 2 0 1.5 1.5 0.1 0.2'], (3, 4))


def one_bad(ck, what, kind, a, b, lm):
    x = Text(STYLES)
    loc = HDR
    if kind in ('header', 'long'):
        fl = files.Files({FN['fn']: header(a, x, **b) + 'gfc 0 0 1.0 0.0\n'} if a is not None else {'other': ''}, x.names)
        r = stream(fl, 'drv_header', {})
        refused = 1 not in fl.marks
    else:
        loc = LINE[a]
        fl = files.Files({FN['fn']: header(with_(format='icgem%d.0' % a), x) + '\n'.join(b) + '\n'}, x.names)
        l, m = lm or (4, 4)
        r = stream(fl, 'drv_data', dict(l=l, m=m, c0=4, c1=4, t=instant('20060101')))
        st = r.result(('arg', 'k'), 0, 'i32')
        refused = (not st.is_zero() if st.is_const() else None) if 1 in fl.marks else False
    done(ck, what, r, fl, loc)
    if kind == 'long' and not refused:
        # may be cut, must not run over what other lines gave
        w = want_header(a)
        for i, k in enumerate(('max_degree', 'errors', 'version')):
            same(ck, '%s: %s' % (what, k.replace('_', ' ')), r.result(('arg', 'k'), 4 * i, 'i32'), R(w[k]), HDR)
        same(ck, what + ': radius', r.result(('arg', 'o'), 8), A('arg', 'Re'), HDR)
        same(ck, what + ': gravitational constant', r.result(('arg', 'o'), 0), A('arg', 'GM'), HDR)
        for i, k in enumerate(('product_type', 'modelname', 'tide_system')):
            t = strs.text(r, P(('arg', 's'), R(256 * i)))
            t = None if t is None else bytes(c & 255 for c in t).decode('latin1')
            ck.ok('%s: %s' % (what, k.replace('_', ' ')), None if t is None else w[k].startswith(t), HDR, 'found: %s | required: %s' % (t, w[k]))
        return
    ck.ok(what + ': refused', refused, loc)
