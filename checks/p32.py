"""P32: AOD1B products: file names, headers, data blocks, tidal coefficients."""
from functools import lru_cache
from engine import build
from engine.alg import R, A, Rat
from engine.fold import Fold, Dead
from engine.vf import P, AnalysisError
from . import strs, files
from .eopops import STUB, same
from .p28 import Text

D = 'src/lib/aod1b/'
HEADER, COLLECT, BLOCK, NEXT, SKIP, WAVE, NAMES = [D + x for x in ('aod1b_read_header.cpp', 'aod1b_collect_coeffs.cpp', 'aod1b_parse_data_block_header.cpp', 'aod1b_goto_next_block.cpp', 'aod1b_skip_header.cpp', 'aod1b_get_tidal_wave.cpp', 'aod1bnontidalproductnaming.cpp')]
IO = ['-I' + build.VERIF + '/stubs/io'] + STUB
STYLES = ('plain', 'neg', 'E', 'e', 'nege')
DAY = 86400 * 10 ** 9
GPS2TT = 51184 * 10 ** 6
TYPES = ('atm', 'ocn', 'glo', 'oba')


def run(ck):
    ck.rule('header', 'every header field is the one of its line; epochs are those of the file brought to TT; copies, moved and assigned objects hold the same')
    ck.rule('blocks', 'the iterator visits exactly the blocks of its type in file order with number, size, epoch and type of their header lines, whether blocks are collected or skipped, and then tells the end')
    ck.rule('coefficients', 'collecting gives each coefficient up to the degree and order asked for from its own line, zero where there is none')
    ck.rule('tidal', 'cosine and sine coefficients of a tidal file are those of its first and second data set')
    ck.rule('names', 'product names are AOD1B_YYYY-MM-DD_S_RL.asc[.gz]; the release is read from names with or without path')
    ck.rule('refusal', 'files that do not follow the format and degrees that cannot be held give an error, nothing outside the buffers is accessed')
    mod()
    ck.par(one, list(cases()))
    for d in ('drv_header', 'drv_iter', 'drv_wave', 'drv_rl', 'drv_name'):
        ck.analysed(d)
    ck.assumptions += ['file streams and std::from_chars behave as documented (models in checks/files.py)', 'GPS to TT and calendar dates are those of the datetime library', 'exact real arithmetic']


@lru_cache(None)
def mod():
    return build.linked('aod1b.cpp', build.sources('aod1b/*.cpp', 'stokes_coefficients.cpp', 'tidal_constituent.cpp', 'doodson/*.cpp'), flags=IO)


def mjd(y, m, d):
    a = (14 - m) // 12
    yy, mm = y + 4800 - a, m + 12 * a - 3
    return d + (153 * mm + 2) // 5 + 365 * yy + yy // 4 - yy // 100 + yy // 400 - 32045 - 2400001


def stamp(t):
    """ns since MJD 0 of 'YYYY-MM-DD HH:MM:SS'"""
    y, m, d, h, mi, s = [int(t[a:b]) for a, b in ((0, 4), (5, 7), (8, 10), (11, 13), (14, 16), (17, 19))]
    return mjd(y, m, d) * DAY + (h * 3600 + mi * 60 + s) * 10 ** 9


def from_char(f, I, v):
    t = strs.text(f, v[0])
    if t is None:
        raise AnalysisError('a date in an unknown string')
    s = bytes(c & 255 for c in t[:19]).decode('latin1')
    if not (len(s) == 19 and s[4] == s[7] == '-' and s[10] in ' T' and s[13] == s[16] == ':' and (s[:4] + s[5:7] + s[8:10] + s[11:13] + s[14:16] + s[17:]).isdigit()):
        f.faults.append('a date is read from "%s"; the exception meets noexcept' % s)
        raise Dead()
    if v[1][1][0] != 'null':
        f.store(v[1], P(v[0][1], v[0][2] + 19), 8)
    return R(stamp(s))


def to_char(f, I, v):
    x = [int(a.cval()) for a in v[:3]]
    sep = chr(int(v[4].cval()))
    for i, c in enumerate('%04d%s%02d%s%02d\0' % (x[0], sep, x[1], sep, x[2])):
        f.store(P(v[3][1], v[3][2] + i), R(ord(c)), 1)
    return R(0)


def doy(f, I, v):
    if not all(isinstance(a, Rat) and a.is_const() for a in v):
        f.faults.append('date made of an uninitialised number')
        return R(0)
    return R((mjd(int(v[0].cval()), 1, 1) + int(v[1].cval()) - 1) * DAY)


def strrchr(f, I, v):
    t = strs.text(f, v[0])
    if t is None:
        raise AnalysisError('search in an unknown string')
    c = int(v[1].cval()) & 255
    k = [i for i, x in enumerate(t + [0]) if x & 255 == c]
    return P(v[0][1], v[0][2] + k[-1]) if k else P(('null',))


def go(name, texts, names, args, mem):
    fl = files.Files(texts, names)
    h = dict(fl.h)
    h['vfn_gps2tt'] = lambda f, I, v: v[0] + GPS2TT
    h['vfn_doy'] = doy
    h['vfn_from_char'] = from_char
    h['vfn_ymd'] = to_char
    h['strrchr'] = strrchr
    f = Fold(mod(), mod().fns[name], h)
    ret = None
    try:
        ret = f.run({k: R(v) for k, v in args.items()}, {('arg', k): v for k, v in mem.items()})
    except Dead:
        pass
    return f, fl, ret


def one(ck, it):
    {'head': head, 'badhead': badhead, 'iter': iterate, 'wave': wave, 'name': name, 'rl': release, 'badcollect': badcollect, 'badblock': badblock, 'longfield': longfield}[it[0]](ck, *it[1:])


# ---- headers
NONTIDAL = [('PRODUCER AGENCY', 'GFZ'), ('PRODUCER INSTITUTION', 'GFZ Potsdam'), ('FILE TYPE ipAOD1BF', '999'), ('FILE FORMAT 0=BINARY 1=ASCII', '1'), ('NUMBER OF HEADER RECORDS', '29'),
            ('SOFTWARE VERSION', 'atm_ocean_dealise.06'), ('SOFTWARE LINK TIME', 'Not Applicable'), ('REFERENCE DOCUMENTATION', 'GRACE De-aliasing ADD'), ('SATELLITE NAME', 'GRACE X'),
            ('SENSOR NAME', 'Not Applicable'), ('TIME EPOCH (GPS TIME)', '2000-01-01 12:00:00'), ('TIME FIRST OBS(SEC PAST EPOCH)', '268315200.000000 (2008-07-03 00:00:00)'),
            ('TIME LAST OBS(SEC PAST EPOCH)', '268390800.000000 (2008-07-03 21:00:00)'), ('NUMBER OF DATA RECORDS', '527072'), ('PRODUCT START CREATE TIME(UTC)', '2017-09-08 03:07:41.000'),
            ('PRODUCT END CREATE TIME(UTC)', '2017-09-08 03:10:41.000'), ('FILESIZE (BYTES)', '17392000'), ('FILENAME', 'AOD1B_2008-07-03_X_06.asc'), ('PROCESS LEVEL (1A OR 1B)', '1B'),
            ('PRESSURE TYPE (SP OR VI)', 'SP'), ('MAXIMUM DEGREE', '3'), ('COEFFICIENTS ERRORS (YES/NO)', 'NO'), ('COEFF. NORMALIZED (YES/NO)', 'YES'), ('CONSTANT GM [M^3/S^2]', None), ('CONSTANT A [M]', None),
            ('CONSTANT FLAT [-]', None), ('CONSTANT OMEGA [RAD/S]', None), ('NUMBER OF DATA SETS', '8'), ('DATA FORMAT (N,M,C,S)', '(2(I3,x),E15.9,X,E15.9)')]
TIDAL = [('PRODUCER AGENCY', 'GFZ'), ('PRODUCER INSTITUTION', 'GFZ Potsdam'), ('FILE TYPE ipAOD1BF', '999'), ('FILE FORMAT 0=BINARY 1=ASCII', '1'), ('NUMBER OF HEADER RECORDS', '28'),
         ('SOFTWARE VERSION', 'Not Applicable'), ('SOFTWARE LINK TIME', 'Not Applicable'), ('REFERENCE DOCUMENTATION', 'GRACE De-aliasing ADD'), ('SATELLITE NAME', 'Not Applicable'),
         ('SENSOR NAME', 'Not Applicable'), ('TIME FIRST OBS (YEAR START)', '2007'), ('TIME LAST OBS (YEAR END)', '2014'), ('NUMBER OF DATA RECORDS', '18'),
         ('PRODUCT START CREATE TIME(UTC)', '2017-09-08'), ('PRODUCT END CREATE TIME(UTC)', '2017-09-08'), ('FILESIZE (BYTES)', '10000'), ('FILENAME', 'AOD1B_TIDE_ATM_S1_06.asc'), ('PROCESS LEVEL (1A OR 1B)', '1B'),
         ('PRESSURE TYPE (ATM OR OCN)', 'ATM'), ('PARTIAL TIDE', 'S1'), ('MAXIMUM DEGREE', '3'), ('COEFFICIENTS ERRORS (YES/NO)', 'NO'), ('COEFF. NORMALIZED (YES/NO)', 'YES'),
         ('CONSTANT GM [M^3/S^2]', None), ('CONSTANT A [M]', None), ('CONSTANT FLAT [-]', None), ('CONSTANT OMEGA [RAD/S]', None), ('DATA FORMAT (N,M,C,S)', '(2(I3,x),E15.9,X,E15.9)')]
ATOMS = {'CONSTANT GM [M^3/S^2]': 'GM', 'CONSTANT A [M]': 'Re', 'CONSTANT FLAT [-]': 'flat', 'CONSTANT OMEGA [RAD/S]': 'omega'}
NUMBERS = ('FILE TYPE ipAOD1BF', 'FILE FORMAT 0=BINARY 1=ASCII', 'NUMBER OF HEADER RECORDS', 'NUMBER OF DATA RECORDS', 'MAXIMUM DEGREE', 'NUMBER OF DATA SETS', 'CONSTANT GM [M^3/S^2]', 'CONSTANT A [M]', 'CONSTANT FLAT [-]',
           'CONSTANT OMEGA [RAD/S]', 'TIME FIRST OBS(SEC PAST EPOCH)', 'TIME LAST OBS(SEC PAST EPOCH)', 'TIME FIRST OBS (YEAR START)', 'TIME LAST OBS (YEAR END)')
FIELDS = ('PRODUCER AGENCY', 'SATELLITE NAME', 'SENSOR NAME', 'PROCESS LEVEL (1A OR 1B)', 'PRESSURE TYPE (SP OR VI)', 'PARTIAL TIDE')


def header(items, x, change=(), style=0, end='END OF HEADER', prefix=''):
    ch = dict(change)
    L = []
    for k, v in items:
        if k in ATOMS:
            t = x.num(prefix + ATOMS[k])
            v = t if v is None else v
        v = ch.get(k, v)
        if v is None:
            continue
        if isinstance(v, tuple):
            L.append(v[0])
            continue
        L.append(('%-30s: %s' if style == 0 else '%s: %s' if style == 1 else '%-29s :   %s   ') % (k, v))
    return L + ([end] if end else [])


def head(ck, what, tidal, how, change, style):
    x = Text(STYLES)
    items = TIDAL if tidal else NONTIDAL
    text = '\n'.join(header(items, x, change, style)) + '\nDATA SET 01\n'
    oth = '\n'.join(header(NONTIDAL, x, {'PRODUCER AGENCY': 'OTHER AGENCY', 'FILE TYPE ipAOD1BF': '998', 'FILE FORMAT 0=BINARY 1=ASCII': '0', 'NUMBER OF HEADER RECORDS': '28', 'NUMBER OF DATA RECORDS': '4', 'MAXIMUM DEGREE': '55',
                                          'COEFFICIENTS ERRORS (YES/NO)': 'YES', 'COEFF. NORMALIZED (YES/NO)': 'NO', 'TIME EPOCH (GPS TIME)': '2001-01-01 12:00:00', 'TIME FIRST OBS(SEC PAST EPOCH)': '0 (2001-01-01 12:00:00)',
                                          'TIME LAST OBS(SEC PAST EPOCH)': '60.0 (2001-01-01 12:01:00)', 'SATELLITE NAME': 'ANOTHER ONE', 'SENSOR NAME': 'SENSOR', 'PROCESS LEVEL (1A OR 1B)': '1A', 'PRESSURE TYPE (SP OR VI)': 'VI',
                                          'NUMBER OF DATA SETS': '31'}, 0, prefix='other ')) + '\n'
    r, fl, ret = go('drv_header', {'f.asc': text, 'g.asc': oth}, x.names, {'how': how, 'wave': int(tidal)}, {'fn': strs.const('f.asc'), 'other': strs.const('g.asc')})
    if not fine(ck, what, r, fl, HEADER):
        return
    same(ck, what + ': status', ret, R(0), HEADER)
    v = dict(items)
    v.update(change)
    g = lambda k: r.result(('arg', 'k'), 8 * k, 'i64')
    loc = HEADER if how in (0, 5) else D + 'aod1b.cpp'
    for k, key in ((0, 'FILE TYPE ipAOD1BF'), (1, 'FILE FORMAT 0=BINARY 1=ASCII'), (2, 'NUMBER OF HEADER RECORDS'), (3, 'NUMBER OF DATA RECORDS'), (4, 'MAXIMUM DEGREE')) + (() if tidal else ((7, 'NUMBER OF DATA SETS'),)):
        same(ck, '%s: %s' % (what, key), g(k), R(int(v[key])), loc)
    same(ck, what + ': errors', g(5), R(int(v['COEFFICIENTS ERRORS (YES/NO)'] == 'YES')), loc)
    same(ck, what + ': normalised', g(6), R(int(v['COEFF. NORMALIZED (YES/NO)'] == 'YES')), loc)
    if tidal:
        t = [(9, mjd(int(v['TIME FIRST OBS (YEAR START)']), 1, 1) * DAY), (10, mjd(int(v['TIME LAST OBS (YEAR END)']), 1, 1) * DAY)]
    else:
        par = lambda s: stamp(s[s.index('(') + 1:]) + GPS2TT
        t = [(8, stamp(v['TIME EPOCH (GPS TIME)']) + GPS2TT), (9, par(v['TIME FIRST OBS(SEC PAST EPOCH)'])), (10, par(v['TIME LAST OBS(SEC PAST EPOCH)']))]
    for k, e in t:
        same(ck, '%s: %s' % (what, {8: 'reference epoch', 9: 'first epoch', 10: 'last epoch'}[k]), g(k), R(e), loc)
    for k, nm in enumerate(('GM', 'Re', 'flat', 'omega')):
        same(ck, '%s: %s' % (what, nm), r.result(('arg', 'o'), 8 * k), A('arg', nm), loc)
    for k, key in enumerate(FIELDS if tidal else FIELDS[:5]):
        key = key if key in v else 'PRESSURE TYPE (ATM OR OCN)'
        w = v[key].encode() + b'\0'
        got = [r.result(('arg', 's'), 24 * k + i, 'i8') for i in range(len(w))]
        ck.ok('%s: %s' % (what, key), all(y.is_const() and int(y.cval()) == c for y, c in zip(got, w)), loc, 'found %s' % [str(y) for y in got])


def fine(ck, what, r, fl, loc, marks=(1, 2)):
    ck.ok(what + ': no access outside the buffers', not r.faults, loc, '; '.join(r.faults[:3]))
    ok = all(m in fl.marks for m in marks)
    ck.ok(what + ': returns', ok, loc)
    return ok and not r.faults


def badhead(ck, what, tidal, change, end, drop):
    x = Text(STYLES)
    L = header(TIDAL if tidal else NONTIDAL, x, change, 0, end)
    if drop is not None:
        L = L[:drop]
    texts = {'g.asc': '\n'.join(L) + '\n'} if what == 'missing file' else {'f.asc': '\n'.join(L) + '\n'}
    r, fl, ret = go('drv_header', texts, x.names, {'how': 0, 'wave': 0}, {'fn': strs.const('f.asc'), 'other': strs.const('g.asc')})
    ck.ok(what + ': no access outside the buffers', not r.faults, HEADER, '; '.join(r.faults[:3]))
    ck.ok(what + ': refused', 1 not in fl.marks, HEADER, 'an object is made of a header that cannot be read')


# ---- data blocks
def tri(n):
    return [(i, j) for i in range(n + 1) for j in range(i + 1)]


def block(x, tag, terms):
    L, V = [], {}
    for k, (l, m) in enumerate(terms):
        V['C', l, m], V['S', l, m] = A('arg', 'C%s(%d,%d)' % (tag, l, m)), A('arg', 'S%s(%d,%d)' % (tag, l, m))
        sp = ('%3d %3d %s %s', '%4d %4d   %s   %s', ' %d  %d  %s %s  ')[k % 3]
        c, s = x.num('C%s(%d,%d)' % (tag, l, m)), x.num('S%s(%d,%d)' % (tag, l, m))
        if k % 4 == 3 and not c.startswith('-'):
            c = '+' + c
        L.append(sp % (l, m, c, s))
    return L, V


class File:
    def __init__(self, order, epochs, deg=3, terms=None, change=(), sets=None, hide=()):
        self.x = Text(STYLES)
        ch = dict(change)
        ch.setdefault('NUMBER OF DATA SETS', str(sets or len(order) * len(epochs)))
        ch.setdefault('MAXIMUM DEGREE', str(deg))
        self.lines = header(NONTIDAL, self.x, ch)
        self.blocks = []
        n = 0
        for e in epochs:
            for t in order:
                n += 1
                L, V = block(self.x, '%d' % n, terms or tri(deg))
                self.blocks.append((n, len(L), e, t, V, len(self.lines)))
                self.lines.append('DATA SET %02d: %6d COEFFICIENTS FOR %s OF TYPE %s' % (n, len(L), e, t))
                self.lines += L
        self.deg = deg

    def of(self, t):
        return [b for b in self.blocks if b[3] == t]


def hours(k):
    return ['2008-07-03 %02d:00:00' % (3 * i) for i in range(k)]


def cases():
    # headers
    for tidal in (False, True):
        nm = 'tidal' if tidal else 'non-tidal'
        for how, w in enumerate(('read', 'copied', 'moved', 'assigned', 'move-assigned', 'read again')):
            yield ('head', '%s header, %s' % (nm, w), tidal, how, (), how % 3)
        yield ('head', nm + ' header with other values', tidal, 0, (('COEFFICIENTS ERRORS (YES/NO)', 'YES'), ('COEFF. NORMALIZED (YES/NO)', 'NO'), ('MAXIMUM DEGREE', '180'), ('PRODUCER AGENCY', 'A B C')), 1)
        yield ('head', nm + ' header with fields of 19 and 3 characters', tidal, 1, (('PRODUCER AGENCY', 'Nineteen characters'), ('SATELLITE NAME', 'nineteen Characters'), ('SENSOR NAME', 'NINETEEN CHARACTERS'), ('PROCESS LEVEL (1A OR 1B)', '1BX')), 0)
        keys = [k for k, v in (TIDAL if tidal else NONTIDAL)]
        for k in keys:
            if k in NUMBERS:
                yield ('badhead', '%s unreadable' % k, tidal, ((k, 'x'),), 'END OF HEADER', None)
                yield ('badhead', '%s empty' % k, tidal, ((k, ''),), 'END OF HEADER', None)
                yield ('badhead', '%s without colon' % k, tidal, ((k, (k,)),), 'END OF HEADER', None)
        yield ('badhead', nm + ' header, unknown line', tidal, (('FILENAME', ('WHATEVER : 3',)),), 'END OF HEADER', None)
        yield ('badhead', nm + ' header without end', tidal, (), '', None)
        yield ('badhead', nm + ' header, line of 300 characters', tidal, (('FILENAME', 'x' * 300),), 'END OF HEADER', None)
        for n in (0, 1, 10):
            yield ('badhead', '%s header of %d lines' % (nm, n), tidal, (), 'END OF HEADER', n)
    yield ('badhead', 'unknown tide', True, (('PARTIAL TIDE', 'ZZ9'),), 'END OF HEADER', None)
    yield ('badhead', 'tide of 20 characters', True, (('PARTIAL TIDE', 'S1234567890123456789'),), 'END OF HEADER', None)
    yield ('badhead', 'missing file', False, (), 'END OF HEADER', None)
    yield ('badhead', 'first epoch contradicts its seconds', False, (('TIME FIRST OBS(SEC PAST EPOCH)', '268315200.000000 (2008-07-03 03:00:00)'),), 'END OF HEADER', None)
    yield ('badhead', 'last epoch contradicts its seconds', False, (('TIME LAST OBS(SEC PAST EPOCH)', '268390801.000000 (2008-07-03 21:00:00)'),), 'END OF HEADER', None)
    yield ('badhead', 'first epoch later than its seconds', False, (('TIME FIRST OBS(SEC PAST EPOCH)', '268315200.000000 (2008-07-02 23:59:59)'),), 'END OF HEADER', None)
    yield ('badhead', 'last epoch later than its seconds', False, (('TIME LAST OBS(SEC PAST EPOCH)', '268390800.000000 (2008-07-03 21:00:01)'),), 'END OF HEADER', None)
    for k in FIELDS[:5]:
        for n in (30, 60):
            yield ('longfield', '%s of %d characters' % (k, n), k, n)
    # iteration: b begin, c collect, s skip, a advance
    for t in TYPES:
        yield ('iter', 'all blocks of %s collected' % t, TYPES, 3, 3, t, 'bc' + 'ac' * 2 + 'a', (-1, -1, 0), (3, 3), {})
        yield ('iter', 'blocks of %s skipped' % t, TYPES, 3, 3, t, 'bs' + 'as' * 2 + 'a', (-1, -1, 0), (3, 3), {})
    yield ('iter', 'collected and skipped', TYPES, 4, 2, 'ocn', 'bsacasaca', (-1, -1, 0), (2, 2), {})
    yield ('iter', 'begin again', TYPES, 2, 2, 'glo', 'bcacabcac', (-1, -1, 0), (2, 2), {})
    yield ('iter', 'begin in the middle', TYPES, 3, 2, 'atm', 'bsabc', (-1, -1, 0), (2, 2), {})
    yield ('iter', 'other order of types', ('oba', 'glo', 'atm', 'ocn'), 2, 2, 'atm', 'bcaca', (-1, -1, 0), (2, 2), {})
    yield ('iter', 'two types', ('atm', 'ocn'), 3, 2, 'ocn', 'bcacaca', (-1, -1, 0), (2, 2), {})
    for dm, cm, rz in (((2, 2), (3, 3), 0), ((3, 1), (3, 3), 0), ((3, 1), (3, 1), 0), ((2, 1), (4, 3), 0), ((0, 0), (3, 3), 0), ((1, 0), (2, 1), 0), ((2, 2), (1, 1), 1), ((3, 2), (5, 5), 1), ((-1, -1), (0, 0), 1), ((1, 1), (3, 3), 1), ((3, -1), (3, 3), 0), ((-1, 2), (3, 2), 0)):
        yield ('iter', 'degree %d, order %d into %s%s' % (*dm, cm, ' resized' if rz else ''), TYPES, 2, 3, 'ocn', 'bcac', (*dm, rz), cm, {})
    yield ('iter', 'lines in another order', TYPES, 2, 3, 'glo', 'bcac', (2, 2, 0), (3, 3), {'terms': tuple(reversed(tri(3)))})
    yield ('iter', 'terms missing', TYPES, 2, 3, 'glo', 'bcac', (3, 3, 0), (3, 3), {'terms': ((0, 0), (2, 1), (3, 3))})
    yield ('iter', 'fewer terms than the header says, resized', TYPES, 2, 3, 'glo', 'bc', (3, 3, 1), (3, 3), {'terms': ((0, 0), (1, 0), (1, 1), (2, 1))})
    yield ('iter', 'file of degree 5', ('atm', 'oba'), 2, 5, 'oba', 'bsac', (4, 3, 0), (4, 4), {})
    # refusals of collect
    for dm, cm, rz in (((2, 3), (3, 3), 0), ((4, 4), (5, 5), 0), ((3, 3), (2, 2), 0), ((3, 3), (3, 2), 0), ((4, 4), (5, 5), 1), ((1, 2), (3, 3), 1)):
        yield ('badcollect', 'degree %d, order %d into %s%s' % (*dm, cm, ' resized' if rz else ''), (*dm, rz), cm, None)
    yield ('badcollect', 'fewer terms than asked for', (3, 3, 0), (3, 3), ('terms', ((0, 0), (1, 0), (1, 1), (2, 1))))
    yield ('badcollect', 'lower orders than asked for', (3, 3, 0), (3, 3), ('terms', ((0, 0), (1, 0), (1, 1), (2, 1), (3, 0), (3, 1))))
    for c in range(4):
        for n in (0, 4, 9):
            yield ('badcollect', 'column %d of line %d unreadable' % (c + 1, n), (3, 3, 0), (3, 3), ('col', c, n))
    for l in ('2 3 1.5 2.5', '-1 0 1.5 2.5', '2 -1 1.5 2.5', '3 -3 1.5 2.5', '1 2 1.5 2.5', '', '2', '2 1', '2 1 1.5'):
        for rz in (0, 1):
            yield ('badcollect', 'line "%s"%s' % (l, ' resized' if rz else ''), (3, 3, rz), (3, 3), ('line', l))
    yield ('badcollect', 'file ends inside the block', (3, 3, 0), (3, 3), ('cut', 4))
    yield ('badcollect', 'line of 300 characters', (3, 3, 0), (3, 3), ('line', '2 1 1.5 2.5' + ' ' * 290))
    # refusals of block headers
    for h in ('DATA SET 05:     10 COEFFICIENTS FOR 2008-07-03 03:00:00 OF TYPE abc', 'DATA SET xx:     10 COEFFICIENTS FOR 2008-07-03 03:00:00 OF TYPE atm', 'DATA SET 05:     xx COEFFICIENTS FOR 2008-07-03 03:00:00 OF TYPE atm',
              'DATA SIT 05:     10 COEFFICIENTS FOR 2008-07-03 03:00:00 OF TYPE atm', 'DATA SET 05:     10 COEFFICIENTS FOR 2008-07-03 03:00:00 OF SORT atm', '  2   1 1.5 2.5',
              'DATA SET', 'DATA SET 05', 'DATA SET 05:', 'DATA SET 05:    10', 'DATA SET 05:     10 COEFFICIENTS', 'DATA SET 05:     10 COEFFICIENTS FOR 2008-07-03 03:00:00', 'DATA SET 05:     10 COEFFICIENTS FOR 2008-07-03 03:00:00 OF TYPE', ''):
        yield ('badblock', h)
    # tidal files
    for dm, cm in (((-1, -1), (3, 3)), ((3, 3), (3, 3)), ((2, 2), (3, 3)), ((3, 1), (3, 2)), ((2, 1), (4, 4)), ((0, 0), (1, 1)), ((2, 2), (3, 2, 4, 4)), ((2, 1), (4, 3, 2, 1))):
        yield ('wave', 'tidal file, degree %d, order %d into %s' % (*dm, cm), dm, cm, None, 0)
    yield ('wave', 'tidal file, other order of lines', (3, 3), (3, 3), ('terms', tuple(reversed(tri(3)))), 0)
    yield ('wave', 'tidal file, terms missing', (3, 3), (3, 3), ('terms', ((0, 0), (2, 1), (3, 3))), 0)
    for dm, cm in (((2, 3), (3, 3)), ((4, 4), (5, 5)), ((3, 3), (2, 2)), ((3, 3), (3, 2)), ((-1, -1), (2, 2)), ((3, 3), (3, 2, 3, 3)), ((3, 3), (3, 3, 3, 2)), ((3, 3), (2, 2, 3, 3)), ((3, 3), (3, 3, 2, 2)), ((3, 1), (4, 4, 3, 0)), ((3, 1), (3, 0, 4, 4))):
        yield ('wave', 'tidal file, degree %d, order %d into %s' % (*dm, cm), dm, cm, None, 1)
    for b in (0, 1):
        for c in range(4):
            yield ('wave', 'column %d of a line of tidal set %d unreadable' % (c + 1, b + 1), (3, 3), (3, 3), ('col', b, c), 1)
        for l in ('2 3 1.5 2.5', '-1 0 1.5 2.5', '2 -1 1.5 2.5', '2 1 1.5', ''):
            yield ('wave', 'line "%s" of tidal set %d' % (l, b + 1), (3, 3), (3, 3), ('line', b, l), 1)
        for h in ('DATA SET 0%d:     10 COEFFICIENTS OF TYPE tan', 'DATA SIT 0%d:     10 COEFFICIENTS OF TYPE %s', 'DATA SET 0%d:     xx COEFFICIENTS OF TYPE %s', '', 'DATA SET 0%d:', 'DATA SET 0%d:    10', 'DATA SET'):
            yield ('wave', 'tidal set heading "%s" %d' % (h, b), (3, 3), (3, 3), ('head', b, h), 1)
        yield ('wave', 'tidal file ends inside set %d' % (b + 1), (3, 3), (3, 3), ('cut', b), 1)
    yield ('wave', 'tidal file goes on', (3, 3), (3, 3), ('more',), 1)
    # names
    for y, m, d, rl, sat, z in ((2008, 7, 3, 6, 'X', 0), (1999, 12, 31, 15, 'A', 1), (2020, 1, 1, 5, 'X', 1), (2031, 10, 9, 7, 'C', 0)):
        yield ('name', y, m, d, rl, sat, z)
    for fn, rl in (('AOD1B_2008-07-03_X_06.asc', 6), ('AOD1B_2008-07-03_X_15.asc.gz', 15), ('/a/b/AOD1B_2008-07-03_X_06.asc', 6), ('data_05/AOD1B_2008-07-03_X_07.asc', 7), ('./AOD1B_1999-12-31_A_05.asc', 5),
                   ('AOD1B_2008-07-03_X_ab.asc', None), ('/d/AOD1B_2008-07-03_X_.asc', None), ('short', None), ('', None), ('/path/that/is/rather/long/', None), ('/path/x', None)):
        yield ('rl', fn, rl)


def program(ops, arg):
    out = {}
    for i, c in enumerate(ops):
        for j, v in enumerate(('bcsa'.index(c), *arg)):
            out[16 * i + 4 * j] = (R(v), 4)
    return out


def fold_iter(text, names, t, ops, arg, cm):
    return go('drv_iter', {'f.asc': text}, names, {'type': TYPES.index(t), 'n': len(ops), 'cd': cm[0], 'co': cm[1]}, {'fn': strs.const('f.asc'), 'ops': program(ops, arg)})


def iterate(ck, what, order, nep, deg, t, ops, arg, cm, opt):
    fi = File(order, hours(nep), deg, **opt)
    r, fl, _ = fold_iter('\n'.join(fi.lines) + '\n', fi.x.names, t, ops, arg, cm)
    if not fine(ck, what, r, fl, NEXT):
        return
    B = fi.of(t)
    at = -1
    dmax, mmax = [fi.deg if v < 0 else v for v in arg[:2]]
    for i, c in enumerate(ops):
        w = '%s, step %d' % (what, i + 1)
        g = lambda k: r.result(('arg', 'k'), 64 * i + 8 * k, 'i64')
        at = 0 if c == 'b' else at + 1 if c == 'a' else at
        end = at >= len(B)
        if c == 'a' and end:
            ck.ok(w + ': end', g(0).is_const() and int(g(0).cval()) < 0, NEXT, 'status %s after the last block' % g(0))
            same(ck, w + ': marked as end', g(1), R(1), 'include/aod1b.hpp')
            at = -1
            continue
        same(ck, w + ': status', g(0), R(0), COLLECT if c == 'c' else NEXT)
        if end:
            continue
        n, size, e, ty, V, _ = B[at]
        if c in 'ba':
            for k, (q, v) in enumerate((('number', n), ('lines', size), ('epoch', stamp(e) + GPS2TT), ('type', TYPES.index(t)))):
                same(ck, '%s: %s of block' % (w, q), g(2 + k), R(v), BLOCK)
        if c == 'c':
            have = [(l, m) for (q, l, m) in V if q == 'C' and l <= dmax and m <= mmax]
            D_, M_ = (max(l for l, m in have), max(m for l, m in have)) if arg[2] else cm
            same(ck, w + ': degree', g(2), R(D_), COLLECT)
            same(ck, w + ': order', g(3), R(M_), COLLECT)
            p = 0
            for l in range(D_ + 1):
                for m in range(min(l, M_) + 1):
                    for q in 'CS':
                        want = V.get((q, l, m), R(0)) if l <= dmax and m <= mmax else R(0)
                        same(ck, '%s: %s(%d,%d)' % (w, q, l, m), r.result(('arg', 'o'), 512 * i + 8 * p), want, COLLECT)
                        p += 1


def badcollect(ck, what, arg, cm, how):
    fi = File(TYPES, hours(2), 3, terms=how[1] if how and how[0] == 'terms' else None)
    b = fi.of('ocn')[0]
    L = list(fi.lines)
    k = b[5] + 1
    if how and how[0] == 'col':
        c = L[k + how[2]].split()
        c[how[1]] = 'x' + c[how[1]]
        L[k + how[2]] = ' '.join(c)
    if how and how[0] == 'line':
        L[k + 4] = how[1]
    if how and how[0] == 'cut':
        L = L[:k + how[1]]
    r, fl, _ = fold_iter('\n'.join(L) + '\n', fi.x.names, 'ocn', 'bc', arg, cm)
    if not fine(ck, what, r, fl, COLLECT):
        return
    st = r.result(('arg', 'k'), 64, 'i64')
    ck.ok(what + ': refused', not st.is_zero() if st.is_const() else None, COLLECT)


def badblock(ck, h):
    fi = File(TYPES, hours(2), 3)
    L = list(fi.lines)
    L[fi.blocks[4][5]] = h
    what = 'block heading "%s"' % h
    r, fl, _ = fold_iter('\n'.join(L) + '\n', fi.x.names, 'ocn', 'bsa', (-1, -1, 0), (3, 3))
    if not fine(ck, what, r, fl, BLOCK):
        return
    st = r.result(('arg', 'k'), 128, 'i64')
    ck.ok(what + ': refused', int(st.cval()) > 0 if st.is_const() else None, BLOCK, 'status %s' % st)


def longfield(ck, what, key, n):
    x = Text(STYLES)
    L = header(NONTIDAL, x, {key: 'y' * n})
    r, fl, ret = go('drv_header', {'f.asc': '\n'.join(L) + '\n'}, x.names, {'how': 0, 'wave': 0}, {'fn': strs.const('f.asc'), 'other': strs.const('g.asc')})
    ck.ok(what + ': no access outside the buffers', not r.faults, HEADER, '; '.join(r.faults[:3]))
    if 2 not in fl.marks:
        return ck.ok(what + ': refused', 1 not in fl.marks, HEADER)
    for k, f in enumerate(FIELDS[:5]):
        w = (b'y' * (19 if k < 3 else 3) if f == key else dict(NONTIDAL)[f].encode()) + b'\0'
        got = [r.result(('arg', 's'), 24 * k + i, 'i8') for i in range(len(w))]
        ck.ok('%s: %s' % (what, f), all(y.is_const() and int(y.cval()) == c for y, c in zip(got, w)), HEADER, 'found %s' % [str(y) for y in got])


def wave(ck, what, dm, cm, how, bad):
    x = Text(STYLES)
    L = header(TIDAL, x)
    terms = how[1] if how and how[0] == 'terms' else tri(3)
    (a, VA), (b, VB) = block(x, 'c', terms), block(x, 's', terms)
    S = [['DATA SET 01: %6d COEFFICIENTS OF TYPE cos' % len(a)] + a, ['DATA SET 02: %6d COEFFICIENTS OF TYPE sin' % len(b)] + b]
    if how and how[0] == 'col':
        c = S[how[1]][5].split()
        c[how[2]] = 'x' + c[how[2]]
        S[how[1]][5] = ' '.join(c)
    elif how and how[0] == 'line':
        S[how[1]][5] = how[2]
    elif how and how[0] == 'head':
        S[how[1]][0] = how[2] % ((how[1] + 1,) + (('cos', 'sin')[how[1]],) * (how[2].count('%') - 1)) if '%' in how[2] else how[2]
    elif how and how[0] == 'cut':
        S = S[:how[1]] + [S[how[1]][:5]]
    L += sum(S, [])
    if how and how[0] == 'more':
        L.append('  3   3 1.5 2.5')
    r, fl, _ = go('drv_wave', {'f.asc': '\n'.join(L) + '\n'}, x.names, {'d': dm[0], 'm': dm[1], 'cd': cm[0], 'co': cm[1], 'sd': cm[-2], 'so': cm[-1]}, {'fn': strs.const('f.asc')})
    if not fine(ck, what, r, fl, WAVE):
        return
    st = r.result(('arg', 'k'), 0, 'i64')
    if bad:
        return ck.ok(what + ': refused', not st.is_zero() if st.is_const() else None, WAVE)
    same(ck, what + ': status', st, R(0), WAVE)
    if not (st.is_const() and st.is_zero()):
        return
    d, o = [3 if v < 0 else v for v in dm]
    p = 0
    for V, n, z in ((VA, 'cosine', cm[:2]), (VB, 'sine', cm[-2:])):
        for l in range(z[0] + 1):
            for m in range(min(l, z[1]) + 1):
                for q in 'CS':
                    same(ck, '%s: %s %s(%d,%d)' % (what, n, q, l, m), r.result(('arg', 'o'), 8 * p), V.get((q, l, m), R(0)) if l <= d and m <= o else R(0), WAVE)
                    p += 1


def name(ck, y, m, d, rl, sat, z):
    r, fl, _ = go('drv_name', {}, {}, {'y': y, 'm': m, 'd': d, 'rl': rl, 'sat': ord(sat), 'zip': z}, {})
    want = 'AOD1B_%04d-%02d-%02d_%s_%02d.asc%s' % (y, m, d, sat, rl, '.gz' if z else '')
    what = 'name ' + want
    if fine(ck, what, r, fl, NAMES, (2,)):
        w = want.encode() + b'\0'
        got = [r.result(('arg', 'o'), i, 'i8') for i in range(len(w))]
        ck.ok(what, all(a.is_const() and int(a.cval()) == c for a, c in zip(got, w)), NAMES, 'found %s' % [str(a) for a in got])
        ext = [k for k in r.mem.get(('arg', 'buf'), {}) if isinstance(k, int) and k > len(want)]
        ck.ok(what + ': fits the documented buffer', not ext, NAMES)


def release(ck, fn, rl):
    r, fl, ret = go('drv_rl', {}, {}, {}, {'fn': strs.const(fn)})
    what = 'release of "%s"' % fn
    if fine(ck, what, r, fl, NAMES, (2,)):
        if rl is None:
            ck.ok(what + ': refused', ret.is_const() and int(ret.cval()) < 0, NAMES, 'found %s' % ret)
        else:
            same(ck, what, ret, R(rl), NAMES)
