"""P29: reading the ocean pole tide models (deformation grid, expansion coefficients)."""
from fractions import Fraction
from functools import lru_cache
from engine import build
from engine.alg import R, A, atom_id
from engine.fold import fold, Fold, Dead
from engine.vf import P
from . import strs, files
from .eopops import STUB, same
from .p28 import Text, STYLES

GRID, MODEL = 'src/lib/pole_tide/get_desai_ocp_deformation_coeffs.cpp', 'src/lib/pole_tide/parse_desai02_coeffs.cpp'
IO = ['-I' + build.VERIF + '/stubs/io'] + STUB
COEF = ('rR', 'rI', 'nR', 'nI', 'eR', 'eI')


def run(ck):
    ck.rule('interpolation', 'the six coefficients at a site are the bilinear interpolation, in longitude and latitude, of those the file has at the four nodes around it; one result per site, in order')
    ck.rule('expansion', 'A and B of every degree and order asked for are those of the file, zero where it has none; matrices have the asked size')
    ck.rule('refusal', 'files that do not follow the format and sites the grid does not surround give an error status')
    ck.rule('extent', 'no access outside the buffers')
    mod()
    ck.par(one, list(sites()) + list(models()))
    for d in ('drv_sites', 'drv_model'):
        ck.analysed(d)
    ck.assumptions += ['file streams and std::from_chars behave as documented (models in checks/files.py)', 'exact real arithmetic; sites at least 1e-6 of a cell away from its border']


@lru_cache(None)
def mod():
    return build.linked('desai.cpp', build.sources('pole_tide/*.cpp', 'stokes_coefficients.cpp'), flags=IO)


@lru_cache(None)
def konst():
    return fold(mod(), 'drv_deg').ret, fold(mod(), 'drv_turn').ret


# ---- deformation grid
HEAD = ['Ocean Pole Load Tide Deformation Parameters from Self-Consistent', 'Equilibrium Model of Ocean Pole Tide (Desai, 2002)',
        'Deformation Parameters Generated by S. Desai on March 28, 2006: CM correction applied']
KEYS = ['Number_longitude_Grid_Points', 'First_longitude_degrees', 'Last_longitude_degrees', 'Longitude_step_degrees',
        'Number_latitude_grid_points', 'First_latitude_degrees', 'Last_latitude_degrees', 'Latitude_step_degrees']
COLS = ['Longitude   Latitude   u_r^R       u_r^I       u_n^R       u_n^I       u_e^R       u_e^I',
        '(degrees)  (degrees)  (        )  (        )  (        )  (        )  (        )  (        )', '-' * 60]
# grids: (points, first, step) of longitude and latitude
GLOBAL = ((8, '22.5', '45'), (4, '-67.50', '45.00'))
REGION = ((3, '10', '2.5'), (3, '30.25', '0.5'))


class Grid:
    def __init__(self, axes, style=0, pad=6):
        self.x = Text(STYLES)
        (self.nx, fx, sx), (self.ny, fy, sy) = axes
        self.fx, self.sx, self.fy, self.sy = Fraction(fx), Fraction(sx), Fraction(fy), Fraction(sy)
        v = [str(self.nx), fx, str(self.fx + (self.nx - 1) * self.sx and float(self.fx + (self.nx - 1) * self.sx)), sx,
             str(self.ny), fy, str(float(self.fy + (self.ny - 1) * self.sy)), sy]
        self.head = HEAD + ['%-28s = %*s' % (k, pad + 3 if style == 0 else 0, y) if style < 2 else '%s=%s' % (k, y) for k, y in zip(KEYS, v)] + COLS
        self.v = {}
        self.lines = []
        for j in range(self.ny):
            for i in range(self.nx):
                c = ['%.2f' % (self.fx + i * self.sx), '%.2f' % (self.fy + j * self.sy)]
                for q in COEF:
                    t = self.x.num('%s(%d,%d)' % (q, i, j))
                    self.v[q, i, j] = A('arg', '%s(%d,%d)' % (q, i, j))
                    c.append(t)
                self.lines.append('   '.join(([''] if (i + j) % 2 else []) + c))

    def text(self):
        return '\n'.join(self.head + self.lines) + '\n'


def place(g, i, j, turn, q):
    """site q inside cell (i, j): symbols, their ranges, expected degrees"""
    K, T = konst()
    lam, phi = A('arg', 'lon%d' % q), A('arg', 'lat%d' % q)
    e = Fraction(1, 10 ** 6)
    kk = K.cval()
    lo, hi = g.fx + (i + e) * g.sx, g.fx + (i + 1 - e) * g.sx
    if g.nx * g.sx == 360:
        lo, hi = (max(lo, e), hi) if i < 0 else (lo, min(hi, 360 - e))
    if turn is None:
        turn = 0
    off = -turn * T.cval()
    r = {lam: (lo / kk + off, True, hi / kk + off, True),
         phi: ((g.fy + (j + e) * g.sy) / kk, True, (g.fy + (j + 1 - e) * g.sy) / kk, True)}
    return lam, phi, r, K * (lam + turn * T), K * phi


def expected(g, i, j, x, y, periodic=False):
    x1, y1 = g.fx + i * g.sx, g.fy + j * g.sy
    u, w = (x - x1) / g.sx, (y - y1) / g.sy
    i2 = (i + 1) % g.nx if periodic else i + 1
    i1 = i % g.nx
    return [g.v[q, i1, j] * (1 - u) * (1 - w) + g.v[q, i2, j] * u * (1 - w) + g.v[q, i1, j + 1] * (1 - u) * w + g.v[q, i2, j + 1] * u * w for q in COEF]


def sites():
    """(kind, what, axes, style, [(i, j, turn)], have)"""
    for j in range(3):
        for i in range(7):
            x0 = 22.5 + 45 * i
            t = 1 if x0 >= 180 else 0
            if i == 3:
                continue
            yield ('grid', 'site in cell (%d,%d)' % (i, j), GLOBAL, (i + j) % 3, [(i, j, t)], 0)
    yield ('grid', 'site in cell (5,1), longitude above pi', GLOBAL, 0, [(5, 1, 0)], 0)
    yield ('grid', 'site in cell (1,1), regional grid', REGION, 0, [(1, 1, 0)], 0)
    yield ('grid', 'two sites, ascending', GLOBAL, 0, [(0, 0, 0), (4, 2, 1)], 0)
    yield ('grid', 'two sites, descending', GLOBAL, 0, [(4, 2, 1), (0, 0, 0)], 0)
    yield ('grid', 'two sites of one cell', GLOBAL, 0, [(2, 1, 0), (2, 1, 0)], 3)
    yield ('grid', 'neighbouring cells', GLOBAL, 1, [(1, 1, 0), (2, 1, 0), (1, 0, 0)], 0)
    yield ('grid', 'five sites', GLOBAL, 2, [(6, 2, 1), (1, 0, 0), (6, 0, 1), (0, 1, 0), (1, 0, 0)], 1)
    yield ('grid', 'no site', GLOBAL, 0, [], 2)
    # not surrounded by nodes: refused, or treated as a periodic axis
    for j in range(3):
        yield ('edge', 'site east of the last column, row %d' % j, GLOBAL, 0, [(7, j, 1)], 0)
        yield ('edge', 'site west of the first column, row %d' % j, GLOBAL, 0, [(-1, j, 0)], 0)
    for i in (0, 2, 6, 7):
        yield ('edge', 'site north of the last row, column %d' % i, GLOBAL, 0, [(i, 3, 1 if i > 3 else 0)], 0)
        yield ('edge', 'site south of the first row, column %d' % i, GLOBAL, 0, [(i, -1, 1 if i > 3 else 0)], 0)
    for c in ((2, 0), (2, 2), (0, 2), (-1, 0), (0, -1), (5, 1), (1, 6)):
        yield ('edge', 'site in cell (%d,%d) of a regional grid' % c, REGION, 0, [c + (0,)], 0)
    yield ('edge', 'second site outside', GLOBAL, 0, [(1, 1, 0), (2, 3, 0)], 0)
    yield ('edge', 'first site outside', GLOBAL, 0, [(2, 3, 0), (1, 1, 0)], 0)
    # malformed files
    for i in range(8):
        for how in ('other key', 'no sign', 'no value', 'no number'):
            yield ('badgrid', '%s: %s' % (KEYS[i], how), (3 + i, how))
    for i in (11, 12):
        yield ('badgrid', 'column heading %d' % (i - 10), (i, 'other key'))
    for k in range(8):
        yield ('badgrid', 'column %d of a node unreadable' % (k + 1), ('node', k))
    for n in (0, 2, 3, 7, 14, 20):
        yield ('badgrid', 'file of %d lines' % n, ('lines', n))
    yield ('badgrid', 'line of 300 characters', ('long', 0))
    yield ('badgrid', 'missing file', ('none', 0))


def fold_sites(text, names, pos, have, ranges):
    fl = files.Files({'model.txt': text} if text is not None else {'other': ''}, names)
    K, T = konst()
    h = dict(fl.h)
    mem = {('arg', 'fn'): strs.const('model.txt'), ('arg', 'p'): {}}
    for q, (lam, phi) in enumerate(pos):
        for o, v in ((0, R(6371000)), (8, phi), (16, lam)):
            mem[('arg', 'p')][24 * q + o] = (v, 8)

    def anp(f, I, v):
        for n in (-1, 0, 1):
            w = v[0] + n * T
            b = f.bounds(w) if hasattr(f, 'bounds') else None
            if b and b[0] >= 0 and b[1] <= T.cval():
                return w
        return A('fn', 'vfn_anp', (v[0],))
    h['vfn_anp'] = anp
    f = Fold(mod(), mod().fns['drv_sites'], h)
    f.ranges = {atom_id(k) if not isinstance(k, int) else k: r for k, r in ranges.items()}
    try:
        f.run({'n': R(len(pos)), 'have': R(have)}, mem)
    except Dead:
        f.mem = {('arg', 'k'): {0: (R(-99), 4), 4: (R(0), 4)}}
    return f, fl


def status(ck, what, r, fl, mark, loc):
    ck.ok(what + ': no access outside the buffers', not r.faults, loc, '; '.join(r.faults[:3]))
    st = r.result(('arg', 'k'), 0, 'i32')
    ok = st.is_const() and int(st.cval()) != -99 and mark in fl.marks
    ck.ok(what + ': returns', ok if st.is_const() else None, loc)
    return st


def one(ck, it):
    {'grid': grid, 'edge': grid, 'badgrid': badgrid, 'model': model, 'badmodel': badmodel}[it[0]](ck, *it)


def atom(x):
    (m, _), = x.n.t.items()
    return m[0][0]


def grid(ck, kind, what, axes, style, cells, have):
    g = Grid(axes, style)
    pos, ranges, want = [], {}, []
    inside = True
    for q, (i, j, t) in enumerate(cells):
        lam, phi, r, x, y = place(g, i, j, t, q)
        pos.append((lam, phi))
        ranges.update({atom(k): v for k, v in r.items()})
        whole = g.nx * g.sx == 360
        if 0 <= j < g.ny - 1 and (0 <= i < g.nx - 1 or whole):
            want += expected(g, i, j, x, y, whole)
        else:
            want = None if want is None else want + [None]
        inside = inside and 0 <= i < g.nx - 1 and 0 <= j < g.ny - 1
    r, fl = fold_sites(g.text(), g.x.names, pos, have, ranges)
    st = status(ck, what, r, fl, 1, GRID)
    if not st.is_const():
        return
    if not inside:
        if not st.is_zero():
            return ck.ok(what + ': refused', True, GRID)
        if want is None or None in want:
            return ck.ok(what + ': refused', False, GRID, 'coefficients are given for a site the nodes of the grid do not surround')
    same(ck, what + ': status', st, R(0), GRID)
    if not st.is_zero():
        return
    same(ck, what + ': number of results', r.result(('arg', 'k'), 4, 'i32'), R(len(cells)), GRID)
    for q in range(len(cells)):
        for c in range(6):
            same(ck, '%s: %s of site %d' % (what, COEF[c], q), r.result(('arg', 'o'), 8 * (6 * q + c)), want[6 * q + c], GRID, rel=1e-9)


def badgrid(ck, kind, what, how):
    g = Grid(GLOBAL)
    lam, phi, rg, x, y = place(g, 2, 1, 0, 0)
    head, lines = list(g.head), list(g.lines)
    a, b = how
    text = None
    if a == 'node':
        c = lines[10].split()
        c[b] = 'x' + c[b]
        lines[10] = ' '.join(c)
    elif a == 'long':
        lines[10] = lines[10] + ' ' * 300
    elif a not in ('lines', 'none'):
        l = head[a]
        head[a] = {'other key': 'X' + l, 'no sign': l.replace('=', ' '), 'no value': l.split('=')[0] + '=', 'no number': l.split('=')[0] + '= abc'}[b]
    if a != 'none':
        L = head + lines
        text = '\n'.join(L[:b] if a == 'lines' else L) + '\n'
    r, fl = fold_sites(text, g.x.names, [(lam, phi)], 0, {atom(k): v for k, v in rg.items()})
    st = status(ck, what, r, fl, 1, GRID)
    ck.ok(what + ': refused', (not st.is_zero()) if st.is_const() else None, GRID)


# ---- expansion coefficients
TITLE = '  n   m   Anm(Real)     Bnm(Real)     Anm(Imaginary)   Bnm(Imaginary)'


def coefs(x, terms):
    L, V = [], {}
    for k, (n, m) in enumerate(terms):
        c = []
        for q in ('AR', 'BR', 'AI', 'BI'):
            V[q, n, m] = A('arg', '%s(%d,%d)' % (q, n, m))
            c.append(x.num('%s(%d,%d)' % (q, n, m)))
        L.append(' ' * (k % 3) + '   '.join(['%d' % n, '%*d' % (1 + k % 4, m)] + c))
    return L, V


def tri(n):
    return [(i, j) for i in range(n + 1) for j in range(i + 1)]


def models():
    for l, m in ((4, 4), (3, 3), (4, 2), (3, 1), (2, 2), (2, 0), (0, 0)):
        for rows in (1, 4, 7):
            yield ('model', 'degree %d, order %d, matrices of %d rows' % (l, m, rows), tri(5)[1:], l, m, rows)
    yield ('model', 'lines in another order', list(reversed(tri(5)[1:])), 4, 3, 3)
    yield ('model', 'terms missing', [(1, 0), (2, 1), (4, 4)], 4, 4, 6)
    yield ('model', 'no terms', [], 2, 2, 5)
    for l, m in ((2, 3), (361, 2), (361, 361), (360, 361)):
        yield ('badmodel', 'asked for degree %d, order %d' % (l, m), None, l, m)
    yield ('badmodel', 'missing file', 'none', 3, 3)
    for t in ('n m Anm(Real) Anm(Imaginary) Bnm(Real) Bnm(Imaginary)', 'n m Anm(Real) Bnm(Real) Anm(Imaginary)', TITLE + ' x', ''):
        yield ('badmodel', 'title "%s"' % t[:30], ('title', t), 3, 3)
    for c in range(6):
        for k in (0, 5, -1):
            yield ('badmodel', 'column %d of line %d unreadable' % (c + 1, k), ('col', c, k), 3, 3)
    for l in ('2 3 1.5 2.5 3.5 4.5', '-1 0 1.5 2.5 3.5 4.5', '2 -1 1.5 2.5 3.5 4.5', '3 -3 1.5 2.5 3.5 4.5', '1 2 1.5 2.5 3.5 4.5', '0 3 1.5 2.5 3.5 4.5'):
        yield ('badmodel', 'line "%s"' % l, ('line', l), 3, 3)
    yield ('badmodel', 'line of 300 characters', ('line', '2 1 1.5 2.5 3.5 4.5' + ' ' * 290), 3, 3)


def fold_model(text, names, l, m, rows):
    fl = files.Files({'model.txt': text} if text is not None else {'other': ''}, names)
    f = Fold(mod(), mod().fns['drv_model'], dict(fl.h))
    try:
        f.run({'l': R(l), 'm': R(m), 'rows': R(rows)}, {('arg', 'fn'): strs.const('model.txt')})
    except Dead:
        f.mem = {('arg', 'k'): {0: (R(-99), 4)}}
    return f, fl


def model(ck, kind, what, terms, l, m, rows):
    x = Text(STYLES)
    L, V = coefs(x, terms)
    r, fl = fold_model('\n'.join([TITLE] + L) + ('\n' if l % 2 else ''), x.names, l, m, rows)
    st = status(ck, what, r, fl, 2, MODEL)
    same(ck, what + ': status', st, R(0), MODEL)
    if not (st.is_const() and st.is_zero()):
        return
    for q in range(4):
        same(ck, '%s: rows of matrix %d' % (what, q), r.result(('arg', 'k'), 4 + 4 * q, 'i32'), R(l + 1), MODEL)
    p = 0
    for i, j in tri(l):
        for q in ('AR', 'BR', 'AI', 'BI'):
            want = V.get((q, i, j), R(0)) if j <= m else R(0)
            same(ck, '%s: %s(%d,%d)' % (what, q, i, j), r.result(('arg', 'o'), 8 * p), want, MODEL)
            p += 1


def badmodel(ck, kind, what, how, l, m):
    x = Text(STYLES)
    L, V = coefs(x, tri(3)[1:])
    title, text = TITLE, None
    if how and how[0] == 'title':
        title = how[1]
    elif how and how[0] == 'col':
        c = L[how[2]].split()
        c[how[1]] = 'x' + c[how[1]]
        L[how[2]] = ' '.join(c)
    elif how and how[0] == 'line':
        L[4:4] = [how[1]]
    if how != 'none':
        text = '\n'.join([title] + L) + '\n'
    r, fl = fold_model(text, x.names, l, m, 4)
    st = status(ck, what, r, fl, 2, MODEL)
    ck.ok(what + ': refused', (not st.is_zero()) if st.is_const() else None, MODEL)
