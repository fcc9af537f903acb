"""P20: solid Earth tide, site displacement."""
from engine import build
from engine.alg import R, A, Rat, atom_desc, subst_rat
from engine.fold import fold, trig
from .eopops import STUB, Fr, spec
from .tides import gmst, doodson, delaunay, tide, crd, unit, positions
from .p19 import sources

DIR = 'src/lib/solid_earth_tides/'


def enu(lat, lon):
    """columns: local east, north, up"""
    sf, cf, sl, cl = trig('sin', lat), trig('cos', lat), trig('sin', lon), trig('cos', lon)
    return [[-sl, -sf * cl, cf * cl], [cl, -sf * sl, cf * sl], [R(0), cf, sf]]


def frames(v):
    """the local frame of the geodesy library: [x y z] = R [e n u]"""
    def fa(a):
        d = atom_desc(a)
        if d[0] == 'fn' and d[1].startswith('vfn_lvlh'):
            i, k = int(d[1][8]), int(d[1][9])
            return enu(*d[2])[i][k]
        return None
    return subst_rat(R(v), fa)


def f(s):
    return R(Fr(s))


def inphase(b, mu, Re):
    """Eqs 7.5, 7.6 with Eq. 7.2, cartesian"""
    r = crd(b)[0]
    p, u = unit(b), unit('sta')
    sf2 = trig('sin', crd('sta')[1]) ** 2
    h2 = f('0.6078') - f('0.0006') * (3 * sf2 - 1) / 2
    l2 = f('0.0847') + f('0.0002') * (3 * sf2 - 1) / 2
    h3, l3 = f('0.292'), f('0.015')
    c = sum((x * y for x, y in zip(p, u)), R(0))
    k2 = mu * Re ** 4 / r ** 3
    k3 = k2 * Re / r
    t = [x - c * y for x, y in zip(p, u)]
    return [k2 * (h2 * u[i] * (3 * c * c - 1) / 2 + 3 * l2 * c * t[i]) +
            k3 * (h3 * u[i] * (5 * c ** 3 - 3 * c) / 2 + l3 * (15 * c * c - 3) / 2 * t[i]) for i in range(3)]


def local(b, mu, Re):
    """out-of-phase parts Eqs 7.10, 7.11 and latitude dependence Eqs 7.8, 7.9: east, north, radial"""
    r, P, L = crd(b)
    _, p, l = crd('sta')
    k = mu * Re ** 4 / r ** 3
    sP, cP, sp, cp = trig('sin', P), trig('cos', P), trig('sin', p), trig('cos', p)
    s1, c1, s2, c2 = trig('sin', l - L), trig('cos', l - L), trig('sin', 2 * l - 2 * L), trig('cos', 2 * l - 2 * L)
    s2P, s2p, c2p = 2 * sP * cP, 2 * sp * cp, cp * cp - sp * sp
    h10, l10, h11, l11 = f('-0.0025'), f('-0.0007'), f('-0.0022'), f('-0.0007')
    e = -f('1.5') * l10 * s2P * sp * c1 - f('1.5') * l11 * cP * cP * cp * c2
    n = -f('1.5') * l10 * s2P * c2p * s1 + f('0.75') * l11 * cP * cP * s2p * s2
    u = -f('0.75') * h10 * s2P * s2p * s1 - f('0.75') * h11 * cP * cP * cp * cp * s2
    q8, q9 = f('0.0012'), f('0.0024')
    P21, P22 = 3 * sP * cP, 3 * cP * cP
    n = n - q8 * sp * sp * P21 * c1 - q9 / 2 * sp * cp * P22 * c2
    e = e + q8 * sp * c2p * P21 * s1 - q9 / 2 * sp * sp * cp * P22 * s2
    return [k * e, k * n, k * u]


def step2():
    """Eqs 7.12, 7.13 with Tables 7.3: east, north, radial [m]"""
    b = doodson(delaunay(), gmst('tt', 'ut1'))
    _, p, l = crd('sta')
    sp, cp = trig('sin', p), trig('cos', p)
    s2p, c2p = 2 * sp * cp, cp * cp - sp * sp
    o = [R(0)] * 3
    for row in spec('table73.txt'):
        n = [int(x) for x in row[:6]]
        ri, ro, ti, to = [f(x) / 1000 for x in row[6:]]
        th = sum((k * x for k, x in zip(n, b)), R(0))
        if n[0] == 1:
            s, c = trig('sin', th + l), trig('cos', th + l)
            d = [(ti * c - to * s) * sp, (ti * s + to * c) * c2p, (ri * s + ro * c) * s2p]
        else:
            s, c = trig('sin', th), trig('cos', th)
            d = [R(0), (ti * c + to * s) * s2p, (3 * sp * sp - 1) / 2 * (ri * c + ro * s)]
        o = [x + y for x, y in zip(o, d)]
    return o


def run(ck):
    ck.rule('inphase', 'degree 2 and 3 in-phase displacement, Eqs 7.5, 7.6, with latitude-dependent h2, l2 (Eq. 7.2), Sun and Moon')
    ck.rule('local', 'out-of-phase parts (Eqs 7.10, 7.11) and latitude dependence (Eqs 7.8, 7.9)')
    ck.rule('step2', 'frequency dependence Eqs 7.12, 7.13 with every line of Tables 7.3a, 7.3b')
    ck.par(one, ['drv_disp', 'drv_disp0'])
    ck.assumptions += ['exact real arithmetic; constants compared to rounding', 'spherical coordinates, reduction to one turn and epochs behave as in stubs/',
                       'geodetic2lvlh gives the matrix taking east, north, up to x, y, z', 'bodies and site away from the origin and the polar axis']


def one(ck, d):
    m = build.linked('solidtide.cpp', sources(), flags=STUB)
    ck.analysed(d)
    GMe, Re, GMs, GMm = [A('arg', k) for k in ('GMe', 'Re', 'GMs', 'GMm')] if d == 'drv_disp' else \
        [f(x) for x in ('3.986004418e14', '6378136.6', '1.32712442076e20', '0.49028010560e13')]
    nm = 'given constants' if d == 'drv_disp' else 'default constants'
    mem, h = positions(('sun', 'moon', 'sta'))
    r = fold(m, d, mem=mem, handlers=h)
    w = [R(0)] * 3
    loc = step2()
    for b, mu in (('sun', GMs / GMe), ('moon', GMm / GMe)):
        w = [x + y for x, y in zip(w, inphase(b, mu, Re))]
        loc = [x + y for x, y in zip(loc, local(b, mu, Re))]
    F = enu(*crd('sta')[1:])
    for i in range(3):
        want = w[i] + sum((F[i][k] * loc[k] for k in range(3)), R(0))
        got = frames(r.result(('arg', 'o'), 8 * i))
        tide(ck, 'displacement %s, %s' % ('XYZ'[i], nm), got, want, DIR + 'iers2010_displacement_step1.cpp', ('sun', 'moon', 'sta'), syms=[('gmst', gmst('tt', 'ut1'))])
