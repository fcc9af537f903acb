"""P19: solid Earth tide, geopotential coefficients."""
from engine import build
from engine.alg import R, A, fn
from engine.fold import fold, trig
from .eopops import STUB, Fr, same, ld, spec
from .tides import gmst, doodson, delaunay, tide, crd, positions

DIR = 'src/lib/solid_earth_tides/'
HDR = 'include/solid_earth_tide.hpp'
K = {(2, 0): ('0.30190', '0'), (2, 1): ('0.29830', '-0.00144'), (2, 2): ('0.30102', '-0.00130'),
     (3, 0): ('0.093', '0'), (3, 1): ('0.093', '0'), (3, 2): ('0.093', '0'), (3, 3): ('0.094', '0')}
KP = {0: '-0.00089', 1: '-0.00080', 2: '-0.00057'}


def sources():
    return build.sources('solid_earth_tides/*.cpp', 'iau/era00.cpp', 'iau/gmst.cpp', 'stokes_coefficients.cpp')


def legendre(n, m, s, c):
    """fully normalised associated Legendre function of sin(latitude)"""
    from math import factorial
    P = {(2, 0): (3 * s * s - 1) / 2, (2, 1): 3 * s * c, (2, 2): 3 * c * c,
         (3, 0): s * (5 * s * s - 3) / 2, (3, 1): 3 * (5 * s * s - 1) * c / 2, (3, 2): 15 * s * c * c, (3, 3): 15 * c * c * c}[n, m]
    q = Fr((2 * n + 1) * (1 if m == 0 else 2) * factorial(n - m), factorial(n + m))
    return P * fn('sqrt', R(q))


def body(b, mu, Re):
    """Eqs 6.6, 6.7: {(n, m): (dC, dS)} due to one body with mass ratio mu"""
    r, lat, lon = crd(b)
    s, c = trig('sin', lat), trig('cos', lat)
    out = {}
    for (n, m), (kr, ki) in K.items():
        x = mu * (Re / r) ** (n + 1) * legendre(n, m, s, c) / (2 * n + 1)
        cm, sm = trig('cos', lon * m), trig('sin', lon * m)
        kr, ki = R(Fr(kr)), R(Fr(ki))
        out[n, m] = (x * (kr * cm + ki * sm), x * (kr * sm - ki * cm))
        if n == 2:
            kp = R(Fr(KP[m]))
            out[4, m] = (x * kp * cm, x * kp * sm)
    return out


def step2():
    """Eqs 6.8a, 6.8b with Table 6.5"""
    b = doodson(delaunay(), gmst('tt', 'ut1'))
    out = {}
    for row in spec('table65.txt'):
        n = [int(x) for x in row[:6]]
        ip, op = [R(Fr(x)) / 10 ** 12 for x in row[6:]]
        th = sum((k * x for k, x in zip(n, b)), R(0))
        c, s = trig('cos', th), trig('sin', th)
        m = n[0]
        # (ip + i op) exp(i theta), times -i for m = 1
        re, im = ip * c - op * s, ip * s + op * c
        dc, ds = (im, re) if m == 1 else (re, -im if m else R(0))
        o = out.get((2, m), (R(0), R(0)))
        out[2, m] = (o[0] + dc, o[1] + ds)
    return out


def run(ck):
    ck.rule('step1', 'Eqs 6.6, 6.7 with the anelastic Love numbers of Table 6.3, summed over Sun and Moon')
    ck.rule('step2', 'Eqs 6.8a, 6.8b with every line of Tables 6.5a-c; tidal arguments from the Delaunay arguments and GMST')
    ck.rule('rest', 'all other coefficients are zero whatever the object held before')
    m = build.linked('solidtide.cpp', sources(), flags=STUB)
    two = step2()
    syms = [('gmst', gmst('tt', 'ut1'))]
    sym = [A('arg', k) for k in ('GMe', 'Re', 'GMs', 'GMm')]
    std = [R(Fr(x)) for x in ('3.986004418e14', '6378136.6', '1.32712442076e20', '0.49028010560e13')]
    for d, (GMe, Re, GMs, GMm), nm in (('drv_geo', sym, 'given constants'), ('drv_geo0', std, 'default constants')):
        ck.analysed(d)
        mem, h = positions(('sun', 'moon'))
        r = fold(m, d, mem=mem, handlers=h)
        s, l = body('sun', GMs / GMe, Re), body('moon', GMm / GMe, Re)
        for n in range(5):
            for k in range(n + 1):
                w = [R(0), R(0)]
                for t in (s, l, two):
                    if (n, k) in t:
                        w = [x + y for x, y in zip(w, t[n, k])]
                for i, b in enumerate('os'):
                    loc = DIR + ('iers2010_geopotential_step1.cpp' if (n, k) in s else 'iers2010_stokes_coeffs.cpp')
                    tide(ck, 'd%s%d%d, %s' % ('CS'[i], n, k, nm), r.result(('arg', b), 8 * (5 * n + k)), w[i], loc, ('sun', 'moon'), syms=syms)
        if d == 'drv_geo':
            for k, t, w in ((0, 'returns 0', 0), (1, 'degree', 4), (2, 'order', 4)):
                same(ck, t, r.result(('arg', 'q'), 8 * k), R(w), HDR)
        same(ck, 'gravitational constant of the coefficients, %s' % nm, r.result(('arg', 'q'), 24), GMe, HDR)
        same(ck, 'radius of the coefficients, %s' % nm, r.result(('arg', 'q'), 32), Re, HDR)
    ck.assumptions += ['exact real arithmetic; constants compared to rounding', 'epochs, spherical coordinates and reduction to one turn behave as in stubs/',
                       'bodies away from the origin and the polar axis']
