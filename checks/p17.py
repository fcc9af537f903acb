"""P17: relativistic acceleration of a satellite."""
from engine import build
from engine.alg import R, A, fn
from engine.fold import fold
from .eopops import STUB, same, ld, Fr

SRC = 'src/lib/relativity/iers12010_relativistic_correction.cpp'


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def terms(par):
    """the three terms of IERS 2010 Eq. 10.12"""
    GMe, GMs, J, c, be, ga = par
    r, v = ([ld('sat', 8 * (k + i)) for i in range(3)] for k in (0, 3))
    # position and velocity of the Earth with respect to the Sun
    Re, Ve = ([-ld('sun', 8 * (k + i)) for i in range(3)] for k in (0, 3))
    s, S = fn('sqrt', dot(r, r)), fn('sqrt', dot(Re, Re))
    k = GMe / (c * c * s ** 3)
    j = [R(0), R(0), J]
    sch = [k * ((2 * (be + ga) * GMe / s - ga * dot(v, v)) * r[i] + 2 * (1 + ga) * dot(r, v) * v[i]) for i in range(3)]
    rv, vj = cross(r, v), cross(v, j)
    lt = [(1 + ga) * k * (3 / s ** 2 * rv[i] * dot(r, j) + vj[i]) for i in range(3)]
    w = cross(Ve, [-GMs / (c * c * S ** 3) * x for x in Re])
    ds = [(1 + 2 * ga) * x for x in cross(w, v)]
    return sch, lt, ds


def run(ck):
    ck.rule('eq1012', 'acceleration = Schwarzschild + Lense-Thirring + de Sitter terms of IERS 2010 Eq. 10.12, in SI units, for symbolic GM of Earth and Sun, J, c, beta and gamma')
    ck.rule('defaults', 'omitted arguments mean the IERS constants and general relativity (beta = gamma = 1)')
    m = build.driver('relativity.cpp', flags=STUB)
    sym = [A('arg', n) for n in ('GMe', 'GMs', 'J', 'c', 'beta', 'gamma')]
    std = [R(Fr(x)) for x in ('3.986004418e14', '1.32712442099e20', '9.8e8', '299792458', '1', '1')]
    for drv, par, nm in (('drv_rel', sym, 'given parameters'), ('drv_gr', std, 'default parameters')):
        ck.analysed(drv)
        o = fold(m, drv)
        t = terms(par)
        for i in range(3):
            same(ck, 'acceleration %s, %s' % ('xyz'[i], nm), o.result(('arg', 'o'), 8 * i), t[0][i] + t[1][i] + t[2][i], SRC, rel=1e-12)
    ck.assumptions += ['exact real arithmetic; constants compared to rounding', 'satellite and Sun positions nonzero']
