"""P14: Earth rotation angle, sidereal time, TIO locator, rotation rate."""
from engine import build
from engine.alg import R, A
from engine.fold import fold
from .eopops import STUB, TWOPI, AS, epoch, same, horner, Fr, ld, near, strip_turns

IAU = 'src/lib/iau/'
GM = ('0.014506', '4612.156534', '1.3915817', '-0.00000044', '-0.000029956', '-0.0000000368')


def single(z):
    (m, c), = z.n.t.items()
    return m[0][0]


def coef(v, a):
    v = strip_turns(v, TWOPI)
    if not v.is_poly():
        return None
    return v.n.t.get(((a, 1),))


def run(ck):
    ck.rule('era', 'ERA = 2 pi (0.7790572732640 + 1.00273781191135448 Tu) modulo one turn, Tu days of UT1 since J2000.0')
    ck.rule('gmst', 'GMST = ERA(UT1) + polynomial in TT centuries, modulo one turn; its rate is the derivative')
    ck.rule('gmst82', 'IAU 1982 expression in UT1')
    ck.rule('rate', 'omega = OmegaEarth (1 - LOD/86400) about the z axis')
    m = build.driver('era.cpp', flags=STUB)

    def f(n):
        ck.analysed(n)
        return fold(m, 'drv_' + n)
    u, e = epoch('u'), epoch('e')
    era = R(TWOPI) * (R(Fr('0.7790572732640')) + R(Fr('1.00273781191135448')) * u['days'])
    same(ck, 'Earth rotation angle', f('era').ret, era, IAU + 'era00.cpp', mod=TWOPI)
    # the small rate on top of one turn per day, to its own precision
    a = single(ld('u', 0, 'i32'))
    c = coef(f('era').ret, a)
    if c is not None:
        k = round(c / TWOPI)
        ck.ok('Earth rotation angle: rate beyond one turn per day', near(R(c - k * Fr(float(TWOPI))), R(TWOPI * Fr('0.00273781191135448')), 8e-14) if k == 1 else None if k else
              near(R(c), R(TWOPI * Fr('0.00273781191135448')), 8e-14), IAU + 'era00.cpp', 'rate %.17g turns per day' % float(c / TWOPI))
    g = horner(GM, e['cy']) * R(AS)
    same(ck, 'Greenwich mean sidereal time (IAU 2006)', f('gmst').ret, era + g, IAU + 'gmst.cpp', mod=TWOPI)
    d = horner([str(Fr(c) * i) for i, c in enumerate(GM)][1:], e['cy']) * R(AS) / 36525
    same(ck, 'rate of Greenwich mean sidereal time is its derivative', f('dgmst').ret, R(TWOPI) * R(Fr('1.00273781191135448')) + d, IAU + 'dgmst.cpp')
    hs = R(AS) * 15
    same(ck, 'Greenwich mean sidereal time (IAU 1982)', f('gmst82').ret,
         hs * (horner(('24110.54841', '8640184.812866', '0.093104', '-6.2e-6'), u['cy']) + u['sec']), IAU + 'gmst82.cpp', mod=TWOPI)
    same(ck, 'TIO locator', f('sp').ret, R(AS) * R(Fr('-47e-6')) * e['cy'], 'include/iau.hpp')
    lod = A('arg', 'lod')
    w = R(Fr('7.2921151467064e-5')) * (R(1) - lod / 86400)
    same(ck, 'rotation rate', f('rate').ret, w, 'include/earth_rotation.hpp')
    o = f('axis')
    for i, v in enumerate((R(0), R(0), w)):
        same(ck, 'rotation vector component %s' % 'xyz'[i], o.result(('arg', 'o'), 8 * i), v, 'include/earth_rotation.hpp')
    ck.assumptions += ['exact real arithmetic; constants compared to double rounding', 'day numbers are integers', 'epochs and unit conversions behave as in stubs/']
