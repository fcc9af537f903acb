"""P13: fundamental arguments, their rates and their overloads."""
from engine import build
from engine.alg import R, A, subst_rat
from engine.vf import P, isP
from engine.fold import fold
from .eopops import STUB, TWOPI, AS, epoch, same, strip_turns, horner, Fr

LOC = 'include/fundarg.hpp'
# IERS Conventions (2010) eq. 5.43 [arcsec, Julian centuries TT] and 5.44 [rad]
LS = [('fal03', ('485868.249036', '1717915923.2178', '31.8792', '0.051635', '-0.00024470')),
      ('falp03', ('1287104.793048', '129596581.0481', '-0.5532', '0.000136', '-0.00001149')),
      ('faf03', ('335779.526232', '1739527262.8478', '-12.7512', '-0.001037', '0.00000417')),
      ('fad03', ('1072260.703692', '1602961601.2090', '-6.3706', '0.006593', '-0.00003169')),
      ('faom03', ('450160.398036', '-6962890.5431', '7.4722', '0.007702', '-0.00005939'))]
PL = [('fame03', ('4.402608842', '2608.7903141574')), ('fave03', ('3.176146697', '1021.3285546211')),
      ('fae03', ('1.753470314', '628.3075849991')), ('fama03', ('6.203480913', '334.0612426700')),
      ('faju03', ('0.599546497', '52.9690962641')), ('fasa03', ('0.874016757', '21.3299104960')),
      ('faur03', ('5.481293872', '7.4781598567')), ('fane03', ('5.311886287', '3.8133035638')),
      ('fapa03', ('0', '0.024381750', '0.00000538691'))]


def run(ck):
    ck.rule('argument', 'each argument equals its polynomial in t modulo one turn')
    ck.rule('rate', 'each rate is the derivative of its argument with respect to t')
    ck.rule('overload', 'the overload taking an epoch equals the one taking centuries at t = centuries since J2000.0')
    ck.rule('all', 'fundarg / fundarg_derivs store l, l\', F, D, Om (their rates) in this order and return the array')
    m = build.driver('fundarg.cpp', flags=STUB)
    t = A('arg', 't')
    at = {'drv_': t, 'drv_e_': epoch('e')['cy']}

    def f(n):
        ck.analysed(n)
        return fold(m, n)
    for pre, tt in at.items():
        what = 'epoch overload ' if 'e_' in pre else ''
        for n, cs in LS + PL:
            k = R(AS) if len(cs) == 5 else R(1)
            same(ck, '%s%s: polynomial' % (what, n), f(pre + n).ret, horner(cs, tt) * k, LOC, mod=TWOPI)
        for n, cs in LS:
            d = [str(Fr(c) * i) for i, c in enumerate(cs)][1:]
            same(ck, '%sd%s: derivative of %s' % (what, n, n), f(pre + 'd' + n).ret, horner(d, tt) * R(AS), LOC)
        for nm, der in (('all', False), ('dall', True)):
            g = f(pre + nm)
            ck.ok('%s%s returns the array it was given' % (what, nm), isP(g.ret) and g.ret[1] == ('arg', 'o') and g.ret[2].is_zero(), 'src/lib/fundarg/fundarg.cpp')
            for i, (n, cs) in enumerate(LS):
                got = g.result(('arg', 'o'), 8 * i)
                want = horner([str(Fr(c) * j) for j, c in enumerate(cs)][1:], tt) if der else horner(cs, tt)
                same(ck, '%s%s[%d] is %s%s' % (what, 'fundarg_derivs' if der else 'fundarg', i, 'd' if der else '', n), got, want * R(AS),
                     'src/lib/fundarg/fundarg.cpp', mod=None if der else TWOPI)
    ck.assumptions += ['exact real arithmetic; constants compared to double rounding (2e-14 relative)', 'unit conversions and epochs behave as in stubs/ (the geodesy and datetime libraries are not part of this repository)']
