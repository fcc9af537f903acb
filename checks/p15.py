"""P15: X, Y of the celestial pole and the CIO locator: series, arguments, units."""
from engine import build
from engine.alg import R, A
from engine.fold import fold, trig
from engine.vf import P, isP, AnalysisError
from .eopops import STUB, AS, epoch, same, series, horner, spec, Fr, ld

IAU = 'src/lib/iau/'
FA = ['fal03', 'falp03', 'faf03', 'fad03', 'faom03', 'fame03', 'fave03', 'fae03', 'fama03', 'faju03', 'fasa03', 'faur03', 'fane03', 'fapa03']
XP = ('-16617', '2004191898', '-429782.9', '-198618.34', '7.578', '5.9285')
YP = ('-6951', '-25896', '-22407274.7', '1900.59', '1112.526', '0.1358')
SP = ('94', '3808.65', '-122.68', '-72574.11', '27.98', '15.62')


def total(rows, poly, fa, t):
    """series given as (power, sin, cos, multipliers) rows plus polynomial, in the symbols fa, t"""
    terms = {}
    for r in rows:
        arg = R(0)
        for f, n in zip(fa, r[3:]):
            if int(n):
                arg = arg + f * int(n)
        v = R(Fr(r[1])) * trig('sin', arg) + R(Fr(r[2])) * trig('cos', arg)
        j = int(r[0])
        terms.setdefault(j, []).append(v)
    s = horner(poly, t)
    for j, vs in terms.items():
        while len(vs) > 1:
            vs = [vs[i] + vs[i + 1] if i + 1 < len(vs) else vs[i] for i in range(0, len(vs), 2)]
        s = s + vs[0] * t ** j
    return s


def run(ck):
    ck.rule('series', 'X, Y, s + XY/2 equal polynomial + sum over IERS tables 5.2a, 5.2b, 5.2d, each with its power of t, multipliers and coefficients')
    ck.rule('arguments', 'the fourteen arguments are evaluated at the same TT centuries and handed over in the order l l\' F D Om Me..Ne pA')
    ck.rule('units', 'microarcseconds become radians')
    m = build.linked('cip.cpp', build.sources('iau/s06.cpp', 'iau/x*cip06a*.cpp', 'iau/ycip06a*.cpp', 'fundarg/*.cpp'), flags=STUB, keep='iers2010.*fa[a-z]+03Ed')
    ck.par(lambda c, n: one(c, m, n), ['ex', 'xy', 's', 'sf'])
    ck.assumptions += ['exact real arithmetic (summation order and compensation do not matter)', 'fundamental arguments as established by P13; epochs and units as in stubs/',
                       'oracle: IERS Conventions (2010) tables in spec/']


def one(ck, m, n):
    t = epoch('e')['cy']
    ts = A('sym', 't')
    fa = [A('sym', k) for k in FA]
    calls = []

    def handler(k):
        def h(f, I, args):
            calls.append((k, args[0], f.name))
            return fa[k]
        return h
    hs = {}
    for k, nm in enumerate(FA):
        hs['_ZN3dso8iers2010%d%sEd' % (len(nm), nm)] = handler(k)
    f = fold(m, 'drv_' + n, handlers=hs)
    ck.analysed(f.name)
    loc = {'ex': IAU + 'xycip06a.cpp', 'xy': IAU + 'xycip06a_xy.cpp'}.get(n, IAU + 's06.cpp')
    for k, a, w in calls:
        same(ck, '%s: %s evaluated at TT centuries' % (n, FA[k]), a, t, loc)
    # powers of t: name the polynomial
    uas = R(AS) / 10**6

    def low(v):
        from engine.alg import subst_rat
        return v
    if n in ('ex', 'xy'):
        rows = list(spec('table52ab.txt'))
        for i, (c, poly) in enumerate((('X', XP), ('Y', YP))):
            got = f.result(('arg', 'o'), 8 * i)
            want = total([r[1:] for r in rows if r[0] == c], poly, fa, t) * uas
            series(ck, '%s: %s coordinate' % (n, c), got, want, loc)
        if n == 'xy':
            f0 = fold(m, 'drv_xy0', handlers=hs)
            for i in range(2):
                ck.ok('xy: same result without argument output (%s)' % 'XY'[i], f0.result(('arg', 'o'), 8 * i) == f.result(('arg', 'o'), 8 * i), loc)
        from engine.logic import eq
        for k in range(14):
            got = f.result(('arg', 'fa'), 8 * k)
            from engine.cases import simplify
            got = simplify(got, [('not', ('b', ('isnull', ('arg', 'fa'))))])
            same(ck, '%s: argument output %d' % (n, k), got, fa[k], loc)
        ck.ok('%s: reports success' % n, f.ret == R(0), loc, 'returns %s' % (f.ret,))
    else:
        src = fa if n == 's' else [ld('fa', 8 * k) for k in range(14)]
        rows = list(spec('table52d.txt'))
        want = total(rows, SP, src, t) * uas - A('arg', 'x') * A('arg', 'y') / 2
        series(ck, '%s: CIO locator' % n, f.ret, want, loc)
