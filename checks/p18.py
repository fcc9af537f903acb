"""P18: pole tide and ocean pole tide."""
from engine import build
from engine.alg import R, A, Rat, fn, atom_desc, subst_rat
from engine.fold import fold, trig
from engine.logic import fsubst, eq, le, ge, lt, gt, And, Or, Not
from engine.mat import Op, Contents
from engine.cases import contradictory, decide_s, simplify
from engine.vf import ite, isP, AnalysisError
from .eopops import STUB, AS, same, ld, epoch, Fr, near, spec
from .stokesops import Stokes, element_dom

HDR = 'include/pole_tide.hpp'
DIR = 'src/lib/pole_tide/'
GEO = DIR + 'ocean_pole_tide_geopotential.cpp'
MAXDEG = 360
PI = Fr('3.141592653589793238462643')


def coords():
    """m1, m2 [arcsec] from the pole and the secular pole (IERS 2010, section 7.1.4)"""
    yr = epoch('t')['days'] / R(Fr('365.25'))
    xs, ys = R(55) + R(Fr('1.677')) * yr, R(Fr('320.5')) + R(Fr('3.460')) * yr
    return (xs, ys), (A('arg', 'xp') - xs / 1000, -(A('arg', 'yp') - ys / 1000))


def run(ck):
    ck.rule('secular', 'secular pole is linear in years since J2000; m1 = xp - xs, m2 = -(yp - ys)')
    ck.rule('stokes2', 'solid and ocean pole tide C21, S21 (IERS 2010 sections 6.4, 6.5)')
    ck.rule('deformation', 'pole tide displacement Eq. 7.26-7.28, ocean pole tide displacement Eq. 7.29')
    ck.rule('expansion', 'ocean pole tide coefficients R_n [A^R f^R + A^I f^I] for every n <= degree, m <= min(n, order); all others zero; requests beyond the model refused')
    ck.par(lambda c, k: (closed if k == 'closed' else expansion)(c, k), ['closed', 'given', 'default'])
    ck.assumptions += ['exact real arithmetic; constants compared to rounding', 'the rotation from the local frame and date arithmetic behave as in stubs/',
                       'the model matrices hold degree+1 rows (established by the parser, which is outside this analysis)']


def module():
    return build.linked('poletide.cpp', build.sources('pole_tide/*.cpp'), flags=STUB)


def closed(ck, _):
    m = module()

    def o(n, k):
        ck.analysed(n)
        r = fold(m, n)
        return [r.result(('arg', 'o'), 8 * i) for i in range(k)]
    sec, (m1, m2) = coords()
    for i, v in enumerate(o('drv_secular', 2)):
        same(ck, 'secular pole %s' % 'xy'[i], v, sec[i], 'include/eop.hpp', rel=1e-12)
    f = lambda s: R(Fr(s))
    for d, nm, w in (('drv_solid', 'pole tide', (-f('1.333e-9') * (m1 + f('0.0115') * m2), -f('1.333e-9') * (m2 - f('0.0115') * m1))),
                     ('drv_ocean', 'ocean pole tide', (-f('2.1778e-10') * (m1 - f('0.01724') * m2), -f('1.7232e-10') * (m2 - f('0.03365') * m1)))):
        for i, v in enumerate(o(d, 2)):
            same(ck, '%s %s21' % (nm, 'CS'[i]), v, w[i], HDR, rel=1e-12)
    lat, lon = ld('s', 8), ld('s', 16)
    sl, cl = trig('sin', lon), trig('cos', lon)
    st, ct = trig('cos', lat), trig('sin', lat)          # colatitude
    a, b = m1 * cl + m2 * sl, m1 * sl - m2 * cl
    S = [-9 * (ct * ct - st * st) * a / 1000, 9 * ct * b / 1000, -33 * 2 * st * ct * a / 1000]
    Rm = [[ct * cl, -sl, st * cl], [ct * sl, cl, st * sl], [-st, R(0), ct]]
    from .eopops import series
    for i, v in enumerate(o('drv_def', 3)):
        series(ck, 'pole tide displacement %s' % 'XYZ'[i], colat(v), sum((Rm[i][k] * S[k] for k in range(3)), R(0)), DIR + 'pole_tide_deformation.cpp', rel=1e-10, floor=1e-15)
    sym = {k: A('arg', k) for k in ('Re', 'GM', 'om', 'G', 'ge')}
    std = {k: f(v) for k, v in (('Re', '6378136.6'), ('GM', '3.986004418e14'), ('om', '7.2921151467064e-5'), ('G', '6.67428e-11'), ('ge', '9.7803278'))}
    for d, p, nm in (('drv_odef', sym, 'given constants'), ('drv_odef0', std, 'IERS constants')):
        K = ocean_k(p) * p['om'] ** 2 * p['Re'] ** 4 / p['GM'] * p['Re'] / 3
        K = K * Rat.c(Fr((8 * float(PI) / 15) ** .5))
        fr, fi = factors(m1, m2)
        e = [fr * ld('k', 16 * k) + fi * ld('k', 16 * k + 8) for k in (2, 1, 0)]      # east, north, up
        for i, v in enumerate(o(d, 3)):
            w = K * sum((A('fn', 'vfn_lvlh%d%d' % (i, k), (lat, lon)) * e[k] for k in range(3)), R(0))
            same(ck, 'ocean pole tide displacement %s, %s' % ('XYZ'[i], nm), v, w, DIR + 'ocean_pole_tide_deformation.cpp', rel=2e-13)


def ocean_k(p):
    """4 pi G rho_w / g_e"""
    return R(4 * PI) * p['G'] * 1025 / p['ge']


def factors(m1, m2):
    g2r, g2i = R(Fr('0.6870')), R(Fr('0.0036'))
    m1, m2 = m1 * R(AS), m2 * R(AS)
    return m1 * g2r + m2 * g2i, m2 * g2r - m1 * g2i


def colat(v):
    """sin/cos of pi/2 - x"""
    half = float(PI / 2)

    def fa(a):
        d = atom_desc(a)
        if d[0] == 'fn' and d[1] in ('sin', 'cos'):
            x = R(d[2][0])
            c = x.n.t.get((), 0) if x.is_poly() else 0
            k = round(float(c) / half)
            if k % 4 and abs(float(c) - k * half) < 1e-14:
                y = x - R(c)
                s, cc = trig('sin', y), trig('cos', y)
                q = k % 4
                return {'sin': {1: cc, 2: -s, 3: -cc}, 'cos': {1: -s, 2: -cc, 3: s}}[d[1]][q]
        return None
    return subst_rat(R(v), fa)


def expansion(ck, which):
    m0 = build.driver('poletide.cpp', flags=STUB)
    # members are identified by their role: the parser's output arguments
    roles = None
    for c in ('drv_octor', 'drv_octor1', 'drv_octor0'):
        for e in m0.fn(c).events():
            if e.kind == 'call' and e.callee and 'parse_desai02_coeffs' in e.callee:
                offs = [int(x[2].cval()) if isP(x) and x[1] == ('arg', 'p') else None for x in e.args[3:7]]
                if None in offs or roles not in (None, offs):
                    ck.ok('model matrices are filled by the parser in the order A real, A imaginary, B real, B imaginary', False if None not in offs else None, HDR, 'constructor passes offsets %s, elsewhere %s' % (offs, roles))
                roles = offs
                want = {'drv_octor': (A('arg', 'n'), A('arg', 'm')), 'drv_octor1': (A('arg', 'n'), A('arg', 'n')), 'drv_octor0': (R(MAXDEG), R(MAXDEG))}[c]
                for nm, x, w in zip(('degree', 'order'), e.args[1:3], want):
                    ck.eq('constructor reads the model up to its %s' % nm, [], R(x), w, HDR)
                break
        else:
            ck.ok('constructor reads the model', None, HDR, '%s: call of the parser not found' % c)
    if roles is None:
        return
    m = module()
    off = lambda fnn: m.fn(fnn).retval()
    mc = off('drv_omcs')
    if not (isP(mc) and mc[1] == ('arg', 'p')):
        raise AnalysisError('stokes_coeffs() does not return a member')
    mo = mc[2]
    deg, order = off('drv_odeg'), off('drv_oord')
    S = Stokes()
    pre = lambda k: A('ld', ('arg', 'p'), mo + S.f[k][0], S.f[k][1], None)
    objs = {X: (S.sh, 'p', mo + d, 'live', 'live') for X, d in (('C', S.dC), ('S', S.dS))}
    objs.update({k: (S.sh, 'p', R(o), 'live', 'live') for k, o in zip(('AR', 'AI', 'BR', 'BI'), roles)})
    rows = {k: S.sh.pre('p', o[2]).rows for k, o in objs.items()}
    sd = pre('deg')
    cond = [ge(order, 0), le(order, deg), le(deg, MAXDEG), ge(sd, deg), ge(rows['C'], sd + 1), ge(rows['S'], sd + 1), le(sd, MAXDEG)]
    cond += [ge(rows[k], deg + 1) for k in ('AR', 'AI', 'BR', 'BI')]
    n, mm = A('arg', 'n'), A('arg', 'm')
    if which == 'given':
        cond += [ge(n, 0), ge(mm, 0)]
        N, M = n, mm
        fits = [le(mm, n), le(n, deg), le(mm, order)]
    else:
        cond += [lt(n, 0), lt(mm, 0)]
        N, M = deg, order
        fits = []
    op = Op(m, 'drv_ogeo', objs, cond)
    f = op.f
    ck.analysed(f.name)
    op.c = Contents(f, allocas=True)
    rv = f.retval()
    tag = 'expansion (%s degree and order)' % which
    if which == 'given':
        for nm, bad in (('order exceeds degree', gt(mm, n)), ('degree exceeds the model', gt(n, deg)), ('order exceeds the model', gt(mm, order))):
            ck.holds('%s: refused when %s' % (tag, nm), op.base + [bad], Not(eq0(rv)), GEO)
            fs = op.base + [bad]
            for e in f.events():
                if e.kind == 'store' and isP(e.ptr) and e.ptr[1][0] == 'ld':
                    v = decide_s(fs, e.cond)
                    ck.ok('%s: nothing changes when %s' % (tag, nm), True if v is False or contradictory(fs + [e.cond]) else None if v is None else False, e.loc)
    ck.holds('%s: accepted' % tag, op.base + fits, eq0(rv), GEO)
    (m1, m2) = coords()[1]
    fr, fi = factors(m1, m2)
    p = {'G': A('arg', 'G'), 'ge': A('arg', 'ge')}
    K = ocean_k(p) * A('arg', 'om') ** 2 * pre('Re') ** 4 / pre('GM')
    kn = love()
    r, C_ = A('sym', 'r'), A('sym', 'c')
    op.bounds(ck, tag, GEO)
    for fs in op.cases:
        fs = fs + fits
        if contradictory(fs):
            continue
        for X, (re, im) in (('C', ('AR', 'AI')), ('S', ('BR', 'BI'))):
            pv = op.pre[X]
            for lbl, c, d in (('requested, order 0', R(0), [ge(r, 0), le(r, N)]), ('requested', C_, [ge(C_, 1), le(C_, r), le(r, N), le(C_, M)]), ('above degree', C_, [ge(C_, 0), le(C_, r), gt(r, N), le(r, sd)]), ('above order', C_, [gt(C_, M), le(C_, r), le(r, sd)])):
                dom = element_dom(fs + [x for x in d if x is not True], list(op.pre.values()), r, c)
                if contradictory(dom):
                    continue
                got = R(op.c.at(pv.data[1], pv, r, c, dom))
                g = simplify(got, dom)
                nm = '%s: coefficients %s, %s' % (tag, X, lbl)
                if 'requested' not in lbl:
                    ck.eq(nm, dom, g, R(0), GEO)
                    continue
                el = lambda k: A('ld', op.pre[k].data[1], op.pre[k].idx(r, c), 'double', None)
                w = simplify(K / (2 * r + 1) * (el(re) * fr + el(im) * fi), dom)
                (ra,) = r.atoms()
                bad = [k for k in range(MAXDEG + 1) if not near(at_degree(m, g, r, k), at_degree(m, w * (1 + R(kn[k])), r, k), 2e-13)]
                if not bad:
                    ck.ok(nm, True, GEO)
                else:
                    k = bad[0]
                    gk, wk = at_degree(m, g, r, k), at_degree(m, w * (1 + R(kn[k])), r, k)
                    if set(gk.n.t) == set(wk.n.t) and set(gk.d.t) == set(wk.d.t):
                        # the same terms with other coefficients
                        same(ck, '%s (degree %s)' % (nm, bad[:5]), gk, wk, GEO, rel=2e-13)
                        continue
                    dk = [fsubst(x, lambda a: R(k) if a == ra else None) for x in dom]
                    dk = [x for x in dk if x is not True]
                    if False not in dk and not contradictory(dk):
                        ck.eq('%s (degree %s)' % (nm, bad[:5]), dk, gk, wk, GEO)


def eq0(rv):
    return eq(R(rv), 0)


def love():
    """load deformation coefficients k'_n"""
    return [Fr(x[1]) for x in spec('love_kn.txt')]


def at_degree(m, v, r, k):
    """the expression at degree k, with constant tables of the library looked up"""
    (ra,) = r.atoms()

    def fa(a):
        if a == ra:
            return R(k)
        d = atom_desc(a)
        if d[0] == 'ld' and d[1][0] == 'glob':
            off = subst_rat(d[2], lambda x: R(k) if x == ra else None)
            g = m.globals.get(d[1][1])
            if g and g['const'] and off.is_const():
                gm, zr, has, _ = m.gmem(d[1][1])
                o = int(off.cval())
                if o in gm:
                    from engine.vf import cval
                    return cval(gm[o][1])
                if any(x <= o < y for x, y in zr):
                    return R(0)
        return None
    return subst_rat(v, fa)
