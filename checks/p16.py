"""P16: composition of the celestial-to-terrestrial rotation."""
from engine import build
from engine.alg import R, A, Rat, Poly, atom_desc, fn, subst_rat, deep_atoms
from engine.fold import fold, trig
from engine.trig import expmap, diff
from engine.vf import P, isP
from .eopops import STUB, AS, same, witness, epoch, Fr, ld, near

ER = 'src/lib/earth_rotation/'
HDR = 'include/earth_rotation.hpp'
H = R(Fr(1, 2))


# ---- reference algebra: quaternions and matrices over symbolic angles
def qmul(p, q):
    a, b, c, d = p
    e, f, g, h = q
    return [a * e - b * f - c * g - d * h, a * f + b * e + c * h - d * g, a * g - b * h + c * e + d * f, a * h + b * g - c * f + d * e]


def qrot(angle, ax):
    v = [trig('cos', angle * H), R(0), R(0), R(0)]
    v[1 + ax] = trig('sin', angle * H)
    return v


def chain(*qs):
    r = qs[0]
    for q in qs[1:]:
        r = qmul(r, q)
    return r


def qmat(q):
    w, x, y, z = q
    return [[w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y)],
            [2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x)],
            [2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z]]


def mmul(a, b):
    return [[sum((a[i][k] * b[k][j] for k in range(3)), R(0)) for j in range(3)] for i in range(3)]


def mrot(angle, ax):
    """matrix of qrot(angle, ax)"""
    c, s = trig('cos', angle), trig('sin', angle)
    m = [[R(0)] * 3 for _ in range(3)]
    j, k = (ax + 1) % 3, (ax + 2) % 3
    m[ax][ax] = R(1)
    m[j][j] = m[k][k] = c
    m[j][k], m[k][j] = -s, s
    return m


def mchain(*ms):
    r = ms[0]
    for m in ms[1:]:
        r = mmul(r, m)
    return r


D, E = A('sym', 'd'), A('sym', 'e')


def inverse_sph(X, Y):
    """recognise the spherical angles of the pole (X, Y): returns a rewriting that
    names them d and e (algebraic criterion on the argument of the inverse function)"""
    r2 = X * X + Y * Y

    def unsq(u):
        """u^2 with opaque square roots resolved"""
        def f(a):
            return None
        u = R(u)
        s = u * u
        for _ in range(4):
            ch = False
            for part in (0, 1):
                p = s.d if part else s.n
                out = Rat(Poly({}))
                for mono, c in p.t.items():
                    t = R(c)
                    for a, k in mono:
                        d = atom_desc(a)
                        if d[0] == 'fn' and d[1] == 'sqrt' and k >= 2:
                            t = t * d[2][0] ** (k // 2)
                            k = k % 2
                            ch = True
                        if k:
                            t = t * Rat(Poly({((a, k),): Fr(1)}))
                    out = out + t
                s = (s * Rat(s.d) / out) if part else (out / Rat(s.d))
            if not ch:
                break
        return s

    def rew(a):
        d = atom_desc(a)
        if d[0] == 'ite':
            hi, lo, c = d[2], d[3], d[1]
            for x, y, pos in ((hi, lo, True), (lo, hi, False)):
                if is_e(x) and y.is_zero() and _cond(c, r2, pos):
                    return E
            return None
        if d[0] != 'fn':
            return None
        if is_e(Rat(Poly.atom(a))):
            return E
        tgt = None
        if d[1] == 'atan':
            tgt, u = r2 / (1 - r2), d[2][0]
        elif d[1] == 'asin':
            tgt, u = r2, d[2][0]
        elif d[1] == 'acos':
            tgt, u = 1 - r2, d[2][0]
        elif d[1] == 'atan2':
            tgt, u = r2 / (1 - r2), d[2][0] / d[2][1]
        else:
            return None
        s = unsq(u)
        if s.eq(tgt):
            return D if not _negated(u) else -D
        return None

    def is_e(v):
        v = R(v)
        if not (v.is_poly() and len(v.n.t) == 1):
            return False
        (m, c), = v.n.t.items()
        d = atom_desc(m[0][0]) if len(m) == 1 and m[0][1] == 1 and c == 1 else ('',)
        if d[0] != 'fn' or d[1] != 'atan2':
            return False
        p, q = d[2]
        # atan2(kY, kX) with k > 0 constant
        if not (p * X - q * Y).is_zero():
            return False
        k = p / Y
        return k.is_const() and k.cval() > 0
    return lambda v: subst_rat(R(v), rew)


def _cond(c, r2, pos):
    """condition equivalent to r2 > 0 (or to r2 <= 0 for pos=False)"""
    if isinstance(c, tuple) and c[0] == 'not':
        return _cond(c[1], r2, not pos)
    if isinstance(c, tuple) and c[0] == 'flt':
        k = c[1] / r2
        return k.is_const() and pos and k.cval() < 0
    if isinstance(c, tuple) and c[0] == 'feq':
        k = c[1] / r2
        return k.is_const() and not pos
    return False


def _negated(u):
    # single positive root over a positive denominator: the sign is the sign of the coefficient
    if len(u.n.t) == 1:
        (m, c), = u.n.t.items()
        return c < 0 and not any(True for _ in [] if m)
    return False


def nice(v, X, Y):
    """X, Y as components of the unit pole, and sqrt(2(1+cos d)) = 2 cos(d/2)"""
    v = R(v)

    def f(a):
        d = atom_desc(a)
        if d[0] == 'fn' and d[1] == 'sqrt':
            u = d[2][0]
            # k (1 + cos d)
            k = u / (1 + trig('cos', D))
            if k.is_const() and k.cval() > 0:
                from engine.alg import rsqrt
                return rsqrt(R(2 * k.cval())) * trig('cos', D * H)
        return None
    return subst_rat(v, f)


def pole(X, Y):
    sx, cx = trig('sin', D) * trig('cos', E), trig('sin', D) * trig('sin', E)
    xs, ys = list(X.atoms()), list(Y.atoms())
    return sx, cx


def equal_rat(a, b):
    a, b = R(a), R(b)
    l, r = Rat(a.n) * Rat(b.d), Rat(b.n) * Rat(a.d)
    x, y = expmap(l), expmap(r)
    if x is None or y is None:
        return None, ''
    d = diff(x, y, 1e-12, 1e-13)
    return not d, '; '.join(d)[:500]


def verdict(ck, name, pairs, loc, ranges=None):
    """all pairs equal as functions"""
    for a, b in pairs:
        ok, why = equal_rat(a, b)
        if ok is True:
            continue
        w = witness(a, b, ranges or (lambda d: (-.4, .4)))
        return ck.ok(name, False if w else None, loc, '%s %s' % (w, why))
    ck.ok(name, True, loc)


def quat_equal(q, w):
    """q == w or q == -w component by component"""
    for sg in (1, -1):
        if all(equal_rat(a, sg * b)[0] is True for a, b in zip(q, w)):
            return True
    return False


def same_rotation(ck, name, q, want, loc):
    if quat_equal(q, want):
        return ck.ok(name, True, loc)
    ok = []
    for i in range(4):
        for j in range(i, 4):
            ok.append((q[i] * q[j], want[i] * want[j]))
    verdict(ck, name, ok, loc)


def run(ck):
    ck.rule('composition', 'ITRS = R1(-yp) R2(-xp) R3(s\') R3(ERA) R3(-(E+s)) R2(d) R3(E) GCRS, E, d the polar angles of (X, Y); compared as rotations')
    ck.rule('arguments', 'X, Y series at TT give s; dX, dY are added afterwards; ERA at UT1; all angles converted from arcseconds')
    ck.rule('partial', 'the derivative matrix is W * dR3(ERA)/dt * Q^T with omega from LOD')
    m = build.linked('rot.cpp', build.sources('earth_rotation/*.cpp'), flags=STUB)
    ck.par(lambda c, n: globals()['g_' + n](c, m), ['sph', 'parts', 'q7', 'top_c2i', 'top_c2idm', 'top_bz', 'top_pq'])
    ck.assumptions += ['exact reals; X^2+Y^2 < 1', 'quaternion q and -q are the same rotation', 'series values as in P15, ERA and s\' as in P14; unit conversions as in stubs/']


def out(f, n, base=0):
    return [f.result(('arg', 'o'), 8 * (base + i)) for i in range(n)]


OPQ = {'#opaque_sqrt': 1}


def g_sph(ck, m):
    X, Y = A('arg', 'x'), A('arg', 'y')
    f = fold(m, 'drv_sph', handlers=OPQ)
    ck.analysed(f.name)
    sph = inverse_sph(X, Y)
    d, e = [sph(v) for v in out(f, 2)]
    r2 = X * X + Y * Y
    rd = A('fn', 'atan', (A('fn', 'sqrt', (r2 / (1 - r2),)),))
    re = A('fn', 'atan2', (Y, X))
    for nm, v, s, ref in (('d', d, D, rd), ('E', e, E, re)):
        ok = v == s
        if not ok:
            w = witness(out(f, 2)[0 if nm == 'd' else 1], ref, lambda q: (-.4, .4))
            ok = False if w else None
        ck.ok('polar angle %s of the pole' % nm, ok, HDR, 'found %s' % (v,))


def g_parts(ck, m):
    era, s, sp, d, e, xp, yp = [A('arg', k) for k in ('era', 's', 'sp', 'd', 'e', 'xp', 'yp')]
    f = fold(m, 'drv_c2i7')
    ck.analysed(f.name)
    w = chain(qrot(yp, 0), qrot(xp, 1), qrot(-sp, 2), qrot(-era, 2), qrot(e + s, 2), qrot(-d, 1), qrot(-e, 2))
    same_rotation(ck, 'GCRS to ITRS from angles', out(f, 4), w, HDR)
    f = fold(m, 'drv_c2t')
    ck.analysed(f.name)
    same_rotation(ck, 'GCRS to TIRS from angles', out(f, 4), chain(qrot(-era, 2), qrot(e + s, 2), qrot(-d, 1), qrot(-e, 2)), HDR)
    f = fold(m, 'drv_t2i')
    ck.analysed(f.name)
    same_rotation(ck, 'TIRS to ITRS from angles', out(f, 4), chain(qrot(yp, 0), qrot(xp, 1), qrot(-sp, 2)), HDR)
    f = fold(m, 'drv_dR')
    ck.analysed(f.name)
    om = A('arg', 'w')
    want = [-trig('sin', era) * om, trig('cos', era) * om, R(0), -trig('cos', era) * om, -trig('sin', era) * om, R(0), R(0), R(0), R(0)]
    verdict(ck, 'rate of the Earth rotation matrix', list(zip(out(f, 9), want)), HDR)
    # C in three forms
    X, Y = A('arg', 'x'), A('arg', 'y')
    sph = inverse_sph(X, Y)
    qc = chain(qrot(s + E, 2), qrot(-D, 1), qrot(-E, 2))
    f = fold(m, 'drv_C', handlers=OPQ)
    ck.analysed(f.name)
    mc = mchain(mrot(s + E, 2), mrot(-D, 1), mrot(-E, 2))
    pairs = [(clean(v, sph, X, Y), mc[i // 3][i % 3]) for i, v in enumerate(out(f, 9))]
    verdict_w(ck, 'celestial motion matrix', pairs, HDR, out(f, 9), X, Y)
    f = fold(m, 'drv_Cq', handlers=OPQ)
    ck.analysed(f.name)
    q = out(f, 4)
    qq = [clean(v, sph, X, Y) for v in q]
    prs = [] if quat_equal(qq, qc) else [(qq[i] * qq[j], qc[i] * qc[j]) for i in range(4) for j in range(i, 4)]
    verdict_w(ck, 'celestial motion quaternion (closed form)', prs, HDR, [q[i] * q[j] for i in range(4) for j in range(i, 4)], X, Y)
    f = fold(m, 'drv_Crxy')
    ck.analysed(f.name)
    a = H + (X * X + Y * Y) / 8
    PN = [[1 - a * X * X, -a * X * Y, -X], [-a * X * Y, 1 - a * Y * Y, -Y], [X, Y, 1 - a * (X * X + Y * Y)]]
    c, sn = trig('cos', s), trig('sin', s)
    want = mmul([[c, -sn, R(0)], [sn, c, R(0)], [R(0), R(0), R(1)]], PN)
    verdict(ck, 'celestial motion matrix (X, Y expansion)', [(v, want[i // 3][i % 3]) for i, v in enumerate(out(f, 9))], HDR)


def clean(v, sph, X, Y):
    v = sph(v)
    v = nice(v, X, Y)
    # the pole's components in terms of its polar angles (only free occurrences)
    sx, sy = trig('sin', D) * trig('cos', E), trig('sin', D) * trig('sin', E)
    sub = {}
    for z, w in ((X, sx), (Y, sy)):
        a = single(z)
        if a is not None:
            sub[a] = w
    return nice(subst_rat(R(v), lambda x: sub.get(x)), X, Y)


def single(z):
    if z.is_poly() and len(z.n.t) == 1:
        (m, c), = z.n.t.items()
        if len(m) == 1 and m[0][1] == 1 and c == 1:
            return m[0][0]
    return None


def verdict_w(ck, name, pairs, loc, raw, X, Y, ranges=None):
    """like verdict; a mismatch is confirmed on the original expressions"""
    for (a, b), r in zip(pairs, raw):
        ok, why = equal_rat(a, b)
        if ok is True:
            continue
        r2 = X * X + Y * Y
        rd = A('fn', 'atan', (A('fn', 'sqrt', (r2 / (1 - r2),)),))
        re = A('fn', 'atan2', (Y, X))
        ref = subst_rat(b, lambda x: rd if R(D) == Rat(Poly.atom(x)) else re if R(E) == Rat(Poly.atom(x)) else None)
        w = witness(r, ref, ranges or (lambda d: (-.4, .4)))
        return ck.ok(name, False if w else None, loc, '%s %s' % (w, why))
    ck.ok(name, True, loc)


def g_q7(ck, m):
    era, s, sp, xp, yp, X, Y = [A('arg', k) for k in ('era', 's', 'sp', 'xp', 'yp', 'x', 'y')]
    f = fold(m, 'drv_q7', handlers=OPQ)
    ck.analysed(f.name)
    sph = inverse_sph(X, Y)
    q = out(f, 4)
    qq = [clean(v, sph, X, Y) for v in q]
    w = chain(qrot(yp, 0), qrot(xp, 1), qrot(-sp - era + s + E, 2), qrot(-D, 1), qrot(-E, 2))
    if quat_equal(qq, w):
        return ck.ok('closed-form quaternion equals the rotation chain', True, ER + 'c2i06abz.cpp')
    prs = [(qq[i] * qq[j], w[i] * w[j]) for i in range(4) for j in range(i, 4)]
    verdict_w(ck, 'closed-form quaternion equals the rotation chain', prs, ER + 'c2i06abz.cpp', [q[i] * q[j] for i in range(4) for j in range(i, 4)], X, Y)


def top(ck, m, n, loc):
    """fold an entry point with the series functions replaced by named values"""
    X0, Y0, S, ERA = [A('sym', k) for k in ('X', 'Y', 'S', 'ERA')]
    fa = [A('sym', 'fa%d' % k) for k in range(14)]
    e, p = ('arg', 'e'), ('arg', 'p')
    acc = {k: fold(m, 'drv_eop_' + k).ret for k in ('xp', 'yp', 'dX', 'dY', 'dut', 'lod')}

    def is_tt(a):
        return isP(a) and a[1] == e and a[2].is_zero()

    def epoch_of(f, a):
        return f.load(a, 'i32'), f.load(P(a[1], a[2] + 8), 'double')

    def ttsame(f, a):
        d, s = epoch_of(f, a)
        return near(d, ld('e', 0, 'i32')) and near(s, ld('e', 8))

    def xy(f, I, a):
        ck.ok('%s: pole series evaluated at the TT epoch' % n, ttsame(f, a[0]), loc)
        f.store(a[1], X0, 8)
        f.store(a[2], Y0, 8)
        if len(a) > 3 and isP(a[3]) and a[3][1] != ('null',):
            for k in range(14):
                f.store(P(a[3][1], a[3][2] + 8 * k), fa[k], 8)
        return R(0)

    def s4(f, I, a):
        ck.ok('%s: locator evaluated at the TT epoch' % n, ttsame(f, a[0]), loc)
        ck.ok('%s: locator uses the series X, Y' % n, near(a[1], X0) and near(a[2], Y0), loc, 'called with %s, %s' % (a[1], a[2]))
        if len(a) > 3:
            got = [f.load(P(a[3][1], a[3][2] + 8 * k), 'double') for k in range(14)]
            ck.ok('%s: locator reuses the arguments of the series' % n, got == fa, loc, str(got)[:200])
        return S

    def era(f, I, a):
        d, s = epoch_of(f, a[0])
        dut = acc['dut']
        want = (fn('vfn_ut1_day', ld('e', 0, 'i32'), ld('e', 8), dut), fn('vfn_ut1_sec', ld('e', 0, 'i32'), ld('e', 8), dut))
        ck.ok('%s: rotation angle at UT1 = TT shifted by the record\'s UT1-UTC' % n, d == want[0] and s == want[1], loc, 'called at %s, %s' % (d, s))
        return ERA
    h = dict(OPQ)
    E_ = 'RKNS_11TwoPartDateE'
    h.update({'_ZN3dso8xycip06aE%sRdS3_Pd' % E_: xy, '_ZN3dso5extra8xycip06aE%sRdS4_Pd' % E_: xy, '_ZN3dso3s06E%sddPKd' % E_: s4, '_ZN3dso3s06E%sdd' % E_: s4, '_ZN3dso5era00E%s' % E_: era})
    f = fold(m, 'drv_' + n, handlers=h)
    ck.analysed(f.name)
    k = R(AS)
    v = dict(xp=acc['xp'] * k, yp=acc['yp'] * k, X=X0 + acc['dX'] * k, Y=Y0 + acc['dY'] * k, s=S, era=ERA,
             sp=k * R(Fr('-47e-6')) * epoch('e')['cy'], lod=acc['lod'])
    return f, v


def rng(d):
    if d[0] == 'ld' and d[3] == 'i32':
        return (59000, 60000)
    if d[0] == 'ld':
        return (-9e3, 9e3)
    return (-.4, .4)


def finish(ck, f, v, name, q, w, loc):
    sph = inverse_sph(v['X'], v['Y'])
    qq = [sph(x) for x in q]
    # X, Y are sums here: name them
    xs, ys = A('sym', 'Xc'), A('sym', 'Yc')
    x0, y0 = single(A('sym', 'X')), single(A('sym', 'Y'))
    dx = v['X'] - A('sym', 'X')
    dy = v['Y'] - A('sym', 'Y')
    rn = lambda t: subst_rat(R(t), lambda a: xs - dx if a == x0 else ys - dy if a == y0 else None)
    qq = [clean(rn(t), lambda z: z, xs, ys) for t in qq]
    if quat_equal(qq, w):
        return ck.ok(name, True, loc)
    prs = [(qq[i] * qq[j], w[i] * w[j]) for i in range(4) for j in range(i, 4)]
    verdict_w(ck, name, prs, loc, [q[i] * q[j] for i in range(4) for j in range(i, 4)], v['X'], v['Y'], rng)


def full(v):
    return chain(qrot(v['yp'], 0), qrot(v['xp'], 1), qrot(-v['sp'] - v['era'] + v['s'] + E, 2), qrot(-D, 1), qrot(-E, 2))


def g_top_c2i(ck, m):
    loc = ER + 'c2i06a.cpp'
    f, v = top(ck, m, 'c2i', loc)
    finish(ck, f, v, 'c2i06a: rotation', out(f, 4), full(v), loc)


def g_top_bz(ck, m):
    loc = ER + 'c2i06abz.cpp'
    f, v = top(ck, m, 'bz', loc)
    finish(ck, f, v, 'c2i06a_bz: rotation', out(f, 4), full(v), loc)


def omega(v):
    return R(Fr('7.2921151467064e-5')) * (1 - v['lod'] / 86400)


def g_top_pq(ck, m):
    loc = ER + 'c2i06apq.cpp'
    f, v = top(ck, m, 'pq', loc)
    finish(ck, f, v, 'c2i06a: celestial to intermediate terrestrial', out(f, 4), chain(qrot(-v['era'] + v['s'] + E, 2), qrot(-D, 1), qrot(-E, 2)), loc)
    finish(ck, f, v, 'c2i06a: intermediate terrestrial to terrestrial', out(f, 4, 4), chain(qrot(v['yp'], 0), qrot(v['xp'], 1), qrot(-v['sp'], 2)), loc)
    for i, w in enumerate((R(0), R(0), omega(v))):
        same(ck, 'c2i06a: rotation vector %s' % 'xyz'[i], f.result(('arg', 'o'), 8 * (8 + i)), w, loc)


def g_top_c2idm(ck, m):
    loc = ER + 'c2i06a.cpp'
    f, v = top(ck, m, 'c2idm', loc)
    finish(ck, f, v, 'c2i06a with partials: rotation', out(f, 4), full(v), loc)
    W = mchain(mrot(v['yp'], 0), mrot(v['xp'], 1), mrot(-v['sp'], 2))
    Q = mchain(mrot(v['s'] + E, 2), mrot(-D, 1), mrot(-E, 2))
    o = omega(v)
    sn, cs = trig('sin', v['era']), trig('cos', v['era'])
    dR = [[-sn * o, cs * o, R(0)], [-cs * o, -sn * o, R(0)], [R(0)] * 3]
    want = mmul(mmul(W, dR), Q)
    sph = inverse_sph(v['X'], v['Y'])
    raw = out(f, 9, 4)
    verdict_w(ck, 'c2i06a with partials: derivative matrix', [(sph(x), want[i // 3][i % 3]) for i, x in enumerate(raw)], loc, raw, v['X'], v['Y'], rng)
