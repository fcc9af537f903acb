"""Shared pieces of the tide checks."""
from fractions import Fraction as Fr
from engine.alg import R, A, Rat, Poly, atom_desc, subst_rat, deep_atoms
from engine.fold import trig
from engine.trig import expmap, diff
from .eopops import TWOPI, AS, ld, epoch, horner, strip_turns

GMST = ('0.014506', '4612.156534', '1.3915817', '-0.00000044', '-0.000029956', '-0.0000000368')


def gmst(tt, ut1):
    """Greenwich mean sidereal time (IAU 2006), as decided by P14"""
    u, e = epoch(ut1), epoch(tt)
    return R(TWOPI) * (R(Fr('0.7790572732640')) + R(Fr('1.00273781191135448')) * u['days']) + horner(GMST, e['cy']) * R(AS)


def doodson(f, g):
    """tau, s, h, p, N', ps from the Delaunay arguments l, l', F, D, Om and sidereal time"""
    l, lp, F, D, Om = f
    s = F + Om
    h = s - D
    return [g + R(TWOPI) / 2 - s, s, h, s - l, -Om, h - lp]


def delaunay(base='f'):
    return [ld(base, 8 * i) for i in range(5)]


def crd(b):
    """r, latitude, longitude of the position in array b"""
    return [A('sym', '%s_%s' % (k, b)) for k in ('r', 'lat', 'lon')]


def unit(b):
    _, la, lo = crd(b)
    c = trig('cos', la)
    return [c * trig('cos', lo), c * trig('sin', lo), trig('sin', la)]


def usquares(x, u):
    """u2^2 = 1 - u0^2 - u1^2"""
    ids = {next(iter(u[b][2].atoms())): b for b in u}
    out = R(0)
    for m, c in x.n.t.items():
        t = R(c)
        for a, p in m:
            b = ids.get(a)
            if b is not None and p >= 2:
                t = t * (1 - u[b][0] ** 2 - u[b][1] ** 2) ** (p // 2) * u[b][2] ** (p % 2)
            else:
                t = t * Rat(Poly({((a, p),): Fr(1)}))
        out = out + t
    return out


def usyms(bases):
    return {b: [A('sym', 'u%d_%s' % (i, b)) for i in range(3)] for b in bases}


def positions(bases):
    """initial memory and library calls for positions in the arrays `bases`: distance
    times unit vector, so cartesian and spherical forms of the code come out alike"""
    u = usyms(bases)
    mem = {('arg', b): {8 * i: (crd(b)[0] * u[b][i], 8) for i in range(3)} for b in bases}

    def which(v):
        for b in bases:
            if all((x - crd(b)[0] * y).is_zero() for x, y in zip(v, u[b])):
                return b
        for b in bases:
            if all((x - y).is_zero() for x, y in zip(v, u[b])):
                return b + '!'
        return None

    def sph(k):
        def h(f, I, v):
            b = which(v)
            if b is None:
                return A('fn', ('vfn_sph_r', 'vfn_sph_lat', 'vfn_sph_lon')[k], tuple(v))
            return R(1) if b[-1] == '!' and k == 0 else crd(b.rstrip('!'))[k]
        return h

    squares = lambda x: usquares(x, u)

    def sqrt(x):
        from engine.alg import fn
        x = R(x)
        if not Rat(x.d).is_poly() or not set(x.atoms()) & {a for b in bases for y in u[b] + crd(b)[:1] for a in y.atoms()}:
            return None
        den = Rat(x.d)
        y = squares(Rat(x.n))
        for b in [None] + list(bases):
            z, extra = y, R(1)
            if b is not None:
                w = (Rat(y.n) / (u[b][0] ** 2 + u[b][1] ** 2))
                if not w.is_poly():
                    continue
                z, extra = w, trig('cos', crd(b)[1])
            z = z / den
            if len(z.n.t) == 1 and len(z.d.t) == 1:
                q = R(1)
                ok = True
                for part, sg in ((z.n, 1), (z.d, -1)):
                    (m, c), = part.t.items()
                    ok = ok and all(p % 2 == 0 for _, p in m)
                    if ok:
                        q = q * (fn('sqrt', R(c)) * Rat(Poly({tuple((a, p // 2) for a, p in m): Fr(1)}))) ** sg
                if ok:
                    return q * extra
        return None
    h = {'vfn_sph_' + k: sph(i) for i, k in enumerate(('r', 'lat', 'lon'))}
    h['#sqrt'] = sqrt
    return mem, h


def spherical(v, bases):
    """unit vectors in spherical coordinates; tests for a vanishing vector resolved"""
    u = usyms(bases)

    def sign(x):
        y = usquares(Rat(x.n), u)
        if len(y.n.t) != 1 or len(x.d.t) != 1:
            return None
        s = 1
        for p in (y.n, x.d):
            (m, c), = p.t.items()
            if any(atom_desc(a)[0] != 'sym' or atom_desc(a)[1][:2] != 'r_' for a, _ in m):
                return None
            s *= 1 if c > 0 else -1
        return s

    def cond(c):
        if c in (True, False):
            return c
        k = c[0]
        if k in ('flt', 'feq'):
            s = sign(c[1])
            return None if s is None else s < 0 if k == 'flt' else False
        if k == 'not':
            v = cond(c[1])
            return None if v is None else not v
        if k in ('and', 'or'):
            vs = [cond(x) for x in c[1]]
            hit = k == 'or'
            return hit if hit in vs else None if None in vs else not hit
        return None

    def fa(a):
        d = atom_desc(a)
        if d[0] == 'sym' and d[1][0] == 'u' and d[1][1] in '012' and d[1][3:] in bases:
            return unit(d[1][3:])[int(d[1][1])]
        if d[0] == 'ite':
            c = cond(d[1])
            if c is not None:
                return subst_rat(R(d[2] if c else d[3]), fa)
        return None
    return subst_rat(R(v), fa)


def constroots(r):
    """square roots of constants as (rounded) numbers"""
    def fa(a):
        d = atom_desc(a)
        if d[0] == 'sqrt' and R(d[1]).is_const():
            from math import isqrt
            c = R(d[1]).cval()
            return R(Fr(isqrt(c.numerator * c.denominator << 160), c.denominator << 80))
        return None
    return subst_rat(R(r), fa)


def angles(v, syms=(), turn=TWOPI):
    """sines and cosines with canonical arguments: whole turns dropped, quarter turns
    resolved, the angles `syms` = [(name, polynomial)] as symbols"""
    memo = {}

    def canon(x):
        x = strip_turns(x, turn)
        if not x.is_poly():
            return x
        for nm, p in syms:
            key = max((m for m in p.n.t if m), key=lambda m: (len(m) == 1 and m[0][1] == 1, abs(p.n.t[m])))
            k = round(float(x.n.t.get(key, 0) / p.n.t[key]))
            # an angle that advances by about a whole turn per unit of an integer input
            # may have been stripped of those turns: the other rates decide
            ks = [float(x.n.t.get(m, 0) / c) for m, c in p.n.t.items() if len(m) == 1 and m[0][1] == 1 and atom_desc(m[0][0])[3] == 'double']
            if ks:
                k = round(max(ks, key=abs))
            if not k:
                continue
            t = dict(x.n.t)
            for m, c in p.n.t.items():
                d = t.get(m, 0) - k * c
                whole = not m or (len(m) == 1 and m[0][1] == 1 and atom_desc(m[0][0])[3] == 'i32')
                if whole:
                    d -= round(d / turn) * turn
                if abs(d) <= 1e-13 * abs(k * c) or whole and abs(d) < 1e-12:
                    t.pop(m, None)
                else:
                    t[m] = d
            x = Rat(Poly({m: c for m, c in t.items() if c})) + k * A('sym', nm)
        return x

    def fa(a):
        d = atom_desc(a)
        if d[0] != 'fn' or d[1] not in ('sin', 'cos'):
            return None
        if a not in memo:
            x = canon(R(d[2][0]))
            c = x.n.t.get((), Fr(0)) if x.is_poly() else 0
            q = round(float(c / turn) * 4)
            if q and abs(float(c / turn) * 4 - q) < 1e-12:
                x = x - R(c)
            else:
                q = 0
            s, k = trig('sin', x), trig('cos', x)
            memo[a] = {'sin': (s, k, -s, -k), 'cos': (k, -s, -k, s)}[d[1]][q % 4]
        return memo[a]
    return subst_rat(R(v), fa)


def tide(ck, name, got, want, loc, bases=(), rel=1e-11, floor=0.0, syms=()):
    """obligation: equal as trigonometric polynomials in exact real arithmetic"""
    v = []
    for x in (got, want):
        x = angles(x, syms)
        v.append(constroots(spherical(x, bases) if bases else x))
    g, w = v
    if not (g.is_poly() and w.is_poly()):
        g, w = cleared(g, w)
    a, b = expmap(g), expmap(w)
    if a is None or b is None:
        return ck.ok(name, None, loc, 'value is not a trigonometric polynomial: %s' % str(got)[:300])
    bad = [k for m in a for k, _ in m[0] if atom_desc(k)[0] not in ('arg', 'ld', 'sym')]
    bad += [x for m in a for mm, _ in m[1] for x, _ in mm if atom_desc(x)[0] not in ('arg', 'ld', 'sym')]
    d = diff(a, b, rel, floor)
    if d and undefs(got):
        return ck.ok(name, False, loc, 'the value depends on uninitialised memory: %s' % str(got)[:300])
    if d and bad:
        return ck.ok(name, None, loc, 'value contains unresolved parts: %s' % '; '.join(d)[:600])
    ck.ok(name, not d, loc, '; '.join(d)[:900])


def undefs(v):
    return [a for a in deep_atoms(R(v)) if atom_desc(a)[0] == 'undef']


def cleared(g, w):
    """numerators over a common denominator"""
    if (Rat(g.d) - Rat(w.d)).is_zero():
        return Rat(g.n), Rat(w.n)
    q = Rat(w.d) / Rat(g.d)
    return Rat(g.n) * Rat(q.n), Rat(w.n) * Rat(q.d)
