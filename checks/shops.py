"""Spherical-harmonics synthesis (Cunningham): shared setup of P08-P10."""
import math
from engine import build
from engine.alg import R, A, Rat, Poly, atom_desc, atom_id, subst_rat, deep_atoms, rsqrt
from engine.logic import lt, le, ge, gt, eq, And, Or, Not
from engine.vf import P, isP, ite, mm, AnalysisError
from engine.mat import Shape, Contents, locate
from engine.cases import simplify, prove
from engine.rec import Rec
from .stokesops import Stokes
LOC = 'src/lib/gravity/sh_cunningham_normalized_gradient.cpp'
MAXDEG = 198


def sq(x):
    return rsqrt(R(x))


def ldarg(b, o, t):
    return A('ld', ('arg', b), R(o), t, None)


def notnull(b):
    return Not(('b', ('isnull', ('arg', b))))


class SH:
    def __init__(self, extra=(), fname='drv_sh'):
        self.S = Stokes()
        self.m = build.driver('sh.cpp')
        sh = self.S.sh
        self.n, self.o = A('arg', 'n'), A('arg', 'm')
        self.x, self.y, self.z = [A('arg', k) for k in 'xyz']
        self.Re, self.GM = A('arg', 'Re'), A('arg', 'GM')
        self.W, self.M = sh.pre('w'), sh.pre('p')
        self.C, self.Sm = sh.pre('cs', self.S.dC), sh.pre('cs', self.S.dS)
        S = self.S
        pre = [ge(self.o, 0), le(self.o, self.n), le(self.n, S.pre('cs', 'deg')), le(self.o, S.pre('cs', 'ord')),
               notnull('w'), notnull('p'), ge(self.W.rows, self.n + 3), ge(self.M.rows, self.n + 3),
               ('not', ('flt', self.Re)), ('not', ('flt', self.GM)), le(self.n, MAXDEG)]
        self.pre = pre + list(extra)
        F = self.m.fn(fname)
        self.f = type(F)(self.m, self.m.fns[fname], assume=self.pre)
        inv = [ge(self.C.rows, S.pre('cs', 'deg') + 1), ge(self.Sm.rows, S.pre('cs', 'deg') + 1)]
        self.facts = [x for x in self.pre + inv + self.W.facts() + self.M.facts() + self.C.facts() + self.Sm.facts() if x is not True]
        self.c = Contents(self.f)
        self.c.hints = (self.o, self.o + 1, self.o + 2, self.o + 3)
        self._fac = {}

    # M, W at (r,c): initial-version loads (versions are stripped)
    def m_(self, r, c):
        return A('ld', self.M.data[1], self.M.idx(R(r), R(c)), 'double', None)

    def w_(self, r, c):
        return A('ld', self.W.data[1], self.W.idx(R(r), R(c)), 'double', None)

    def strip(self, r):
        bases = (self.M.data[1], self.W.data[1])

        def fa(a):
            d = atom_desc(a)
            if d[0] == 'ld' and d[1] in bases and d[4] is not None:
                return A('ld', d[1], subst_rat(d[2], fa), d[3], None)
            return None
        return subst_rat(r, fa)

    # factor tables
    def factor_views(self):
        """views of matrices owned by the static factor object, by data base"""
        if self._fac:
            return self._fac
        for e in self.f.events():
            if e.kind == 'store' and isP(e.ptr) and e.ptr[1][0] in ('glob', 'alloca') and isP(e.val) and e.val[1][0] == 'new':
                g, off = e.ptr[1], e.ptr[2] - self.S.sh.off_data
                fin = lambda o, ty: self.f.final(P(g, off + o), ty)
                try:
                    v = self.S.sh.view(fin)
                    if isP(v.data):
                        self._fac[v.data[1]] = v
                except Exception:
                    continue
        return self._fac

    def resolve(self, val, facts):
        """replace reads of factor tables by what their constructor stored"""
        fv = self.factor_views()
        for _ in range(3):
            todo = {}
            for a in deep_atoms(val):
                d = atom_desc(a)
                if d[0] == 'ld' and d[1] in fv:
                    v = fv[d[1]]
                    vs = sorted({x for x in deep_atoms(d[2])})
                    vs = [Rat(Poly.atom(x)) for x in vs if atom_desc(x)[0] in ('sym', 'iv', 'arg')]
                    cands = vs + [x + k for x in vs for k in (1, 2, 3, -1)] + [x + y + k for i, x in enumerate(vs) for y in vs[:i] for k in (0, 1, 2, 3)] + [R(k) for k in range(4)]
                    for r, c in locate(v, simplify(d[2], facts), cands, facts):
                        if all(prove(facts, g) for g in v.stored(r, c) if g is not True):
                            todo[a] = self.c.at(d[1], v, r, c, facts)
                            break
                elif d[0] == 'ld' and d[1][0] == 'glob' and d[3] == 'double' and d[4] is not None:
                    x = self.c.at_off(d[1], d[2], d[2], R(0), facts)
                    if x is not None:
                        todo[a] = x
            if not todo:
                break
            val = subst_rat(val, lambda a: todo.get(a))
            val = simplify(val, facts)
        return val


def legendre_sin(n, m, s):
    """fully normalised P(n,m)(s), s = sin(latitude)"""
    u = math.sqrt(max(0.0, 1 - s * s))
    pmm = 1.0
    for k in range(1, m + 1):
        pmm *= u * (math.sqrt(3) if k == 1 else math.sqrt((2 * k + 1) / (2 * k)))
    if n == m:
        return pmm
    p0, p1 = pmm, math.sqrt(2 * m + 3) * s * pmm
    for j in range(m + 2, n + 1):
        a = math.sqrt((2 * j - 1) * (2 * j + 1) / ((j - m) * (j + m)))
        b = math.sqrt((2 * j + 1) * (j + m - 1) * (j - m - 1) / ((j - m) * (j + m) * (2 * j - 3)))
        p0, p1 = p1, a * s * p1 - b * p0
    return p1


def oracle(sh):
    """entries of M and W evaluate to the solid harmonics (Re/r)^(n+1) P cos/sin"""
    i, j = A('sym', '__i'), A('sym', '__j')
    ia, ja = [next(iter(x.atoms())) for x in (i, j)]
    ids = [next(iter(x.atoms())) for x in (sh.x, sh.y, sh.z, sh.Re)]
    tabs = [(sh.M, 'c', sh.M.idx(i, j)), (sh.W, 's', sh.W.idx(i, j))]

    memo = {}

    def inv(ev, v, k, ix):
        rows = ev.rat(v.rows)
        if (k, rows) not in memo:
            t = memo[k, rows] = {}
            for n in range(0, min(14, int(rows))):
                for m in range(0, n + 1):
                    env = dict(ev.env)
                    env[ia], env[ja] = n, m
                    t[type(ev)(env, None).rat(ix)] = (n, m)
        return memo[k, rows]

    def hook(ev, d):
        for v, k, ix in tabs:
            if d[1] == v.data[1] and d[3] == 'double':
                off = ev.rat(d[2])
                for n, m in [inv(ev, v, k, ix).get(off, (None, None))]:
                    if n is not None:
                        if True:
                            X, Y, Z, Re = [ev.atom(q) for q in ids]
                            r = math.sqrt(X * X + Y * Y + Z * Z)
                            lam = math.atan2(Y, X)
                            val = (Re / r) ** (n + 1) * legendre_sin(n, m, Z / r)
                            return val * (math.cos(m * lam) if k == 'c' else math.sin(m * lam))
        return None
    return hook


def acc_spec(sh, n, m, case):
    """coefficient of C(n,m) and S(n,m) in 2 Re^2/GM * acceleration"""
    f = sq((2 * n + 1) / (2 * n + 3))
    wm1 = sq((n - m + 1) * (n - m + 2)) * (sq(2) if case == 1 else 1)
    wm0 = sq((n - m + 1) * (n + m + 1))
    wp1 = sq((n + m + 1) * (n + m + 2))
    if case == 0:
        wp1 = wp1 / sq(2)
        return {'C': [-2 * wp1 * sh.m_(n + 1, 1) * f, -2 * wp1 * sh.w_(n + 1, 1) * f, -2 * wm0 * sh.m_(n + 1, 0) * f], 'S': [R(0)] * 3}
    Cm1, Sm1 = wm1 * sh.m_(n + 1, m - 1), wm1 * sh.w_(n + 1, m - 1)
    Cm0, Sm0 = wm0 * sh.m_(n + 1, m), wm0 * sh.w_(n + 1, m)
    Cp1, Sp1 = wp1 * sh.m_(n + 1, m + 1), wp1 * sh.w_(n + 1, m + 1)
    if case == 1:
        Sm1 = R(0)          # W(n,0) = 0
    return {'C': [(Cm1 - Cp1) * f, (-Sm1 - Sp1) * f, -2 * Cm0 * f], 'S': [(Sm1 - Sp1) * f, (Cm1 + Cp1) * f, -2 * Sm0 * f]}


def grad_spec(sh, n, m, case):
    """coefficients in 4 Re^3/GM * gradient: xx xy xz yy yz zz"""
    f = sq((2 * n + 1) / (2 * n + 5))
    q = lambda *a: sq(_prod(a))
    wm2 = q(n - m + 1, n - m + 2, n - m + 3, n - m + 4) * (sq(2) if case == 2 else 1)
    wm1 = q(n - m + 1, n - m + 2, n - m + 3, n + m + 1) * (sq(2) if case == 1 else 1)
    wm0 = q(n - m + 1, n - m + 2, n + m + 1, n + m + 2)
    wp1 = q(n - m + 1, n + m + 1, n + m + 2, n + m + 3)
    wp2 = q(n + m + 1, n + m + 2, n + m + 3, n + m + 4)
    M, W = sh.m_, sh.w_
    if case == 0:
        wp1, wp2 = wp1 / sq(2), wp2 / sq(2)
        Cm0, Cp1, Sp1, Cp2, Sp2 = wm0 * M(n + 2, 0), wp1 * M(n + 2, 1), wp1 * W(n + 2, 1), wp2 * M(n + 2, 2), wp2 * W(n + 2, 2)
        C = [-2 * Cm0 + 2 * Cp2, 2 * Sp2, 4 * Cp1, -2 * Cm0 - 2 * Cp2, 4 * Sp1, 4 * Cm0]
        S = [R(0)] * 6
    else:
        Cm1, Sm1 = wm1 * M(n + 2, m - 1), wm1 * W(n + 2, m - 1)
        Cm0, Sm0 = wm0 * M(n + 2, m), wm0 * W(n + 2, m)
        Cp1, Sp1 = wp1 * M(n + 2, m + 1), wp1 * W(n + 2, m + 1)
        Cp2, Sp2 = wp2 * M(n + 2, m + 2), wp2 * W(n + 2, m + 2)
        if case == 1:
            Sm1 = R(0)
            C = [-3 * Cm0 + Cp2, -Sm0 + Sp2, -2 * Cm1 + 2 * Cp1, -Cm0 - Cp2, 2 * Sp1, 4 * Cm0]
            S = [-Sm0 + Sp2, -Cm0 - Cp2, 2 * Sp1, -3 * Sm0 - Sp2, -2 * Cm1 - 2 * Cp1, 4 * Sm0]
        else:
            Cm2, Sm2 = wm2 * M(n + 2, m - 2), wm2 * W(n + 2, m - 2)
            if case == 2:
                Sm2 = R(0)
            C = [Cm2 - 2 * Cm0 + Cp2, -Sm2 + Sp2, -2 * Cm1 + 2 * Cp1, -Cm2 - 2 * Cm0 - Cp2, 2 * Sm1 + 2 * Sp1, 4 * Cm0]
            S = [Sm2 - 2 * Sm0 + Sp2, Cm2 - Cp2, -2 * Sm1 + 2 * Sp1, -Sm2 - 2 * Sm0 - Sp2, -2 * Cm1 - 2 * Cp1, 4 * Sm0]
    return {'C': [x * f for x in C], 'S': [x * f for x in S]}


def _prod(a):
    r = R(1)
    for x in a:
        r = r * x
    return r


def check_series(ck, sh, tag, offs, scale, spec):
    """offs: byte offset in the driver's output -> index into the spec vector"""
    from engine.series import Series, NotLinear
    from engine.report import opaque
    from engine.logic import contradictory
    hook = oracle(sh)
    hook = w0(sh, hook)
    bases = {'C': sh.C, 'S': sh.Sm}
    r, c = A('sym', 'r'), A('sym', 'c')

    def one(k, item):
        off, ix = item
        T = sh.f.final(P(('arg', 'o'), R(off)), 'double')
        name = '%s component at output %d' % (tag, off // 8)
        try:
            ser = Series(T, [v.data[1] for v in bases.values()], sh.c, sh.facts)
        except NotLinear as e:
            k.ok(name + ': is linear in the coefficients', None, LOC, str(e))
            return
        k.eq(name + ': no term without a coefficient', sh.facts, ser.rest, R(0), LOC)
        for X, v in bases.items():
            S = sh.S
            inb = [ge(c, 0), le(c, r), le(r, S.pre('cs', 'deg'))]
            regions = [(0, [eq(c, 0), le(r, sh.n), ge(r, 0)]), (1, [eq(c, 1), le(r, sh.n), le(c, sh.o), ge(r, 1)]),
                       (2, [eq(c, 2), le(r, sh.n), le(c, sh.o), ge(r, 2)]), (3, [ge(c, 3), le(c, sh.o), le(c, r), le(r, sh.n)]),
                       ('outside order', inb + [gt(c, sh.o)]), ('outside degree', inb + [gt(r, sh.n)])]
            for case, dom in regions:
                fd = sh.facts + [x for x in dom if x is not True]
                if contradictory(fd):
                    continue
                cc = R(case) if case in (0, 1, 2) else c
                got = ser.contribution(v.data[1], v, r, cc, fd)
                nm = '%s: coefficient of %s(n,m), %s' % (name, X, 'm=%s' % case if case in (0, 1, 2) else ('m>=3' if case == 3 else case))
                if got is None:
                    small(k, sh, ser, nm, v, X, case, ix, scale, spec, hook)
                    continue
                want = scale * spec(sh, r, cc, case)[X][ix] if isinstance(case, int) else R(0)
                if X == 'S' and case == 0:
                    # S(n,0) multiplies W(n,0)-type terms only: any value of them is irrelevant by
                    # convention S(n,0)=0, but the code must not use them
                    want = R(0)
                got = sh.resolve(simplify(got, fd), fd)
                got = zero_col(sh, sh.strip(got), fd)
                got = simplify(got, fd)
                rec_eq(k, nm, fd, got, zero_col(sh, R(want), fd), LOC, hook)
    ck.par(one, list(offs.items()))


def small(k, sh, ser, nm, v, X, case, ix, scale, spec, hook):
    """an entry several terms of one sum may read: its coefficient at given dimensions,
    every term of the sums enumerated; can only refute"""
    from engine.report import opaque
    from engine.evalx import refute
    from engine.logic import fsubst
    from engine.cases import sform
    from itertools import product
    dims = {sh.n: 4, sh.o: 3, sh.S.pre('cs', 'deg'): 5, sh.S.pre('cs', 'ord'): 4, sh.C.rows: 6, sh.Sm.rows: 6, sh.M.rows: 8, sh.W.rows: 8}
    env = {next(iter(x.atoms())): R(y) for x, y in dims.items() if not x.is_const()}
    sub = lambda x: subst_rat(R(x), lambda a: env.get(a))
    facts = [fsubst(x, lambda a: env.get(a)) for x in sh.facts]
    facts = [x for x in facts if x is not True]
    if False in facts:
        return k.ok(nm, None, LOC, 'entry access not identified')
    lo = case if isinstance(case, int) else {'outside order': 4, 'outside degree': 0}[case]
    for rr in ((5,) if case == 'outside degree' else (4, 3, 2, 1, 0)):
        for cc in ((lo,) if case in (0, 1, 2) else range(lo, min(rr, 3 if isinstance(case, int) else rr) + 1)):
            if cc > rr:
                continue
            at = sub(v.idx(R(rr), R(cc)))
            got = R(0)
            for d, p, co in ser.items:
                if d[1] != v.data[1]:
                    continue
                N = 24 if len(p.vars) == 1 else 9
                for vals in product(range(N), repeat=len(p.vars)):
                    e2 = dict(zip(p.vars, map(R, vals)))
                    f2 = lambda a: e2.get(a) or env.get(a)
                    dm = [sform(fsubst(x, f2), facts) for x in p.dom]
                    if False in dm or contradictory_(facts, dm):
                        continue
                    if any(x is not True for x in dm) or (vals and max(vals) == N - 1):
                        return k.ok(nm, None, LOC, 'entry access not identified')
                    df = subst_rat(R(p.off), f2) - at
                    df = simplify(df, facts)
                    if not df.is_const():
                        return k.ok(nm, None, LOC, 'entry access not identified')
                    if df.is_zero():
                        got = got + subst_rat(co, f2)
            want = R(0)
            if isinstance(case, int) and not (X == 'S' and case == 0):
                want = sub(scale * spec(sh, R(rr), R(cc), case)[X][ix])
            got = sh.resolve(simplify(got, facts), facts)
            got = simplify(zero_col(sh, sh.strip(sub(got)), facts), facts)
            want = simplify(zero_col(sh, want, facts), facts)
            if not opaque(got, want):
                w = refute(facts + [eq(x, y) for x, y in dims.items() if not x.is_const()], got, want, hook=hook, hi=6, limit=330)
                if w is not None:
                    return k.ok(nm, False, LOC, 'at degree 4, order 3, entry (%d,%d) | found: %s | required: %s | %s' % (rr, cc, str(got)[:300], str(want)[:300], w))
    k.ok(nm, None, LOC, 'entry access not identified')


def contradictory_(facts, dm):
    from engine.logic import contradictory
    return contradictory(facts + [x for x in dm if x not in (True, False)])


def zero_col(sh, r, fd):
    """W(n,0) = 0 (established by P09's column-0 obligation)"""
    base = sh.W.data[1]
    sub = {}
    for a in deep_atoms(r):
        d = atom_desc(a)
        if d[0] == 'ld' and d[1] == base:
            o = d[2]
            if prove(fd, And(ge(o, 0), lt(o, 8 * sh.W.rows))):
                sub[a] = R(0)
    return subst_rat(r, lambda a: sub.get(a)) if sub else r


def w0(sh, hook):
    return hook


def rec_eq(ck, name, facts, a, b, loc, hook):
    from engine.report import opaque, _cut
    from engine.cases import prove_eq
    from engine.evalx import refute
    a, b = simplify(a, facts), simplify(b, facts)
    if prove_eq(facts, a, b) is True:
        return ck.ok(name, True, loc)
    if not opaque(a, b):
        w = refute(facts, a, b, hook=hook, hi=6, limit=330)
        if w is not None:
            return ck.ok(name, False, loc, 'found: %s | required: %s | %s' % (_cut(a, 400), _cut(b, 400), w))
    ck.ok(name, None, loc, 'found: %s | required: %s' % (_cut(a), _cut(b)))
