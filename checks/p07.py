"""P07: normalised associated Legendre functions and their derivatives."""
import math
from engine import build
from engine.alg import R, A, fn, atom_desc, atom_id, subst_rat, rsqrt
from engine.logic import lt, le, ge, gt, eq, And, Not
from engine.vf import ite
from engine.mat import Shape, Contents
from engine.rec import Rec
from engine.cases import simplify
LOC = 'src/lib/gravity/forward_column_alf.cpp'


def sq(x):
    return rsqrt(R(x))


def run(ck):
    ck.rule('recurrence', 'each stored P(n,m) satisfies the fully normalised forward-column recurrence on its index region')
    ck.rule('order', 'each entry read was computed earlier; every (n,m), n<=max_degree, m<=max_order, is computed; writes stay inside the triangle')
    ck.rule('derivative', 'each stored dP(n,m) equals (n t P(n,m) - f(n,m) P(n-1,m))/u')
    m = build.driver('alf.cpp')
    sh = Shape(build.driver('matrix.cpp'), 'LwTriangularColWise')
    n_, m_, th = A('arg', 'n'), A('arg', 'm'), A('arg', 'theta')
    u, t = fn('cos', th), fn('sin', th)
    for d in ('alf', 'dalf'):
        f = m.fn('drv_' + d)
        ck.analysed(f.name)
        P = sh.pre('p')
        base = [ge(m_, 0), le(m_, n_), ge(P.rows, n_ + 1)] + P.facts()
        if d == 'dalf':
            D = sh.pre('o')
            base += [ge(D.rows, n_ + 1)] + D.facts()
        ck.eq(d + ': returns zero', base, f.retval(), R(0), LOC)
        c = Contents(f)
        c.hints = (m_, m_ + 1)
        rec = Rec(f, P, base, c)
        rec.hints = lambda: (m_, m_ + 1)
        a = lambda n, k: sq((2 * n - 1) * (2 * n + 1) / ((n - k) * (n + k)))
        b = lambda n, k: sq((2 * n + 1) * (n + k - 1) * (n - k - 1) / ((n - k) * (n + k) * (2 * n - 3)))

        def rhs(n, k, case):
            if case == 'diag0':
                return R(1)
            if case == 'diag1':
                return sq(3) * u
            if case == 'diag':
                return u * sq((2 * k + 1) / (2 * k)) * rec.at(n - 1, k - 1)
            if case == 'sub':
                return sq(2 * k + 3) * t * rec.at(k, k)
            return a(n, k) * t * rec.at(n - 1, k) - b(n, k) * rec.at(n - 2, k)
        CASES = {'diag0': lambda n, k: [eq(n, 0), eq(k, 0)], 'diag1': lambda n, k: [eq(n, 1), eq(k, 1)], 'diag': lambda n, k: [eq(n, k), ge(n, 2)],
                 'sub': lambda n, k: [eq(n, k + 1)], 'gen': lambda n, k: [ge(n, k + 2)]}
        hook = oracle(P, th)
        for p in rec.pieces:
            one(ck, rec, p, d, CASES, rhs, hook)
        r, k = A('sym', 'r'), A('sym', 'c')
        rec.cover(ck, d + ' P', r, k, [ge(k, 0), le(k, m_), le(k, r), le(r, n_)], LOC)
        if d == 'dalf':
            deriv(ck, rec, D, base, c, P, CASES, rhs, u, t, n_, m_, hook)
    ck.assumptions += ['exact real arithmetic; cos(theta) != 0 for derivatives', 'matrices have at least max_degree+1 rows (documented)', '0 <= max_order <= max_degree (asserted)']


def one(ck, rec, p, d, CASES, rhs, hook):
    from engine.logic import contradictory
    fd = rec.dom(p)
    loc = p.ev.loc
    if False in fd or contradictory(fd):
        return
    dec = rec.c.decompose(p, rec.v, rec.facts)
    if dec is None:
        rec._undec_bounds(ck, d + ' P', p, fd)
        return ck.ok(d + ': written entry identified', None, loc, str(p.off))
    ck.ok(d + ' P: writes stay inside the triangle', True, loc)
    n, k = dec
    val = rec.strip(p.val)
    for cs, conds in CASES.items():
        fc = fd + [x for x in conds(n, k) if x is not True]
        if False in fc or contradictory(fc):
            continue
        rec.eq(ck, d + ' P: recurrence holds at the written entry', fc, val, rhs(n, k, cs), loc, hook)
    rec.order(ck, d + ' P', p, fd)


def deriv(ck, rec, D, base, c, P, CASES, rhs, u, t, n_, m_, hook):
    from engine.logic import contradictory
    dr = Rec(rec.f, D, base, c)
    f_ = lambda n, k: sq((n * n - k * k) * (2 * n + 1) / (2 * n - 1))
    for p in dr.pieces:
        fd = dr.dom(p)
        loc = p.ev.loc
        if False in fd or contradictory(fd):
            continue
        dec = c.decompose(p, D, base)
        if dec is None:
            dr._undec_bounds(ck, 'dP', p, fd)
            ck.ok('dP: written entry identified', None, loc, str(p.off))
            continue
        ck.ok('dP: writes stay inside the triangle', True, loc)
        n, k = dec
        val = rec.strip(p.val)
        if any(atom_desc(a)[0] == 'ld' and atom_desc(a)[1] == dr.base for a in val.atoms()):
            ck.ok('dP: value expressed over P', None, loc)
            continue
        for cs, conds in CASES.items():
            fc = fd + [x for x in conds(n, k) if x is not True]
            if False in fc or contradictory(fc):
                continue
            # reduce P(n,m) to the entries its recurrence uses
            pid = next(iter(rec.at(n, k).atoms()))
            red = lambda e: subst_rat(e, lambda a: rhs(n, k, cs) if a == pid else None) if cs in ('gen', 'sub') else e
            low = R(0) if cs.startswith('diag') else f_(n, k) * rec.at(n - 1, k)
            want = (n * t * rec.at(n, k) - low) / u if not cs.startswith('diag') else k * t / u * rec.at(n, k)
            if cs in ('diag0', 'diag1'):
                v2, w2 = [subst_rat(simplify(x, fc), lambda a: None) for x in (val, want)]
                rec.eq(ck, 'dP: derivative at the written entry', fc, v2, w2, loc, hook)
                continue
            rec.eq(ck, 'dP: derivative at the written entry', fc, red(val), red(want), loc, hook)
        # reads of P precede
        for ld in rec.loads(p):
            order_other(ck, rec, p, fd, ld)
    r, k = A('sym', 'r'), A('sym', 'c')
    dr.cover(ck, 'dP', r, k, [ge(k, 0), le(k, m_), le(k, r), le(r, n_)], LOC)


def order_other(ck, rec, p, fd, ld):
    rec.order_load(ck, 'dP from P', p, fd, ld)


def legendre(n, m, th):
    """fully normalised P(n,m) at latitude th"""
    u, t = math.cos(th), math.sin(th)
    pmm = 1.0
    for k in range(1, m + 1):
        pmm *= u * (math.sqrt(3) if k == 1 else math.sqrt((2 * k + 1) / (2 * k)))
    if n == m:
        return pmm
    p0, p1 = pmm, math.sqrt(2 * m + 3) * t * pmm
    for j in range(m + 2, n + 1):
        a = math.sqrt((2 * j - 1) * (2 * j + 1) / ((j - m) * (j + m)))
        b = math.sqrt((2 * j + 1) * (j + m - 1) * (j - m - 1) / ((j - m) * (j + m) * (2 * j - 3)))
        p0, p1 = p1, a * t * p1 - b * p0
    return p1


def oracle(view, th):
    """loads of the field evaluate to the true Legendre function of their entry"""
    i, j = A('sym', '__i'), A('sym', '__j')
    ix = view.idx(i, j)
    ia, ja, ta = [next(iter(x.atoms())) for x in (i, j, th)]

    def hook(ev, d):
        if d[1] != view.data[1] or d[3] != 'double':
            return None
        off = ev.rat(d[2])
        for n in range(0, 14):
            for m in range(0, n + 1):
                env = dict(ev.env)
                env[ia], env[ja] = n, m
                if type(ev)(env, None).rat(ix) == off:
                    # must be a stored entry
                    if n < ev.rat(view.rows):
                        return legendre(n, m, ev.env.get(ta, 0.7))
        return None
    return hook
