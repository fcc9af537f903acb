"""P09: solid-harmonics scratch space: recurrences, order of evaluation, bounds, status."""
from engine import build
from engine.alg import R, A, atom_desc, deep_atoms, subst_rat, Rat
from engine.logic import lt, le, ge, gt, eq, And, Or, Not, contradictory
from engine.vf import P
from engine.cases import simplify, prove
from engine.rec import Rec
from .shops import SH, LOC, sq, oracle, MAXDEG


def run(ck):
    ck.rule('recurrence', 'each stored M(n,m), W(n,m) satisfies the fully normalised Cunningham recurrence at its index region')
    ck.rule('order', 'each entry read was computed before; every (n,m) with n<=degree+2, m<=order+2 is computed; column 0 of W is zero; reads of the summation follow all writes')
    ck.rule('bounds', 'every write and every resolved read lies inside the triangle')
    sh = SH()
    ck.analysed(sh.f.name)
    ck.par(lambda k, nm: field(k, sh, nm), ['M', 'W'])
    after(ck, sh)
    tables(ck, sh)
    entry(ck)


def tables(ck, sh):
    """the constructor of the constants writes inside its own arrays"""
    from engine.mat import Op
    from engine.cases import sform
    fv = sh.factor_views()
    for p in sh.c.pieces:
        b = p.ptr[1]
        g = sh.f.mod.globals.get(b[1]) if b[0] == 'glob' else None
        if b in fv:
            views = [fv[b]]
            new = [e for e in sh.f.events() if e.kind == 'call' and e.I.id == b[2]] if b[0] == 'new' else []
            size = simplify(new[0].args[0], sh.facts) / 8 if new else None
        elif g and g.get('size'):
            size, views = R(g['size']) / 8, []
        else:
            continue
        fd = list(sh.facts) + [x for x in (sform(y, sh.facts) for y in p.dom + [p.cond]) if x is not True]
        if size is None or False in fd or contradictory(fd):
            continue
        bad = every(p, size * 8, sh.facts)
        if bad is None:
            Op._inb(None, ck, 'constants', fd, p, b, p.off, 'write', size, views)
        else:
            ck.ok('constants: element writes stay inside the buffer', not bad, p.ev.loc, 'byte offsets %s of %s bytes' % (bad, size * 8))


def every(p, size, facts, limit=1000):
    """byte offsets of a write in one loop of known extent that lie outside size; None: not such a write"""
    from engine.logic import fsubst
    from engine.cases import sform
    off = R(p.off)
    if len(p.vars) != 1 or not R(size).is_const() or any(a != p.vars[0] for a in deep_atoms(off)):
        return None
    bad, last = [], 0
    for k in range(limit):
        sub = lambda a: R(k) if a == p.vars[0] else None
        dom = [sform(fsubst(x, sub), facts) for x in p.dom + [p.cond]]
        if False in dom:
            continue
        o = subst_rat(off, sub)
        if any(x is not True for x in dom) or not o.is_const():
            return None
        last, o = k, o.cval()
        if o < 0 or o + 8 > R(size).cval():
            bad.append(int(o))
    return bad[:3] if last < limit - 1 else None


def field(ck, sh, nm):
    recs = {k: Rec(sh.f, v, sh.facts, sh.c) for k, v in (('M', sh.M), ('W', sh.W))}
    o, n_ = sh.o, sh.n
    for r in recs.values():
        r.hints = lambda: (o, o + 1, o + 2)
        r.fill = [p for p in r.pieces if isinstance(p.val, Rat) and p.val.is_zero()]
        r.pieces = [p for p in r.pieces if p not in r.fill]
    rec, oth = recs[nm], recs['W' if nm == 'M' else 'M']
    hook = oracle(sh)
    rr2 = sh.x * sh.x + sh.y * sh.y + sh.z * sh.z
    k = sh.Re / rr2
    X, Y, Z, rr = sh.x * k, sh.y * k, sh.z * k, sh.Re * sh.Re / rr2
    at = {'M': sh.m_, 'W': sh.w_}
    f1 = lambda n, m: sq((2 * n + 1) * (2 * n - 1) / ((n + m) * (n - m)))
    f2 = lambda n, m: -sq((2 * n + 1) * (n - m - 1) * (n + m - 1) / ((n + m) * (n - m) * (2 * n - 3)))

    def w(n, m, case0=False):
        return R(0) if case0 else sh.w_(n, m)

    def diag(m, one):
        d = sq(3) if one else sq((2 * m + 1) / (2 * m))
        wp = w(m - 1, m - 1, one)
        if nm == 'M':
            return d * (X * sh.m_(m - 1, m - 1) - Y * wp)
        return d * (Y * sh.m_(m - 1, m - 1) + X * wp)

    def rhs(n, m, case):
        """alternatives that are equal by the recurrence of an earlier entry"""
        if case == 'seed':
            return [sh.Re / sq(rr2)] if nm == 'M' else [R(0)]
        if case == 'diag1':
            return [diag(m, True)]
        if case == 'diag':
            return [diag(m, False)]
        if case == 'sub0':
            return [sq(3) * Z * at[nm](0, 0), sq(3) * Z * sh.Re / sq(rr2)] if nm == 'M' else [R(0)]
        if case in ('sub1', 'sub'):
            return [sq(2 * m + 3) * Z * at[nm](m, m), sq(2 * m + 3) * Z * diag(m, case == 'sub1')]
        if case == 'gen0' and nm == 'W':
            return [R(0)]
        return [f1(n, m) * Z * at[nm](n - 1, m) + f2(n, m) * rr * at[nm](n - 2, m)]
    C = {'seed': lambda n, m: [eq(n, 0), eq(m, 0)], 'diag1': lambda n, m: [eq(n, 1), eq(m, 1)], 'diag': lambda n, m: [eq(n, m), ge(m, 2)],
         'sub0': lambda n, m: [eq(n, 1), eq(m, 0)], 'sub1': lambda n, m: [eq(n, 2), eq(m, 1)], 'sub': lambda n, m: [eq(n, m + 1), ge(m, 2)],
         'gen0': lambda n, m: [eq(m, 0), ge(n, 2)], 'gen': lambda n, m: [ge(n, m + 2), ge(m, 1)]}
    for p in rec.fill:
        for q in rec.pieces:
            ck.ok('%s: clearing precedes every computed entry' % nm, p.phase < q.phase, p.ev.loc, 'cleared after the entry stored at %s' % q.ev.loc)
    for p in rec.pieces:
        fd = rec.dom(p)
        loc = p.ev.loc
        if False in fd or contradictory(fd):
            continue
        dec = rec.c.decompose(p, rec.v, rec.facts)
        if dec is None:
            rec._undec_bounds(ck, nm, p, fd)
            ck.ok(nm + ': written entry identified', None, loc, str(p.off))
            continue
        ck.ok(nm + ': writes stay inside the triangle', True, loc)
        n, m = dec
        for cs, conds in C.items():
            fc = fd + [x for x in conds(n, m) if x is not True]
            if False in fc or contradictory(fc):
                continue
            # the region's equations determine some variables: substitute them
            val = zero_w(sh, sh.strip(sh.resolve(simplify(p.val, fc), fc)), fc)
            nn, mm = [simplify(e, fc) for e in (n, m)]
            eq_any(ck, rec, '%s: recurrence holds at the written entry (%s)' % (nm, cs), fc, val, [zero_w(sh, e, fc) for e in rhs(nn, mm, cs)], loc, hook)
        for on, q in ((nm, rec), ('W' if nm == 'M' else 'M', oth)):
            for d in q.loads(p):
                tag = nm if q is rec else '%s from %s' % (nm, on)
                if on == 'W':
                    # column 0 of W is zero by the initial clearing
                    for z in q.fill:
                        ck.ok(tag + ': W was cleared before', z.phase < p.phase, loc, 'cleared later at %s' % z.ev.loc)
                q.order_load(ck, tag, p, fd, d, (lambda n, m: eq(m, 0)) if on == 'W' and q.fill else None)
    r, c = A('sym', 'r'), A('sym', 'c')
    rec.cover(ck, nm, r, c, [ge(c, 0 if nm == 'M' else 1), le(c, o + 2), le(c, r), le(r, n_ + 2)], LOC)
    if nm == 'W':
        col_zero(ck, sh, rec)


def zero_w(sh, r, fd):
    from .shops import zero_col
    return zero_col(sh, R(r), fd)


def eq_any(ck, rec, name, fc, val, wants, loc, hook):
    from engine.cases import prove_eq
    for w in wants[:-1]:
        if prove_eq(fc, simplify(val, fc), simplify(w, fc)) is True:
            return ck.ok(name, True, loc)
    rec.eq(ck, name, fc, val, wants[-1], loc, hook)


def col_zero(ck, sh, rec):
    """W(n,0): cleared and never overwritten"""
    r = A('sym', 'r')
    fd = sh.facts + [ge(r, 0), le(r, sh.n + 2)]
    fd += [x for x in sh.W.lemma(r, R(0)) if x is not True]      # P01: stored entries lie inside the buffer
    ck.ok('W: column 0 is cleared', bool(rec.fill), LOC, 'no clearing of W found') if not rec.fill else None
    for z in rec.fill:
        hs = rec.c.hits(z, sh.W.idx(r, R(0)), r, R(0), fd, sh.W)
        if not hs:
            ck.ok('W: column 0 is cleared', None, z.ev.loc, 'extent not understood')
            continue
        from engine.logic import fsubst
        for env, side in hs:
            fa = lambda a: env.get(a)
            ck.holds('W: column 0 is cleared', fd, And(side, *[fsubst(x, fa) for x in z.dom + [z.cond]]), z.ev.loc)
    for p in rec.pieces:
        dd = rec.dom(p)
        if False in dd or contradictory(dd):
            continue
        if not contradictory(dd + [lt(p.off, 8 * sh.W.rows)]):
            dec = rec.c.decompose(p, sh.W, rec.facts)
            if dec is None:
                ck.ok('W: no computed entry lies in column 0', None, p.ev.loc)
            else:
                ck.holds('W: no computed entry lies in column 0', dd, ge(dec[1], 1), p.ev.loc)
        else:
            ck.ok('W: no computed entry lies in column 0', True, p.ev.loc)


def after(ck, sh):
    """all reads feeding the outputs see the final contents of M and W"""
    i = A('sym', 'off')
    end = {}
    for nm, v in (('M', sh.M), ('W', sh.W)):
        x = sh.f.final(P(v.data[1], i), 'double')
        ds = [atom_desc(a) for a in deep_atoms(R(x)) if atom_desc(a)[0] == 'ld' and atom_desc(a)[1] == v.data[1]]
        end[v.data[1]] = (nm, {d[4] for d in ds})
    for k in range(12):
        T = sh.f.final(P(('arg', 'o'), R(8 * k)), 'double')
        bad = und = False
        for a in deep_atoms(R(T)):
            d = atom_desc(a)
            if d[0] == 'ld' and d[1] in end and d[3] == 'double':
                if d[4] not in end[d[1]][1]:
                    und = True
        ck.ok('output %d: the sums read M and W after they are complete' % k, None if und else True, LOC, 'a read sees an earlier state')


# ---------------------------------------------------------------- entry point
def entry(ck):
    """status, defaults and scratch ownership of the entry point, configuration by configuration"""
    from .stokesops import Stokes
    from .shops import notnull
    S = Stokes()
    m = build.driver('sh.cpp')
    m.fn('drv_sh')
    n, o = A('arg', 'n'), A('arg', 'm')
    W, M = S.sh.pre('w'), S.sh.pre('p')
    deg, odr = S.pre('cs', 'deg'), S.pre('cs', 'ord')
    isn = lambda b: ('b', ('isnull', ('arg', b)))
    pos = [('not', ('flt', A('arg', 'Re'))), ('not', ('flt', A('arg', 'GM')))]
    inv = [ge(deg, 0), ge(odr, 0), le(odr, deg)]
    dims = {'explicit size': (n, o, [ge(n, 0), ge(o, 0)]), 'degree from the coefficients': (deg, o, [lt(n, 0), ge(o, 0)]),
            'order from the coefficients': (n, odr, [ge(n, 0), lt(o, 0)]), 'size from the coefficients': (deg, odr, [lt(n, 0), lt(o, 0)])}
    cfg = []
    for dn, (N, O, df) in dims.items():
        valid = [le(O, N), le(N, deg), le(O, odr)]
        bad = {'order above degree': [gt(O, N)], 'degree above that of the coefficients': [gt(N, deg)], 'order above that of the coefficients': [gt(O, odr)]}
        for b, fs in bad.items():
            if not contradictory([x for x in df + inv + fs if x is not True]):
                for sc in (([isn('w'), isn('p')], [notnull('w'), notnull('p')])):
                    cfg.append(('%s, %s' % (dn, b), df + fs + sc, 'error'))
        for wn in (0, 1):
            for mn in (0, 1):
                sc = [isn('w') if wn else notnull('w'), isn('p') if mn else notnull('p')]
                big = ([] if wn else [ge(W.rows, N + 3)]) + ([] if mn else [ge(M.rows, N + 3)])
                t = '%s, scratch %s/%s' % (dn, 'none' if wn else 'given', 'none' if mn else 'given')
                cfg.append((t, df + valid + sc + big + [le(N, MAXDEG)], 'ok'))
                if dn == 'explicit size':
                    if not wn:
                        cfg.append((t + ', first too small', df + valid + sc + [lt(W.rows, N + 3)] + ([] if mn else [ge(M.rows, N + 3)]), 'error'))
                    if not mn:
                        cfg.append((t + ', second too small', df + valid + sc + [lt(M.rows, N + 3)] + ([] if wn else [ge(W.rows, N + 3)]), 'error'))
                    cfg.append((t + ', beyond the factor tables', df + valid + sc + big + [gt(N, MAXDEG)], 'error'))
    ck.par(lambda k, c: one_cfg(k, m, c[0], [x for x in pos + inv + c[1] if x is not True], c[2], S), cfg)
    ck.par(lambda k, c: default(k, m, S, *c), [('Re', 28 and 'Re'), ('GM', 'GM'), ('n', 'deg'), ('m', 'ord')] )


def one_cfg(ck, m, name, fs, want, S):
    F = m.fn('drv_sh')
    f = type(F)(m, m.fns['drv_sh'], assume=fs)
    n, d = A('arg', 'n'), S.pre('cs', 'deg')
    facts = fs + S.sh.pre('w').facts() + S.sh.pre('p').facts() + [ge(n * n, 0), ge(d * d, 0)]
    facts = [x for x in facts if x is not True]
    rv = simplify(f.retval(), facts)
    if want == 'ok':
        ck.eq('returns zero: ' + name, facts, rv, R(0), LOC)
    else:
        ck.holds('returns an error: ' + name, facts, Not(eq(rv, 0)), LOC, what='status %s' % rv)
        # nothing is computed before the rejection
    scratch(ck, f, facts, name)


def scratch(ck, f, facts, name):
    """locally allocated scratch space is released exactly once, caller's never"""
    from engine.mat import NEWS, DELETES
    from engine.cases import decide_s, resolve_ptr
    from engine.vf import isP
    kept = set()
    for e in f.events():
        if e.kind == 'store' and isP(e.ptr) and e.ptr[1][0] == 'glob' and isP(e.val) and e.val[1][0] == 'new':
            kept.add(e.val[1])
    live, done = {}, set()
    tag = 'scratch space is released exactly once: ' + name
    evs = sorted(f.events(), key=lambda e: (f.rpon[e.loops[0]] if e.loops else f.rpon[e.blk], e.order))
    for e in evs:
        if e.kind != 'call' or not (e.callee in NEWS or e.callee in DELETES):
            continue
        c = decide_s(facts, e.cond)
        if c is False:
            continue
        if c is None or e.loops:
            return ck.ok(tag, None, e.loc, 'under an undecided condition')
        if e.callee in NEWS:
            b = ('new', f.name, e.I.id)
            if b not in kept:
                live[b] = (e.loc, NEWS[e.callee])
        else:
            b = resolve_ptr(e.args[0], facts)[1]
            if b[0] == 'null':
                continue
            if b in live:
                if live[b][1] != DELETES[e.callee]:
                    return ck.ok(tag, False, e.loc, 'released with the wrong form of delete')
                del live[b]
                done.add(b)
            elif b[0] == 'pite':
                return ck.ok(tag, None, e.loc, 'released pointer undecided')
            else:
                return ck.ok(tag, False, e.loc, 'releases memory that is %s' % ('already released' if b in done else 'not its own'))
    if live:
        return ck.ok(tag, False, list(live.values())[0][0], 'allocated here and not released on this path (leak)')
    ck.ok(tag, True, LOC)


def default(ck, m, S, arg, member):
    """a negative argument stands for the coefficients' own value"""
    F = m.fn('drv_sh')
    from .shops import notnull
    a, val = A('arg', arg), S.pre('cs', member)
    aid = next(iter(a.atoms()))
    n, o = A('arg', 'n'), A('arg', 'm')
    deg, odr = S.pre('cs', 'deg'), S.pre('cs', 'ord')
    W, M = S.sh.pre('w'), S.sh.pre('p')
    lit = lambda x, f: ('flt', x) if f else lt(x, 0)
    base = [notnull('w'), notnull('p'), ge(deg, 0), ge(odr, 0), le(odr, deg)]
    sgn = []
    for k in ('n', 'm'):
        if k != arg:
            sgn.append(ge(A('arg', k), 0))
    for k in ('Re', 'GM'):
        if k != arg:
            sgn.append(Not(('flt', A('arg', k))))
    N, O = (deg if arg == 'n' else n), (odr if arg == 'm' else o)
    val_ok = [le(O, N), le(N, deg), le(O, odr), ge(W.rows, N + 3), ge(M.rows, N + 3), le(N, MAXDEG)]
    neg = lit(a, arg in ('Re', 'GM'))
    get = []
    for fs in (base + sgn + val_ok + [neg], base + sgn + [Not(neg) if arg not in ('n', 'm') else ge(a, 0)] + [le(n, deg), le(o, odr), le(o, n), ge(W.rows, n + 3), ge(M.rows, n + 3), le(n, MAXDEG)]):
        fs = [x for x in fs if x is not True]
        f = type(F)(m, m.fns['drv_sh'], assume=fs)
        outs = [f.final(P(('arg', 'o'), R(8 * k)), 'double') for k in range(12)]
        from engine.mat import Contents
        from engine.vf import isP
        st = []
        for p in Contents(f).pieces:
            if p.ptr[1] in (W.data[1], M.data[1]):
                st.append((p.ev.loc, p.off, p.val, And(p.cond, *p.dom)))
        get.append((f, fs, outs, st))
    sub = lambda x: subst_rat(x, lambda y: val if y == aid else None)
    from engine.logic import fsubst
    (f1, fs1, o1, s1), (f2, fs2, o2, s2) = get
    name = 'a negative %s means the value recorded with the coefficients' % {'n': 'degree', 'm': 'order', 'Re': 'radius', 'GM': 'gravitational constant'}[arg]
    facts = [x for x in base + val_ok if x is not True]
    for k in range(12):
        same(ck, name + ': output %d' % k, facts, o1[k], sub(o2[k]), LOC)
    if len(s1) != len(s2):
        return ck.ok(name + ': scratch', None, LOC, 'different shape')
    for x, y in zip(s1, s2):
        same(ck, name + ': scratch written', facts, x[1], sub(y[1]), x[0])
        same(ck, name + ': scratch value', facts, x[2], sub(y[2]), x[0])
        fx, fy = x[3], fsubst(y[3], lambda q: val if q == aid else None)
        ck.ok(name + ': scratch range', True if fx == fy or (prove(facts + [fx], fy) and prove(facts + [fy], fx)) else None, x[0])


def same(ck, name, facts, a, b, loc):
    if R(a) == R(b):
        return ck.ok(name, True, loc)
    ck.eq(name, facts, a, b, loc)
