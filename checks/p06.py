"""P06: packing Stokes coefficients into a square matrix and back."""
from engine.alg import R, A, atom_desc, deep_atoms
from engine.logic import lt, le, ge, gt, eq, And, Or, Not
from engine.vf import ite, isP, P
from engine.cases import contradictory, decide_s, simplify, resolve_ptr, prove
from engine.mat import Contents, Op, NEWS
from . import stokesseq
from .stokesops import Stokes, loc_of, element_dom, LIB, HDR

LL, RL = ('live', 'live'), ('raw', 'live')


class Dense:
    """column-major dense matrix object {data, rows, cols} of the linear-algebra library"""
    tri = False


class DView:
    def __init__(self, data, rows, cols):
        self.data, self.rows, self.cols = data, rows, cols

    def stored(self, r, c):
        return [x for x in (ge(r, 0), lt(r, self.rows), ge(c, 0), lt(c, self.cols)) if x is not True]

    def idx(self, r, c):
        return (R(c) * self.rows + R(r)) * 8


def dense_pre(arg):
    ld = lambda o, t: A('ld', ('arg', arg), R(o), t, None)
    return DView(P(('ld', ('arg', arg), R(0), 'ptr', None)), ld(8, 'i64'), ld(16, 'i64'))


def run(ck):
    ck.rule('histories', 'given dimensions, histories of up to two operations on two sets, coefficients symbolic: state of every set, buffers, returns')
    ck.rule('pack', 'the packed matrix is (N+1)x(N+1), holds C(n,m) at (n,m) and S(n,m) at (m-1,n) for m>=1')
    ck.rule('unpack', 'unpacking restores C and S from those positions and S(n,0)=0')
    S = Stokes()
    pack(ck, S)
    for nm in ('fromanm', 'fromanm1'):
        unpack(ck, S, nm)
    stokesseq.run(ck, stokesseq.anm_programs)
    ck.assumptions += ['the linear-algebra matrix stores column-major {data,rows,cols} (checked from its own accessors as compiled)',
                       'matrix sizes below the library allocation limit', 'P04 class invariant']


def pack(ck, S):
    o = S.op('drv_toanm', {'p': LL})
    f = o.f
    ck.analysed(f.name)
    loc = HDR + ' (to_anm)'
    deg = S.pre('p', 'deg')
    r, c = A('sym', 'r'), A('sym', 'c')
    small = [lt(deg, 100000)]
    from engine.mat import cases
    rows, cols, data = f.final(P(('arg', 'r'), 8), 'i64'), f.final(P(('arg', 'r'), 16), 'i64'), f.final(P(('arg', 'r'), 0), 'ptr')
    n = 0
    for fs in o.cases:
        fs = fs + small
        if contradictory(fs):
            continue
        if not any(e.kind == 'ret' and decide_s(fs, e.cond) is not False for e in f.events()):
            continue        # allocation failure paths
        n += 1
        ck.eq('pack: rows of the packed matrix', fs, simplify(rows, fs), deg + 1, loc)
        ck.eq('pack: columns of the packed matrix', fs, simplify(cols, fs), deg + 1, loc)
        d = resolve_ptr(data, fs)
        v = DView(d, deg + 1, deg + 1)
        for X, (tr, tc), src in (('C', (r, c), (r, c)), ('S', (c - 1, r), (r, c))):
            dom = fs + [x for x in (ge(c, 0 if X == 'C' else 1), le(c, r), le(r, deg)) if x is not True]
            dom = element_dom(dom, list(o.pre.values()), *src)
            if contradictory(dom):
                continue
            pv = o.pre['p.' + X]
            got = o.c.at(d[1], v, tr, tc, dom)
            ck.eq('pack: position of %s(n,m)' % X, dom, got, A('ld', pv.data[1], pv.idx(*src), 'double', None), loc)
        alloc = {}
        for e in f.events():
            if e.kind == 'call' and e.callee in ('malloc',) + tuple(NEWS):
                alloc[('new', f.name, e.I.id)] = simplify(e.args[0], fs)
        if d[1] in alloc:
            ck.eq('pack: allocation matches the size', fs, alloc[d[1]], (deg + 1) * (deg + 1) * 8, loc)
            for p in o.c.pieces:
                if resolve_ptr(p.ptr, fs)[1] != d[1] or decide_s(fs, p.cond) is False:
                    continue
                fd = fs + [x for x in p.dom if x is not True]
                if contradictory(fd):
                    continue
                inside(ck, 'pack: writes stay inside the packed matrix', fd, p, deg + 1)
    ck.ok('pack: a case with a normal return was analysed', n > 0, loc)


def inside(ck, name, fd, p, n):
    """offset = 8*(c*n + r) with 0<=r<n and 0<=c<n"""
    from engine.alg import Rat, Poly
    from engine.mat import _solve_lin, Contents
    off = simplify(p.off, fd)
    if prove(fd, ge(off, 0)) and prove(fd, le(off + 8, n * n * 8)):
        return ck.ok(name, True, p.ev.loc)
    vs = [Rat(Poly.atom(a)) for a in p.vars]
    for c in vs + [x + y for x in vs for y in vs]:
        r = (off / 8 - c * n)
        if r.is_poly() and prove(fd, ge(c, 0)) and prove(fd, lt(c, n)) and prove(fd, ge(r, 0)) and prove(fd, lt(r, n)):
            return ck.ok(name, True, p.ev.loc)
    from engine.evalx import refute_formula
    w = refute_formula(fd, And(ge(off, 0), le(off + 8, n * n * 8)))
    ck.ok(name, False if w else None, p.ev.loc, 'byte offset %s %s' % (off, w))


def unpack(ck, S, nm):
    a = dense_pre('a')
    n = a.rows - 1
    m = A('arg', 'm')
    pre = [ge(a.rows, 1), eq(a.rows, a.cols), lt(a.rows, 100000)] + ([le(m, n)] if nm == 'fromanm' else [])
    o = S.op('drv_' + nm, {'p': RL}, pre)
    f = o.f
    ck.analysed(f.name)
    loc = HDR + ' (from_anm)'
    r, c = A('sym', 'r'), A('sym', 'c')
    o.ownership(ck, nm, loc)
    o.bounds(ck, nm, loc)
    want_ord = ite(ge(m, 0), m, n) if nm == 'fromanm' else n
    for fs in o.cases:
        ck.eq('unpack: degree', fs, simplify(S.post(f, 'p', 'deg'), fs), n, loc)
        ck.eq('unpack: order', fs, simplify(S.post(f, 'p', 'ord'), fs), want_ord, loc)
        for X, (tr, tc) in (('C', (r, c)), ('S', (c - 1, r))):
            v = o.post['p.' + X].under(fs)
            ck.eq('unpack: rows of %s' % X, fs, v.rows, n + 1, loc)
            for lo in ([ge(c, 0)] if X == 'C' else [ge(c, 1)], [eq(c, 0)] if X == 'S' else None):
                if lo is None:
                    continue
                dom = fs + [x for x in lo + [le(c, r), le(r, n)] if x is not True]
                dom = element_dom(dom, [v], r, c)
                if contradictory(dom):
                    continue
                got = o.c.at(v.data[1], v, r, c, dom)
                if X == 'S' and lo == [eq(c, 0)]:
                    want = R(0)
                else:
                    want = A('ld', a.data[1], a.idx(tr, tc), 'double', None)
                ck.eq('unpack: %s(n,m)%s' % (X, ' for m=0' if lo == [eq(c, 0)] else ''), dom, got, want, loc)
        for p in o.c.pieces:
            if decide_s(fs, p.cond) is False or not hasattr(p.val, 'atoms'):
                continue
            for at in sorted(deep_atoms(p.val)):
                d = atom_desc(at)
                if d[0] == 'ld' and d[3] == 'double' and d[1] == a.data[1]:
                    import copy
                    q = copy.copy(p)
                    q.off = d[2]
                    fd = fs + [x for x in p.dom + [p.cond] if x is not True]
                    if not contradictory(fd):
                        inside(ck, 'unpack: reads stay inside the packed matrix', fd, q, a.rows)
