"""P05: adding, clearing and scaling Stokes-coefficient sets."""
from engine.alg import R, A
from engine.logic import lt, le, ge, eq, And, Or, Not
from engine.vf import ite, isP
from engine.cases import contradictory, decide_s, simplify
from . import stokesseq
from .stokesops import Stokes, loc_of, element_dom, LIB, HDR

LL = ('live', 'live')


def run(ck):
    ck.rule('histories', 'given dimensions, histories of up to two operations on two sets, coefficients symbolic: state of every set, buffers, returns')
    ck.rule('add', 'C and S of the sum equal the entry-wise sum on the part the addend has, and are unchanged elsewhere')
    ck.rule('reject', 'no store precedes or accompanies the error path; normal return iff the addend fits')
    S = Stokes()
    ck.par(lambda c, n: one(c, S, n), ['add', 'addself', 'clear', 'scale'])
    stokesseq.run(ck, stokesseq.arith_programs)
    ck.assumptions += ['operands are dimensioned sets (P04 invariant)', 'element values are exact reals']


def one(ck, S, name):
    r, c = A('sym', 'r'), A('sym', 'c')
    objs = {'p': LL, 'o': LL} if name == 'add' else {'p': LL}
    o = S.op('drv_' + name, objs)
    f = o.f
    loc = loc_of(o, LIB if 'add' in name else HDR)
    ck.analysed(f.name)
    pdeg, pord = S.pre('p', 'deg'), S.pre('p', 'ord')
    src = 'o' if name == 'add' else 'p'
    odeg, oord = S.pre(src, 'deg'), S.pre(src, 'ord')
    fits = And(le(odeg, pdeg), le(oord, pord)) if name == 'add' else True
    if name == 'add':
        for fs0 in ([Not(le(odeg, pdeg))], [Not(le(oord, pord))]):
            fs = o.base + fs0
            for e in f.events():
                if e.kind == 'ret':
                    ck.ok('add: never returns normally when the addend is larger', not_under(fs, e), e.loc, 'the function can return although the addend does not fit')
                elif e.kind in ('store', 'memcpy', 'memset') and isP(e.ptr) and e.ptr[1][0] not in ('alloca', 'retp', 'new'):
                    ck.ok('add: operands unmodified when the addend is larger', not_under(fs, e), e.loc, 'a coefficient or field is written although the addend does not fit')
        thr = [e for e in f.events() if e.kind == 'call' and e.callee in ('__cxa_throw', '_ZSt9terminatev', 'abort', '__assert_fail', '__cxa_rethrow')]
        for e in thr:
            ck.ok('add: accepts every addend that fits', not_under(o.base + [fits], e), e.loc, 'an error is raised although the addend fits')
        if not thr:
            ck.ok('add: an oversized addend is reported', not any(e.kind == 'ret' for e in f.events()), loc, 'no error is ever raised')
    if f.retval() is not None:
        rv = f.retval()
        ck.ok('%s: returns the modified object' % name, isP(rv) and rv[1] == ('arg', 'p') and rv[2].is_zero(), loc, 'returns %s' % (rv,))
    o.bounds(ck, name, loc)
    for fs in o.cases:
        if fits is not True:
            if contradictory(fs + [fits]):
                continue
            fs = fs + [fits]
        o_own(ck, o, name, fs, loc)
        for arg in objs:
            for k in ('deg', 'ord', 'GM', 'Re', 'norm'):
                got = S.post(f, arg, k)
                if hasattr(got, 'atoms'):
                    ck.eq('%s: field %s of %s unchanged' % (name, k, arg), fs, simplify(got, fs), S.pre(arg, k), loc)
            for X in 'CS':
                key = '%s.%s' % (arg, X)
                v = o.post[key].under(fs)
                pv = o.pre[key]
                ck.eq('%s: rows of %s unchanged' % (name, key), fs, v.rows, pv.rows, loc)
                deg = S.pre(arg, 'deg')
                dom = fs + [x for x in (ge(c, 0), le(c, r), le(r, deg)) if x is not True]
                dom = element_dom(dom, list(o.pre.values()), r, c)
                if contradictory(dom):
                    continue
                old = A('ld', pv.data[1], pv.idx(r, c), 'double', None)
                if arg == 'o':
                    want = old
                elif name in ('add', 'addself'):
                    sv = o.pre['%s.%s' % (src, X)]
                    inside = And(le(r, odeg), le(c, oord))
                    want = ite(inside, old + A('ld', sv.data[1], sv.idx(r, c), 'double', None), old)
                elif name == 'clear':
                    want = R(0)
                else:
                    want = A('arg', 'v') * old
                got = o.c.at(v.data[1], v, r, c, dom)
                ck.eq('%s: coefficients %s' % (name, key), dom, got, want, loc)


def not_under(fs, e):
    v = decide_s(fs, e.cond)
    if v is False:
        return True
    if contradictory(list(fs) + [e.cond]):
        return True
    return False if v is True else (False if not contradictory(list(fs) + [e.cond]) and _feasible(fs, e.cond) else None)


def _feasible(fs, c):
    from engine.evalx import refute_formula
    return refute_formula(list(fs) + [c], False) is not None


def o_own(ck, o, name, fs, loc):
    o._own_case(ck, name, fs, loc)
