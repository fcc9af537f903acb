"""P04: value semantics of a Stokes-coefficient set."""
from engine.alg import R, A, subst_rat, atom_id
from engine.logic import lt, le, ge, eq, And, Not
from engine.vf import ite, isP
from engine.cases import contradictory, sform, decide_any, simplify
from . import stokesseq
from .stokesops import Stokes, NotAMember, loc_of, element_dom, HDR, LIB

LL, RL, LD = ('live', 'live'), ('raw', 'live'), ('live', 'dead')
EMPTY = 'empty'        # no statement on the storage
FLD = ('deg', 'ord', 'GM', 'Re', 'norm')


def table(S):
    a = lambda n: A('arg', n)
    n, m = a('n'), a('m')
    same = lambda src: {k: S.pre(src, k) for k in FLD}
    dim = [ge(n, 0), le(m, n)]
    T = []
    # name, objects, pre, {arg: (fields, source of coefficients or None, rows)}
    T.append(('ctor', {'p': RL}, dim, {'p': ({'deg': n, 'ord': ite(ge(m, 0), m, n), 'GM': a('GM'), 'Re': a('Re'), 'norm': R(1)}, None)}))
    T.append(('ctor1', {'p': RL}, [ge(n, 0)], {'p': ({'deg': n, 'ord': n, 'norm': R(1)}, None)}))
    T.append(('dflt', {'p': RL}, [], {'p': ({'deg': R(0), 'ord': R(0), 'norm': R(1)}, EMPTY)}))
    T.append(('cctor', {'p': RL, 'o': LL}, [], {'p': (same('o'), 'o'), 'o': (same('o'), 'o')}))
    T.append(('mctor', {'p': RL, 'o': LL}, [], {'p': (same('o'), 'o')}))
    T.append(('cassign', {'p': LL, 'o': LL}, [], {'p': (same('o'), 'o'), 'o': (same('o'), 'o')}))
    T.append(('cassignself', {'p': LL}, [], {'p': (same('p'), 'p')}))
    T.append(('massign', {'p': LL, 'o': LL}, [], {'p': (same('o'), 'o')}))
    T.append(('massignself', {'p': LL}, [], {'p': (same('p'), 'p')}))
    for s in ('swap', 'swapf'):
        T.append((s, {'p': LL, 'o': LL}, [], {'p': (same('o'), 'o'), 'o': (same('p'), 'p')}))
    T.append(('swapself', {'p': LL}, [], {'p': (same('p'), 'p')}))
    T.append(('dtor', {'p': LD}, [], {}))
    keep = {k: S.pre('p', k) for k in ('GM', 'Re', 'norm')}
    rs = [ge(n, 0), ge(m, 0), le(m, n)]
    T.append(('resize', {'p': LL}, rs, {'p': (dict(keep, deg=n, ord=m), None)}))
    T.append(('cresize', {'p': LL}, rs, {'p': (dict(keep, deg=n, ord=m), 'common')}))
    can = And(le(m, n), le(n, S.pre('p', 'deg')), le(m, S.pre('p', 'ord')))
    T.append(('shrink', {'p': LL}, [ge(n, 0), ge(m, 0)], {'p': (dict(keep, deg=ite(can, n, S.pre('p', 'deg')), ord=ite(can, m, S.pre('p', 'ord'))), 'p')}))
    return T


def run(ck):
    ck.rule('histories', 'given dimensions, histories of up to two operations on two sets, coefficients symbolic: state of every set, buffers, returns')
    ck.rule('fields', 'every scalar field has the specified value after each operation')
    ck.rule('coefficients', 'every C(n,m) and S(n,m) has the specified value after each operation; storage covers the reported degree')
    ck.rule('owner', 'every buffer has one owner and is released once')
    try:
        S = Stokes()
    except NotAMember as e:
        ck.ok('accessor %s reports the state of the set (it returns the constant %s)' % e.args[:2], False, HDR)
        return
    ck.par(lambda c, i: one(c, S, i), range(len(table(S))))
    accessors(ck, S)
    stokesseq.run(ck, stokesseq.value_programs)
    ck.assumptions += ['operands are dimensioned sets: 0 <= order <= degree, square storage of at least degree+1 rows (shown for every constructor and re-dimensioning operation)',
                       'element values are copied as exact reals']


def one(ck, S, i):
    name, objs, pre, spec = table(S)[i]
    o = S.op('drv_' + name, objs, pre)
    loc = loc_of(o)
    ck.analysed(o.f.name)
    o.ownership(ck, name, loc)
    o.bounds(ck, name, loc)
    r, c = A('sym', 'r'), A('sym', 'c')
    sh = S.sh
    for fs in o.cases:
        for arg, (flds, src) in spec.items():
            for k, want in flds.items():
                got = S.post(o.f, arg, k)
                if not hasattr(got, 'atoms'):
                    from engine.vf import b2i
                    got = b2i(got)
                if k == 'norm':
                    got, want = ite(eq(got, 0), R(0), R(1)), ite(eq(want, 0), R(0), R(1))
                ck.eq('%s: field %s of %s' % (name, k, arg), fs, simplify(got, fs), want, loc)
            for X in 'CS' if src is not EMPTY else '':
                key = '%s.%s' % (arg, X)
                v = o.post[key].under(fs)
                deg = flds['deg']
                ck.holds('%s: storage of %s covers the degree' % (name, key), fs, ge(v.rows, deg + 1), loc)
                if src is None:
                    continue
                sv = o.pre['%s.%s' % ('p' if src == 'common' else src, X)]
                dom = fs + [x for x in (ge(c, 0), le(c, r), le(r, deg)) if x is not True]
                if src == 'common':
                    dom.append(le(r, S.pre('p', 'deg')))
                elif name != 'shrink':
                    dom = fs + [x for x in sv.stored(r, c) if x is not True]
                    ck.eq('%s: rows of %s' % (name, key), fs, v.rows, sv.rows, loc)
                if contradictory(dom):
                    continue
                dom = element_dom(dom, [v] + list(o.pre.values()), r, c)
                if contradictory(dom):
                    continue
                got = o.c.at(v.data[1], v, r, c, dom)
                ck.eq('%s: coefficients %s' % (name, key), dom, got, A('ld', sv.data[1], sv.idx(r, c), 'double', None), loc)
    if name == 'shrink':
        m_, n_ = A('arg', 'm'), A('arg', 'n')
        can = And(le(m_, n_), le(n_, S.pre('p', 'deg')), le(m_, S.pre('p', 'ord')))
        ret = o.f.retval()
        ck.eq('shrink: succeeds exactly when the new dimensions fit', o.base + [can], ret, R(0), loc)
        nz = o.base + [Not(can)]
        ck.holds('shrink: fails otherwise', nz, Not(eq(simplify(ret, nz), 0)), loc)


def accessors(ck, S):
    m, sh = S.m, S.sh
    i, j = A('arg', 'i'), A('arg', 'j')
    for X, d in (('C', S.dC), ('S', S.dS)):
        v = sh.pre('p', d)
        dom = [ge(j, 0), le(j, i), le(i, S.pre('p', 'deg'))] + S.inv('p') + v.facts()
        p = m.fn('drv_%sr' % X).retval()
        ck.ok('%s(n,m) reference lies in its own matrix' % X, isP(p) and p[1] == v.data[1], HDR)
        ck.eq('%s(n,m) reference address' % X, dom, p[2], v.idx(i, j), HDR)
        ck.eq('%s(n,m) value' % X, dom, m.fn('drv_' + X).retval(), A('ld', v.data[1], v.idx(i, j), 'double', None), HDR)
        q = m.fn('drv_%snmr' % X).retval()
        ck.ok('%s matrix accessors agree' % X, isP(q) and q[1] == ('arg', 'p') and q[2] == d, HDR)
    ck.ok('C and S matrices are distinct members', S.dC != S.dS, HDR)
    v = sh.pre('p', S.dC)
    dom = [ge(v.rows, 3)] + v.facts()
    ck.eq('J2 is minus C(2,0)', dom, m.fn('drv_J2').retval(), -A('ld', v.data[1], v.idx(R(2), R(0)), 'double', None), HDR)
    for k, fn in (('GM', 'drv_GMr'), ('Re', 'drv_Rer'), ('norm', 'drv_normr')):
        p = m.fn(fn).retval()
        ck.ok('%s reference is the member read by the getter' % k, isP(p) and p[1] == ('arg', 'p') and p[2] == S.f[k][0], HDR)
    nv = m.fn('drv_norm').retval()
    if not hasattr(nv, 'atoms'):
        from engine.vf import b2i
        nv = b2i(nv)
    ck.eq('normalization flag read by the getter', [], ite(eq(nv, 0), R(0), R(1)), ite(eq(S.pre('p', 'norm'), 0), R(0), R(1)), HDR)
    offs = [str(S.f[k][0]) for k in FLD]
    ck.ok('scalar members are distinct', len(set(offs)) == len(offs), HDR)
