"""Operations of the coefficient-matrix class: specifications shared by P02/P03."""
from engine import build
from engine.alg import R, A
from engine.logic import lt, le, ge, eq, And, Not
from engine.vf import ite, mm
from engine.cases import prove_eq, simplify, decide_any, contradictory
from engine.mat import Shape, Op

LAYOUTS = ['RowWise', 'ColumnWise', 'Trapezoid', 'LwTriangularRowWise', 'LwTriangularColWise']
LOC = 'include/coeff_matrix_2d.hpp'


def same_dims(*vs):
    out = []
    for v in vs[1:]:
        out += [eq(vs[0].rows, v.rows), eq(vs[0].cols, v.cols)]
    return [x for x in out if x is not True]


def ops(sh):
    """name -> (objects, precondition builder, spec builder)
    objects: arg -> (entry, exit); spec(o, r, c) -> {key: (rows, cols, value or None)}"""
    a = lambda n: A('arg', n)
    rows, cols, nr, nc, k, q, v = [a(x) for x in ('rows', 'cols', 'nr', 'nc', 'k', 'q', 'v')]
    tri = sh.L.startswith('LwTri')
    C = lambda r_, c_: r_ if tri else c_
    LL, RL, LD = ('live', 'live'), ('raw', 'live'), ('live', 'dead')
    dimarg = [ge(rows, 0), ge(cols, 0)] + ([le(cols, rows)] if sh.L == 'Trapezoid' else []) + ([eq(rows, cols)] if tri else [])
    E = lambda o, key, r, c: A('ld', o.pre[key].data[1], o.pre[key].idx(r, c), 'double', None)
    D = lambda o, key: (o.pre[key].rows, o.pre[key].cols)
    none = lambda P_: []

    def red(P_, *ks):
        x = [ge(nr, 0), ge(nc, 0)] + ([eq(nr, nc)] if tri else []) + ([le(nc, nr)] if sh.L == 'Trapezoid' else [])
        for k_ in ks:
            x += [le(nr, P_[k_].rows), le(nc, P_[k_].cols)]
        return [y for y in x if y is not True]

    def redadd(val):
        def spec(o, r, c):
            inside = And(lt(r, nr), lt(c, nc))
            e = E(o, 'p', r, c)
            return {'p': D(o, 'p') + (ite(inside, e + val(o, r, c), e),)}
        return spec
    T = {}
    T['ctor'] = ({'p': RL}, lambda P_: dimarg, lambda o, r, c: {'p': (rows, C(rows, cols), None)})
    T['cctor'] = ({'p': RL, 'o': LL}, none, lambda o, r, c: {'p': D(o, 'o') + (E(o, 'o', r, c),), 'o': D(o, 'o') + (E(o, 'o', r, c),)})
    T['mctor'] = ({'p': RL, 'o': LL}, none, lambda o, r, c: {'p': D(o, 'o') + (E(o, 'o', r, c),)})
    T['cassign'] = ({'p': LL, 'o': LL}, none, lambda o, r, c: {'p': D(o, 'o') + (E(o, 'o', r, c),), 'o': D(o, 'o') + (E(o, 'o', r, c),)})
    T['cassignself'] = ({'p': LL}, none, lambda o, r, c: {'p': D(o, 'p') + (E(o, 'p', r, c),)})
    T['massign'] = ({'p': LL, 'o': LL}, none, lambda o, r, c: {'p': D(o, 'o') + (E(o, 'o', r, c),)})
    T['massignself'] = ({'p': LL}, none, lambda o, r, c: {})
    for s in ('swap', 'swapf'):
        T[s] = ({'p': LL, 'o': LL}, none, lambda o, r, c: {'p': D(o, 'o') + (E(o, 'o', r, c),), 'o': D(o, 'p') + (E(o, 'p', r, c),)})
    T['swapself'] = ({'p': LL}, none, lambda o, r, c: {'p': D(o, 'p') + (E(o, 'p', r, c),)})
    T['resize'] = ({'p': LL}, lambda P_: dimarg, lambda o, r, c: {'p': (rows, C(rows, cols), None)})

    def cres(o, r, c):
        inside = And(lt(r, o.pre['p'].rows), lt(c, o.pre['p'].cols))
        return {'p': (rows, C(rows, cols), ('if', inside, E(o, 'p', r, c)))}
    T['cresize'] = ({'p': LL}, lambda P_: dimarg, cres)
    T['fill'] = ({'p': LL}, none, lambda o, r, c: {'p': D(o, 'p') + (v,)})
    T['mul'] = ({'p': LL}, none, lambda o, r, c: {'p': D(o, 'p') + (v * E(o, 'p', r, c),)})
    T['dtor'] = ({'p': LD}, none, lambda o, r, c: {})
    s2 = lambda P_: same_dims(P_['a'], P_['b'])
    s3 = lambda P_: same_dims(P_['a'], P_['b'], P_['c'])
    T['ctorsum'] = ({'p': RL, 'a': LL, 'b': LL}, s2, lambda o, r, c: {'p': D(o, 'a') + (E(o, 'a', r, c) + E(o, 'b', r, c),), 'a': D(o, 'a') + (E(o, 'a', r, c),)})
    T['ctorscale'] = ({'p': RL, 'a': LL}, none, lambda o, r, c: {'p': D(o, 'a') + (k * E(o, 'a', r, c),)})
    T['ctorscale2'] = T['ctorscale']
    T['ctorlin'] = ({'p': RL, 'a': LL, 'b': LL}, s2, lambda o, r, c: {'p': D(o, 'a') + (k * E(o, 'a', r, c) + q * E(o, 'b', r, c),)})
    T['ctoraxpy'] = ({'p': RL, 'a': LL, 'b': LL}, s2, lambda o, r, c: {'p': D(o, 'a') + (E(o, 'a', r, c) + k * E(o, 'b', r, c),)})
    T['ctorsum3'] = ({'p': RL, 'a': LL, 'b': LL, 'c': LL}, s3, lambda o, r, c: {'p': D(o, 'a') + (E(o, 'a', r, c) + E(o, 'b', r, c) + E(o, 'c', r, c),)})
    T['ctorsum3s'] = ({'p': RL, 'a': LL, 'b': LL, 'c': LL}, s3, lambda o, r, c: {'p': D(o, 'a') + (E(o, 'a', r, c) + E(o, 'b', r, c) + k * E(o, 'c', r, c),)})
    sp = lambda *ks: (lambda P_: same_dims(P_['p'], *[P_[x] for x in ks]))
    T['pluseq'] = ({'p': LL, 'a': LL}, sp('a'), lambda o, r, c: {'p': D(o, 'p') + (E(o, 'p', r, c) + E(o, 'a', r, c),), 'a': D(o, 'a') + (E(o, 'a', r, c),)})
    T['pluseqself'] = ({'p': LL}, none, lambda o, r, c: {'p': D(o, 'p') + (2 * E(o, 'p', r, c),)})
    T['pluseqs'] = ({'p': LL, 'a': LL}, sp('a'), lambda o, r, c: {'p': D(o, 'p') + (E(o, 'p', r, c) + k * E(o, 'a', r, c),)})
    T['pluseqsum'] = ({'p': LL, 'a': LL, 'b': LL}, sp('a', 'b'), lambda o, r, c: {'p': D(o, 'p') + (E(o, 'p', r, c) + E(o, 'a', r, c) + E(o, 'b', r, c),)})
    T['pluseqr'] = ({'p': LL, 'a': LL}, lambda P_: red(P_, 'p', 'a'), redadd(lambda o, r, c: E(o, 'a', r, c)))
    for s in ('pluseqrs', 'pluseqrs2'):
        T[s] = ({'p': LL, 'a': LL}, lambda P_: red(P_, 'p', 'a'), redadd(lambda o, r, c: k * E(o, 'a', r, c)))
    T['pluseqrr'] = ({'p': LL, 'a': LL, 'b': LL}, lambda P_: red(P_, 'p', 'a', 'b'), redadd(lambda o, r, c: E(o, 'a', r, c) + E(o, 'b', r, c)))
    T['ctorrr'] = ({'p': RL, 'a': LL, 'b': LL}, lambda P_: red(P_, 'a', 'b'), lambda o, r, c: {'p': (nr, C(nr, nc), E(o, 'a', r, c) + E(o, 'b', r, c))})
    T['ctorrs'] = ({'p': RL, 'a': LL, 'b': LL}, lambda P_: red(P_, 'a', 'b'), lambda o, r, c: {'p': (nr, C(nr, nc), E(o, 'a', r, c) + k * E(o, 'b', r, c))})
    rm = lambda P_: [x for x in [ge(nr, 0), ge(nc, 0), eq(nr, P_['b'].rows), eq(nc, P_['b'].cols), le(nr, P_['a'].rows), le(nc, P_['a'].cols)] if x is not True]
    T['ctorrm'] = ({'p': RL, 'a': LL, 'b': LL}, rm, lambda o, r, c: {'p': (nr, C(nr, nc), E(o, 'a', r, c) + k * E(o, 'b', r, c))})
    r3 = lambda P_: red(P_, 'a', 'b', 'c')
    T['ctorrsum'] = ({'p': RL, 'a': LL, 'b': LL, 'c': LL}, r3, lambda o, r, c: {'p': (nr, C(nr, nc), E(o, 'a', r, c) + E(o, 'b', r, c) + k * E(o, 'c', r, c))})
    T['ctorrsum2'] = ({'p': RL, 'a': LL, 'b': LL, 'c': LL}, r3, lambda o, r, c: {'p': (nr, C(nr, nc), E(o, 'a', r, c) + E(o, 'b', r, c) + E(o, 'c', r, c))})
    T['pluseqrsum'] = ({'p': LL, 'a': LL, 'b': LL, 'c': LL}, lambda P_: red(P_, 'p', 'a', 'b', 'c'), redadd(lambda o, r, c: E(o, 'a', r, c) + E(o, 'b', r, c) + E(o, 'c', r, c)))
    T['pluseqrself'] = ({'p': LL}, lambda P_: red(P_, 'p'), redadd(lambda o, r, c: E(o, 'p', r, c)))
    T['pluseqlin'] = ({'p': LL, 'a': LL, 'b': LL}, sp('a', 'b'), lambda o, r, c: {'p': D(o, 'p') + (E(o, 'p', r, c) + k * E(o, 'a', r, c) + q * E(o, 'b', r, c),)})
    T['assignsum'] = ({'p': LL, 'a': LL, 'b': LL}, s2, lambda o, r, c: {'p': D(o, 'a') + (E(o, 'a', r, c) + E(o, 'b', r, c),)})
    T['assignself'] = ({'p': LL, 'a': LL}, sp('a'), lambda o, r, c: {'p': D(o, 'p') + (E(o, 'p', r, c) + k * E(o, 'a', r, c),)})
    T['assignscale'] = ({'p': LL}, none, lambda o, r, c: {'p': D(o, 'p') + (k * E(o, 'p', r, c),)})
    return T


def items(m):
    for L in LAYOUTS:
        sh = Shape(m, L)
        for name in ops(sh):
            yield L, name


def all_ops(layouts=None, m=None, only=None):
    m = m or build.driver('matrix.cpp')
    for L in layouts or LAYOUTS:
        sh = Shape(m, L)
        for name, (objs, pre, spec) in ops(sh).items():
            if only and name not in only:
                continue
            O = {x: (sh, x, 0, en, ex) for x, (en, ex) in objs.items()}
            views = {x: sh.pre(x) for x, (en, ex) in objs.items() if en == 'live'}
            o = Op(m, 'drv_%s_%s' % (name, L), O, pre(views))
            yield m, L, sh, name, o, spec


def loc_of(o):
    for e in o.f.events():
        if LOC in e.loc:
            return e.loc
    return LOC
