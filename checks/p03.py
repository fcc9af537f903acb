"""P03: element-wise meaning of every coefficient-matrix operation."""
from engine.alg import A, R
from engine.logic import And
from engine.cases import decide_any, sform, contradictory, prove_eq
from .matrixops import all_ops, loc_of, items


def run(ck):
    ck.rule('elementwise', 'for a symbolic stored entry (r,c) of the result: dimensions and value equal the specified expression over the operands\' entries')
    r, c = A('sym', 'r'), A('sym', 'c')
    from engine import build
    from .matrixops import LAYOUTS
    m = build.driver('matrix.cpp')
    ck.par(lambda k, L: one(k, L, m), items(m))
    rest(ck)


def one(ck, L, m):
    r, c = A('sym', 'r'), A('sym', 'c')
    for m, L, sh, name, o, spec in all_ops([L[0]], m, [L[1]]):
        tag = '%s %s' % (L, name)
        loc = loc_of(o)
        ck.analysed(o.f.name)
        sp = spec(o, r, c)
        for fs in o.cases:
            for key, (rows, cols, val) in sp.items():
                v = o.post[key].under(fs)
                ck.eq('%s: rows of %s' % (tag, key), fs, v.rows, rows, loc)
                ck.eq('%s: columns of %s' % (tag, key), fs, v.cols, cols, loc)
                if val is None:
                    continue
                dom = fs + [x for x in v.stored(r, c, rows, cols) if x is not True]
                if isinstance(val, tuple):
                    dom = dom + [val[1]]
                    val = val[2]
                if contradictory(dom):
                    continue
                # P01 lemma only depends on stored-ness
                for pv in [v] + list(o.pre.values()):
                    if all(decide_any(dom, g) for g in pv.stored(r, c) if g is not True):
                        dom = dom + [x for x in (sform(g, dom) for g in pv.lemma(r, c)) if x is not True]
                if False in dom or contradictory(dom):
                    continue
                b = v.data[1]
                got = o.c.at(b, v, r, c, dom)
                ck.eq('%s: entries of %s' % (tag, key), dom, got, val, loc)


def rest(ck):
    """accessor agreement"""
    from engine import build
    st = build.driver('storage.cpp')
    from engine.mat import Shape
    from engine.alg import subst_rat, atom_id
    from .matrixops import LAYOUTS
    m = build.driver('matrix.cpp')
    for L in LAYOUTS:
        sh = Shape(m, L)
        v = sh.pre('p')
        i, j = A('arg', 'i'), A('arg', 'j')
        env = {atom_id(('arg', 'rows')): v.rows, atom_id(('arg', 'cols')): v.cols, atom_id(('arg', 'r')): i, atom_id(('arg', 'c')): j, atom_id(('arg', 's')): i}
        ix = subst_rat(st.fn('drv_index_' + L).retval(), lambda a: env.get(a))
        sl = subst_rat(st.fn('drv_slice_' + L).retval(), lambda a: env.get(a))
        dom = v.facts() + [x for x in v.stored(i, j) if x is not True]
        for fn_, want in (('at', ix), ('atc', ix), ('slice', sl), ('slicem', sl), ('data', R(0)), ('datam', R(0))):
            f = m.fn('drv_%s_%s' % (fn_, L))
            ck.analysed(f.name)
            p = f.retval()
            ck.ok('%s %s: points into the object\'s own buffer' % (L, fn_), p[1] == v.data[1], 'include/coeff_matrix_2d.hpp')
            ck.eq('%s %s: address of the element' % (L, fn_), dom, p[2], want * 8, 'include/coeff_matrix_2d.hpp')
    ck.assumptions += ['operand shapes satisfy the asserted preconditions', 'index map facts of P01']
