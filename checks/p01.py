"""P01 storage maps: every layout's index map is a bijection onto its buffer."""
from engine import build
from engine.alg import R, A
from engine.logic import lt, le, ge, And
from engine.cases import prove_eq, prove, simplify
from engine.report import Check
from engine.alg import subst_rat, atom_id

LAYOUTS = {'RowWise': ('row', False), 'ColumnWise': ('col', False), 'Trapezoid': ('row', True),
           'LwTriangularRowWise': ('row', True), 'LwTriangularColWise': ('col', True)}


def run(ck):
    ck.rule('bijection', 'index(r,c) == slice(s)+k, slices tile [0,num_elements) and slice s holds exactly the stored entries of row/column s')
    m = build.driver('storage.cpp')
    rows, cols, r, c, s = [A('arg', x) for x in ('rows', 'cols', 'r', 'c', 's')]
    for L, (major, tri) in LAYOUTS.items():
        g = lambda n: m.fn('drv_%s_%s' % (n, L)).retval()
        loc = 'include/coeff_matrix_storage.hpp (%s)' % L
        for n in ('index', 'size', 'slice', 'slice2', 'slicen', 'nslices', 'nrows', 'ncols', 'frow', 'fcol'):
            f = m.fn('drv_%s_%s' % (n, L))
            ck.analysed(f.name)
        dims = [ge(rows, 0), ge(cols, 0)]
        if L.startswith('LwTri'):
            dims.append(R(0) == R(0))
            cc = rows          # square by contract
        else:
            cc = cols
        if L == 'Trapezoid':
            dims.append(le(cols, rows))
        dims = [d for d in dims if d is not True]
        size, index = g('size'), g('index')
        slice_, slice2, slicen, ns = g('slice'), g('slice2'), g('slicen'), g('nslices')
        nm = lambda t: '%s: %s' % (L, t)
        ck.eq(nm('number of rows reported'), dims, g('nrows'), rows, loc)
        ck.eq(nm('number of columns reported'), dims, g('ncols'), cc, loc)
        ck.eq(nm('re-dimensioning sets rows'), dims, g('setrows'), rows, loc)
        ck.eq(nm('re-dimensioning sets columns'), dims, g('setcols'), cc, loc)
        ck.eq(nm('one slice per %s' % ('row' if major == 'row' else 'column')), dims, ns, rows if major == 'row' else cc, loc)
        ck.eq(nm('layout flag (row major)'), dims, g('rowmajor'), R(1 if major == 'row' else 0), loc)
        ck.eq(nm('layout flag (column major)'), dims, g('colmajor'), R(0 if major == 'row' else 1), loc)
        sid = atom_id(('arg', 's'))
        at = lambda e, v: subst_rat(e, lambda x: R(v) if x == sid else None)
        ds = dims + [ge(s, 0), lt(s, ns)]
        # number of entries in slice s
        if major == 'row':
            want = cc if not tri else None
            if tri:
                from engine.vf import mm
                want = mm('min', s + 1, cc)
        else:
            want = rows - s if tri else rows
        ck.eq(nm('slice length is the number of stored entries'), ds, slicen, want, loc)
        ck.eq(nm('both slice overloads agree'), ds, slice_, slice2, loc)
        ck.eq(nm('first slice starts at 0'), dims, at(slice_, 0), R(0), loc)
        ck.eq(nm('slices are contiguous'), ds, at(slice_, s + 1) - slice_, slicen, loc)
        ck.eq(nm('slices fill the buffer'), dims, at(slice_, ns), size, loc)
        dom = dims + [ge(r, 0), lt(r, rows), ge(c, 0), lt(c, cc)] + ([le(c, r)] if tri else [])
        if major == 'row':
            pos = at(slice_, r) + c
        else:
            pos = at(slice_, c) + (r - c if tri else r)
        ck.eq(nm('element position is slice start plus offset'), dom, index, pos, loc)
        fr, fc = g('frow'), g('fcol')
        ck.eq(nm('first stored row of a column'), dom, fr, c if tri else R(0), loc)
        ck.eq(nm('first stored column of a row'), dom, fc, R(0), loc)
    ck.assumptions += ['dimensions and products stay within int range', 'triangular layouts are built with rows==cols (asserted by the constructor)',
                       'trapezoid: cols <= rows']
