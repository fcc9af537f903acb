"""P25: geopotential of ocean and atmospheric tides."""
from functools import lru_cache
from engine import build
from engine.alg import R, A
from engine.fold import fold, trig, Dead
from . import strs
from .eopops import STUB, Fr, TWOPI, same, ld
from .tides import gmst, doodson, delaunay, tide

OC = 'src/lib/ocean_tide/ocean_tide_potential.cpp'
AT = 'src/lib/atmospheric_tides/atm_tides_geopotential.cpp'
HDR = 'include/ocean_tide.hpp'
# constituents of the atlas, with phase factors, and those of the admittance model
WAVES = [((1, 1, 0, 0, 0, 0), 0), ((2, -2, 2, 0, 1, -1), 1), ((0, 0, 1, 0, 0, -1), -1), ((1, -1, 0, 2, 0, 0), 2)]
MINOR = [(1, 1, 0, 0, 0, 0), (0, 2, -1, 0, 3, 0), (3, 0, -2, 1, 0, 1)]
QUERIES = WAVES + [(tuple(x + (1 if i == j else 0) for i, x in enumerate(WAVES[0][0])), 0) for j in range(6)] + [(WAVES[1][0], 0)]


def run(ck):
    ck.rule('sum', 'every coefficient is the sum over the constituents of (cosine coefficient) cos + (sine coefficient) sin of the constituent\'s argument')
    ck.rule('admittance', 'with an admittance model, cos and sin are replaced by the row of the admittance matrix times the cosines and sines of all its constituents')
    ck.rule('reset', 'nothing of earlier results remains')
    ck.rule('name', 'names of any length fit: cut to 63 characters, always terminated, nothing else of the object changed')
    ck.rule('atlas', 'a constituent is found exactly by its multipliers and phase factor; one already present is refused, another one appended with the given degree and order')
    ck.rule('owner', 'copies and moved-to objects give the results of their source; every admittance model is released once, none is used after release')
    items = [(d, n, deg, o, 0) for d in ('drv_ocean', 'drv_atm') for n, deg, o in ((1, 2, 2), (3, 3, 1), (2, 2, 0), (0, 0, 0))]
    items += [('drv_adm', n, deg, o, how) for n, deg, o in ((1, 2, 2), (3, 3, 1)) for how in (0, 1)]
    items += [('drv_own', ha, hb, 0, op) for ha in (0, 1) for hb in (0, 1) for op in range(8)]
    items += [('drv_name', kind, n, 0, 0) for kind in range(4) for n in (0, 1, 62, 63, 64, 200)] + [('drv_name', kind, 0, 0, 0) for kind in (4, 5, 6)]
    items += [('drv_find', n, k, 0, 0) for n in (0, 1, 3, 4) for k in range(len(QUERIES))]
    items += [('drv_append', n, how, dup, k) for n in (0, 1, 3) for how in (0, 1) for dup in range(n + 1) for k in (0, 1)]
    mod()
    ck.par(one, items)
    for d in ('drv_ocean', 'drv_atm', 'drv_adm', 'drv_own', 'drv_name', 'drv_find', 'drv_append'):
        ck.analysed(d)
    ck.assumptions += ['all constituents of an atlas have the same degree and order; constituents given are distinct',
                       'up to three constituents, degree up to 3: the sum of the coefficient matrices is elementwise for every size by P02',
                       'exact real arithmetic; constants to rounding']


@lru_cache(None)
def mod():
    return build.linked('tidesum.cpp', build.sources('ocean_tide/*.cpp', 'atmospheric_tides/atm_tides_geopotential.cpp', 'tide_atlas.cpp', 'tidal_constituent.cpp',
                                                     'iau/era00.cpp', 'iau/gmst.cpp', 'stokes_coefficients.cpp', 'doodson/*.cpp'), flags=STUB)


def ints(xs):
    return {4 * i: (R(x), 4) for i, x in enumerate(xs)}


def angles(waves):
    b = doodson(delaunay(), gmst('tt', 'ut1'))
    return [sum((k * x for k, x in zip(w, b)), R(0)) for w in waves]


def terms(n, m, s, fac):
    """coefficient (n, m), cosine (s = 0) or sine coefficients, from factors (cos, sin) per constituent"""
    out = R(0)
    for i, (c, q) in enumerate(fac):
        at = 100 * i + 25 * s + 5 * n + m
        out = out + ld('v', 8 * at) * c + ld('v', 8 * (at + 50)) * q
    return out


def admitted(n, base=0):
    th = angles(MINOR)
    w = []
    for i in range(n):
        a = [ld('a', 8 * (base + 8 * i + j)) for j in range(len(MINOR))]
        w.append((sum((x * trig('cos', t) for x, t in zip(a, th)), R(0)), sum((x * trig('sin', t) for x, t in zip(a, th)), R(0))))
    return w


def plain(n, atm=False):
    th = [t + (R(TWOPI) / 4 * p if atm else 0) for t, (_, p) in zip(angles([w for w, _ in WAVES]), WAVES)][:n]
    return [(trig('cos', t), trig('sin', t)) for t in th]


def field(ck, what, r, out, deg, order, fac, loc, syms):
    for n in range(deg + 1):
        for m in range(min(n, order) + 1):
            for s in (0, 1):
                tide(ck, '%s: %s(%d,%d)' % (what, 'CS'[s], n, m), r.result(('arg', out), 8 * (25 * s + 5 * n + m)), terms(n, m, s, fac), loc, syms=syms)


def one(ck, it):
    drv, n, deg, order, how = it
    mem = {('arg', 'k'): ints([x for w, _ in WAVES for x in w]), ('arg', 'K'): ints([x for w in MINOR for x in w]),
           ('arg', 'pf'): {8 * i: (R(p), 8) for i, (_, p) in enumerate(WAVES)}}
    syms = [('gmst', gmst('tt', 'ut1'))]
    if drv == 'drv_own':
        return owner(ck, mem, syms, n, deg, how)
    if drv == 'drv_find':
        return find(ck, mem, n, deg)
    if drv == 'drv_append':
        return append(ck, mem, n, deg, order, (4, 3) if how else (1, 0))
    if drv == 'drv_name':
        return names(ck, mem, syms, n, deg)
    r = fold(mod(), drv, args={'n': R(n), 'deg': R(deg), 'ord': R(order), 'nf': R(len(MINOR)), 'how': R(how)}, mem=mem)
    loc = AT if drv == 'drv_atm' else OC
    what = '%s, %d constituents, degree %d, order %d' % ({'drv_ocean': 'ocean tide', 'drv_atm': 'atmospheric tide', 'drv_adm': 'ocean tide with admittance'}[drv], n, deg, order)
    fac = admitted(n) if drv == 'drv_adm' else plain(n, drv == 'drv_atm')
    field(ck, what, r, 'o', deg, order, fac, loc, syms)
    for i, (nm, w) in enumerate((('degree', deg), ('order', order), ('status', 0))):
        same(ck, '%s: %s' % (what, nm), r.result(('arg', 'q'), 4 * i, 'i32'), R(w), HDR if i < 2 else loc)
    ck.ok('%s: within bounds, always returns' % what, not r.deads and not r.faults, loc, str(r.faults + r.deads)[:300])


def owner(ck, mem, syms, ha, hb, op):
    r = fold(mod(), 'drv_own', args={'n': R(2), 'deg': R(1), 'ord': R(1), 'nf': R(len(MINOR)), 'ha': R(ha), 'hb': R(hb), 'op': R(op)}, mem=mem)
    a = 0 if ha else None
    b = 16 if hb else None
    nm = ('copy assignment', 'move assignment', 'copies there and back', 'move and copy construction', 'self assignment', 'swap', 'replacing the admittance model', 'self move')[op]
    what = '%s, %s admittance to %s' % (nm, 'with' if hb else 'without', 'one with' if ha else 'one without')
    A_ = {0: b, 1: b, 2: a, 3: a, 4: a, 5: b, 6: 32, 7: a}[op]
    B_ = {0: b, 2: a, 4: b, 5: a, 6: 32, 7: b}.get(op, 'none')
    for out, k in (('o', A_), ('p', B_)):
        if k != 'none' and not (op == 7 and out == 'o'):
            field(ck, '%s (%s)' % (what, 'target' if out == 'o' else 'other'), r, out, 1, 1, plain(2) if k is None else admitted(2, k), HDR, syms)
    ck.ok('%s: ownership' % what, not r.deads and not r.faults, HDR, '; '.join(dict.fromkeys(map(str, r.faults + r.deads)))[:400])
    ck.ok('%s: everything is released' % what, not r.leaks, HDR, '%d heap blocks are never released: %s' % (len(r.leaks), r.leaks[:4]))


def names(ck, mem, syms, kind, n):
    t = ''.join(chr(65 + i % 26) for i in range(n))
    mem[('arg', 'name')] = strs.const(t)
    r = fold(mod(), 'drv_name', args={'kind': R(kind), 'nf': R(len(MINOR))}, mem=mem, handlers=strs.HANDLERS)
    loc = 'include/atmospheric_tides.hpp' if kind in (1, 3, 5) else HDR
    what = '%s constructed %s' % (('ocean tide', 'atmospheric tide', 'ocean tide with admittance', 'atmospheric tide without atlas')[kind % 4] if kind < 4 else ('ocean tide', 'atmospheric tide', 'ocean tide with admittance')[kind - 4],
                                  'with a name of %d characters' % n if kind < 4 else 'without a name')
    want = [ord(x) for x in (t if kind < 4 else 'a')][:63] + [0]
    got = [r.result(('arg', 'c'), i, 'i8') for i in range(len(want))]
    ck.ok('%s: name' % what, all((g - w).is_zero() for g, w in zip(got, want)), loc, 'wrong or unterminated name')
    if kind < 4:
        field(ck, what, r, 'o', 1, 1, [] if kind == 3 else admitted(1) if kind == 2 else plain(1, kind == 1), loc, syms)
    ck.ok('%s: always returns' % what, not r.deads and not r.faults, loc, str(r.faults + r.deads)[:300])


def find(ck, mem, n, k):
    q = QUERIES[k]
    r = fold(mod(), 'drv_find', args=dict({'n': R(n), 'p': R(q[1])}, **{'c%d' % i: R(x) for i, x in enumerate(q[0])}), mem=mem, handlers=strs.HANDLERS)
    at = WAVES[:n]
    w = at.index(q) if q in at else n
    loc = 'src/lib/tide_atlas.cpp'
    for nm, g in (('', r.ret), (', constant atlas', r.result(('arg', 'q'), 0, 'i32'))):
        same(ck, 'constituent %s (phase factor %d) in an atlas of %d%s' % (*q, n, nm), g, R(w), loc)
    ck.ok('constituent %s (phase factor %d) in an atlas of %d: within bounds' % (*q, n), not r.deads and not r.faults, loc, str(r.faults + r.deads)[:300])


def append(ck, mem, n, how, dup, size):
    """constituent number dup again, or a new one"""
    loc = 'src/lib/tide_atlas.cpp'
    c = WAVES[dup][0]
    mem[('arg', 'k')] = ints([x for w, _ in WAVES[:n] for x in w] + list(c))
    mem[('arg', 'pf')] = {8 * i: (R(p), 8) for i, p in enumerate([p for _, p in WAVES[:n]] + [WAVES[dup][1]])}
    what = 'appending %s constituent to an atlas of %d (%s)' % ('a new' if dup == n else 'a known', n, 'by coefficients' if how else 'by wave')
    try:
        r = fold(mod(), 'drv_append', args={'n': R(n), 'how': R(how), 'deg': R(size[0]), 'ord': R(size[1])}, mem=mem, handlers=strs.HANDLERS)
    except Dead:
        r = None
    if r is None or dup < n:
        ck.ok('%s: is %s' % (what, 'refused' if dup < n else 'accepted'), r is None and dup < n, loc, 'accepted' if r else 'refused')
        return
    D, O = max([size[0]] + [2] * (n > 0)), max([size[1]] + [1] * (n > 0))
    want = [n + 1, n, size[0], size[0], size[1], size[1], D, O, D] + list(c)
    for i, w in enumerate(want):
        same(ck, '%s: %s' % (what, ('size', 'position', 'degree', 'degree', 'order', 'order', 'largest degree', 'largest order', 'largest degree')[i] if i < 9 else 'multipliers'),
             r.result(('arg', 'q'), 4 * i, 'i32'), R(w), loc)
    ck.ok('%s: within bounds' % what, not r.deads and not r.faults, loc, str(r.faults + r.deads)[:300])
