"""P26: lookup of points and nodes in a two-dimensional grid."""
from functools import lru_cache
from engine import build
from engine.alg import R, A
from engine.fold import fold
from .eopops import same, Fr

HDR = 'include/grid.hpp'
SIZES = [(1, 1), (1, 4), (4, 1), (2, 3), (3, 2), (5, 3)]
STEPS = [(Fr(1, 2), Fr(3, 4)), (Fr(3), Fr(1, 8))]
X0, Y0, F, G = (A('arg', n) for n in ('x0', 'y0', 'f', 'g'))
UNIT = (Fr(0), True, Fr(1), False)
POS = (Fr(0), False, Fr(10 ** 9), False)
NONNEG = (Fr(0), True, Fr(10 ** 9), False)


def run(ck):
    ck.rule('cell', 'a point of the grid is given the index of the node at the lower left of its cell: xi * ny + yi (leading x) or yi * nx + xi (leading y)')
    ck.rule('outside', 'a point left of, right of, below or above the grid has no index and no surrounding nodes (-1)')
    ck.rule('surrounding', 'the nodes around a point are those at (xi, yi), (xi+1, yi), (xi, yi+1), (xi+1, yi+1)')
    ck.rule('node', 'the node of every index lies at (x0 + xi dx, y0 + yi dy): the inverse of the index')
    mod()
    ck.par(one, [(k, ax, n, s) for ax in 'xy' for n in SIZES for s in STEPS for k in ('find', 'node', 'out')] + [('default', ax, 0, 0) for ax in 'xy'])
    for d in ('find', 'node', 'default'):
        for ax in 'xy':
            ck.analysed('drv_%s_%s' % (d, ax))
    ck.assumptions += ['positive steps; exact real arithmetic', 'grid sizes listed; any start, any point of a cell']


@lru_cache(None)
def mod():
    return build.driver('grid.cpp')


def go(drv, n, s, **kw):
    a = {'x0': X0, 'dx': R(s[0]), 'nx': R(n[0]), 'y0': Y0, 'dy': R(s[1]), 'ny': R(n[1])}
    a.update({k: R(v) for k, v in kw.items()})
    return fold(mod(), drv, args=a, ranges=RANGES)


RANGES = {F: UNIT, G: UNIT}


def index(ax, n, i, j):
    return i * n[1] + j if ax == 'x' else j * n[0] + i


def one(ck, it):
    kind, ax, n, s = it
    if kind == 'default':
        r = fold(mod(), 'drv_default_' + ax, args={'x': A('arg', 'f'), 'y': A('arg', 'g')}, ranges=RANGES)
        return same(ck, 'a default grid (leading %s) contains no point' % ax, r.ret, R(-1), HDR)
    what = 'leading %s, %d x %d points, steps %s, %s' % (ax, n[0], n[1], s[0], s[1])
    if kind == 'node':
        for i in range(n[0]):
            for j in range(n[1]):
                r = go('drv_node_' + ax, n, s, i=index(ax, n, i, j))
                for k, (nm, w) in enumerate((('x', X0 + i * s[0]), ('y', Y0 + j * s[1]), ('x step', R(s[0])), ('y step', R(s[1])), ('x stop', X0 + n[0] * s[0]), ('y stop', Y0 + n[1] * s[1]))):
                    same(ck, '%s: node %d, %s' % (what, index(ax, n, i, j), nm), r.result(('arg', 'o'), 8 * k), w, HDR)
        return
    lg = lambda r, k: r.result(('arg', 'l'), 8 * k, 'i64')
    if kind == 'out':
        # left, inside, right of the grid; F is the distance beyond, G the place inside
        xs = {'left': X0 - 1 + F, 'inside': X0 + G * s[0] * n[0], 'right': X0 + n[0] * s[0] + F}
        ys = {'below': Y0 - 1 + F, 'inside': Y0 + G * s[1] * n[1], 'above': Y0 + n[1] * s[1] + F}
        for nx, x in xs.items():
            for ny, y in ys.items():
                if nx == ny:
                    continue
                for z in (0, 1):
                    # z: exactly on the right or upper border
                    if z and 'right' != nx and 'above' != ny:
                        continue
                    r = go('drv_find_' + ax, n, s, x=X0 + n[0] * s[0] if z and nx == 'right' else x, y=Y0 + n[1] * s[1] if z and ny == 'above' else y)
                    same(ck, '%s: point %s, %s: no index' % (what, nx, ny), lg(r, 0), R(-1), HDR)
                r = go('drv_find_' + ax, n, s, x=x, y=y)
                for k, nm in enumerate(('index', 'bottom left', 'bottom right', 'top left', 'top right')):
                    same(ck, '%s: point %s, %s: %s' % (what, nx, ny, nm), lg(r, k), R(-1), HDR)
        return
    edge = []
    for i in range(n[0]):
        for j in range(n[1]):
            for a, b, nm in ((R(0), R(0), 'lower left corner'), (F, R(0), 'lower border'), (R(0), G, 'left border')):
                r = go('drv_find_' + ax, n, s, x=X0 + (a + i) * s[0], y=Y0 + (b + j) * s[1])
                for k, what2 in enumerate(('index', 'bottom left')):
                    same(ck, '%s: %s of cell (%d, %d): %s' % (what, nm, i, j, what2), lg(r, k), R(index(ax, n, i, j)), HDR)
            r = go('drv_find_' + ax, n, s, x=X0 + (F + i) * s[0], y=Y0 + (G + j) * s[1])
            same(ck, '%s: cell (%d, %d): index' % (what, i, j), lg(r, 0), R(index(ax, n, i, j)), HDR)
            for k, (nm, a, b) in enumerate((('bottom left', 0, 0), ('bottom right', 1, 0), ('top left', 0, 1), ('top right', 1, 1))):
                if i + a < n[0] and j + b < n[1]:
                    same(ck, '%s: cell (%d, %d): %s' % (what, i, j, nm), lg(r, 1 + k), R(index(ax, n, i + a, j + b)), HDR)
                else:
                    v = lg(r, 1 + k)
                    edge.append(v == R(-1) if v.is_const() else None)
    ck.ok('cells of the last column or row (leading %s): neighbours beyond the grid are reported as missing' % ax, all(edge) if None not in edge else None, HDR, key='grid edge cells')
