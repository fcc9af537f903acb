"""P22: tidal variations in polar motion, UT1, LOD and rotation rate."""
import os
from engine import build
from engine.alg import R, A
from engine.fold import fold, trig
from .eopops import STUB, SRC, Fr, same, spec
from .tides import doodson, delaunay, tide

DIR = 'src/lib/eop/'


def run(ck):
    ck.rule('subdaily', 'ocean tide and libration variations: every tabulated line once, sine and cosine, argument from GMST and the Delaunay arguments')
    ck.rule('zonal', 'zonal tide variations: every line of Table 8.1 once; UT1 and LOD in microseconds; both implementations')
    ck.par(lambda c, k: k(c), [ocean, libration, zonal_main, zonal_iers])
    ck.assumptions += ['exact real arithmetic; table values as in spec/table82.txt, table51.txt, table81.txt']


def subdaily(ck, what, drv, src, table):
    m = build.linked('subdaily.cpp', build.sources('eop/' + src), flags=STUB)
    r = fold(m, drv)
    ck.analysed(drv)
    f = delaunay()
    b = doodson(f, A('arg', 'g'))
    syms = list(zip(('tau', 's', 'h', 'p', 'N', 'ps'), b))
    acc = [R(0)] * 4
    for row in spec(table):
        n, v = [int(x) for x in row[:6]], [Fr(x) for x in row[6:]]
        arg = sum((k * x for k, x in zip(n, b)), R(0))
        s, c = trig('sin', arg), trig('cos', arg)
        acc = [a + v[2 * i] * s + v[2 * i + 1] * c for i, a in enumerate(acc)]
    for i, nm in enumerate(('xp', 'yp', 'UT1', 'LOD')):
        tide(ck, '%s: variation of %s' % (what, nm), r.result(('arg', 'o'), 8 * i), acc[i], DIR + src)
    same(ck, '%s: return status' % what, r.ret, R(0), DIR + src)


def ocean(ck):
    subdaily(ck, 'ocean tide', 'drv_ocean', 'ocean_tide_variation.cpp', 'table82.txt')


def libration(ck):
    subdaily(ck, 'libration', 'drv_libration', 'libration.cpp', 'table51.txt')


def zonal(ck, src):
    if src == 'zonal_tides_iers.cpp' and not os.path.exists(SRC + 'eop/' + src):
        # not part of the library build
        return
    m = build.linked('zonal.cpp', build.sources('eop/' + src), flags=STUB)
    r = fold(m, 'drv_zonal')
    ck.analysed('drv_zonal (%s)' % src)
    f = delaunay()
    acc = [R(0)] * 3
    for row in spec('table81.txt'):
        n, v = [int(x) for x in row[:5]], [Fr(x) for x in row[5:]]
        arg = sum((k * x for k, x in zip(n, f)), R(0))
        s, c = trig('sin', arg), trig('cos', arg)
        acc = [acc[0] + 100 * (v[0] * s + v[1] * c), acc[1] + 10 * (v[2] * c + v[3] * s), acc[2] + v[4] * c + v[5] * s]
    for i, nm in enumerate(('UT1', 'LOD', 'rotation rate')):
        tide(ck, 'zonal tides (%s): variation of %s' % (src, nm), r.result(('arg', 'o'), 8 * i), acc[i], DIR + src, rel=1e-7 if 'iers' in src else 1e-11)
    same(ck, 'zonal tides: return status', r.ret, R(0), DIR + src)


def zonal_main(ck):
    zonal(ck, 'zonal_tides.cpp')


def zonal_iers(ck):
    zonal(ck, 'zonal_tides_iers.cpp')
