"""P27: planets (NAIF identifiers, units, kernels)."""
from functools import lru_cache
from engine import build
from engine.alg import R, A
from engine.vf import P, isP
from engine.fold import fold, UNDEF
from . import strs
from .eopops import STUB, same

DIR = 'src/lib/planets/'
HDR = 'include/planets.hpp'
ID = [('EARTH', 399), ('MOON', 301), ('SUN', 10), ('MERCURY', 199), ('VENUS', 299), ('MARS', 499), ('JUPITER', 599), ('SATURN', 699)]
KERNELS = [(), ('a/naif0012.tls',), ('de421.bsp.part', 'de421.bsp'), ('de421.bsp.part',), ('de4',), ('gm_de431.tpc', 'naif0012.tls', 'de421.bsp'), ('naif0012.tls', 'x'), ('',)]


def run(ck):
    ck.rule('id', 'every planet has its own NAIF identifier, as number and as null-terminated text; anything else is refused')
    ck.rule('position', 'position (state) of the planet with respect to the Earth (399) in the J2000 frame without corrections, at the ephemeris time of the epoch, in SI units')
    ck.rule('kernel', 'a kernel is loaded exactly when no kernel of that name is')
    ck.rule('gm', 'gravitational constants of Sun and Moon from the kernel pool, in km or in SI units as asked')
    mod()
    codes = fold(mod(), 'drv_enum')
    val = [int(codes.result(('arg', 'o'), 4 * i, 'i32').cval()) for i in range(8)]
    free = next(v for v in range(100) if v not in val)
    todo = list(zip(val, ID)) + [(free, (None, None))]
    ck.par(one, [('planet', c, x) for c, x in todo] + [('load', h, k) for h in KERNELS for k in ('de421.bsp', 'naif0012.tls')] + [('gm', how, si) for how in ('name', 'loaded', 'null', 'default') for si in (0, 1)])
    for d in ('id', 'idstr', 'pos', 'state', 'load', 'gm', 'gm_null', 'gm_default'):
        ck.analysed('drv_' + d)
    ck.assumptions += ['the SPICE functions behave as documented (models in checks/p27.py)', 'exact real arithmetic']


@lru_cache(None)
def mod():
    return build.linked('planets.cpp', build.sources('planets/*.cpp'), flags=STUB)


def text(f, p):
    t = strs.text(f, p)
    return None if t is None else bytes(c & 255 for c in t).decode('latin1')


class Spice:
    """models of the SPICE functions; every call is noted"""

    def __init__(self, loaded=()):
        self.loaded = list(loaded)
        self.calls = []
        h = dict(strs.HANDLERS)
        h.update({'unitim_c': self.unitim, 'spkezp_c': self.pos, 'spkezr_c': self.state, 'bodvrd_c': self.bod, 'ktotal_c': self.total, 'kdata_c': self.data, 'furnsh_c': self.furnsh})
        self.h = h

    def unitim(self, f, I, v):
        return A('fn', 'unitim_%s_%s' % (text(f, v[1]), text(f, v[2])), (v[0],))

    def put(self, f, p, nm, n):
        for i in range(n):
            f.store(P(p[1], p[2] + 8 * i), A('arg', '%s%d' % (nm, i)), 8)

    def pos(self, f, I, v):
        self.calls.append(('pos', v[0], v[1], text(f, v[2]), text(f, v[3]), v[4]))
        self.put(f, v[5], 'p', 3)
        f.store(v[6], A('arg', 'lt'), 8)
        return UNDEF

    def state(self, f, I, v):
        num = lambda s: R(int(s)) if s and s.isdigit() else s
        self.calls.append(('state', num(text(f, v[0])), v[1], text(f, v[2]), text(f, v[3]), num(text(f, v[4]))))
        self.put(f, v[5], 'p', 6)
        f.store(v[6], A('arg', 'lt'), 8)
        return UNDEF

    def bod(self, f, I, v):
        b, w = text(f, v[0]), text(f, v[1])
        self.calls.append(('pool', tuple(self.loaded)))
        f.store(v[3], R(1), 4)
        f.store(v[4], A('arg', '%s of %s' % (w, b)), 8)
        return UNDEF

    def total(self, f, I, v):
        f.store(v[1], R(len(self.loaded)) if text(f, v[0]) == 'ALL' else A('arg', 'kernels of a kind'), 4)
        return UNDEF

    def data(self, f, I, v):
        i = int(v[0].cval())
        ok = 0 <= i < len(self.loaded)
        f.store(v[9], R(int(ok)), 4)
        if ok:
            for p, n, s in ((v[5], v[2], self.loaded[i]), (v[6], v[3], 'SPK'), (v[7], v[4], '')):
                for j, c in enumerate(s.encode()[:int(n.cval()) - 1] + b'\0'):
                    f.store(P(p[1], p[2] + j), R(c), 1)
            f.store(v[8], R(1), 4)
        return UNDEF

    def furnsh(self, f, I, v):
        n = text(f, v[0])
        self.calls.append(('furnsh', n))
        self.loaded.append(n)
        return UNDEF


def one(ck, it):
    kind, c, x = it
    if kind == 'load':
        s = Spice(c)
        r = fold(mod(), 'drv_load', mem={('arg', 'k'): strs.const(x)}, handlers=s.h)
        want = [] if x in c else [('furnsh', x)]
        what = 'loading %s with %s loaded' % (x, ', '.join(c) or 'nothing')
        ck.ok(what, s.calls == want and not r.deads and not r.faults, DIR + 'kernel.cpp', 'calls made: %s, required: %s' % (s.calls, want))
        return same(ck, what + ': status', r.ret, R(0), HDR)
    if kind == 'gm':
        k = 'pck.tpc'
        s = Spice((k,) if c == 'loaded' else ())
        drv = 'drv_gm' if c in ('name', 'loaded') else 'drv_gm_' + c
        r = fold(mod(), drv, args={'si': R(x)}, mem={('arg', 'k'): strs.const(k)}, handlers=s.h)
        f = R(10) ** 9 if x and c != 'default' else R(1)
        what = 'gravitational constants, %s, %s' % ({'name': 'kernel not loaded yet', 'loaded': 'kernel loaded', 'null': 'no kernel name', 'default': 'default arguments'}[c], 'SI' if x and c != 'default' else 'km')
        for i, b in enumerate(('SUN', 'MOON')):
            same(ck, '%s: %s' % (what, b), r.result(('arg', 'o'), 8 * i), A('arg', 'GM of ' + b) * f, DIR + 'kernel_consts.cpp')
        if c in ('name', 'loaded'):
            ck.ok('%s: kernel is loaded before the constants are read' % what, all(k in l for q, l in s.calls if q == 'pool') and [q for q in s.calls if q[0] == 'furnsh'] == [('furnsh', k)][:c == 'name'], DIR + 'kernel_consts.cpp', str(s.calls))
        return same(ck, what + ': status', r.ret, R(0), DIR + 'kernel_consts.cpp')
    nm, no = x
    what = nm or 'no planet'
    r = fold(mod(), 'drv_id', args={'p': R(c)}, handlers=strs.HANDLERS)
    ok0 = r.ret.is_zero() if r.ret.is_const() else None
    ck.ok('%s: identifier %s' % (what, 'known' if no else 'refused'), ok0 if no or ok0 is None else not ok0, DIR + 'planet_to_naif_id.cpp')
    if no:
        same(ck, '%s: identifier' % what, r.result(('arg', 'o'), 0, 'i32'), R(no), DIR + 'planet_to_naif_id.cpp')
    for n in (4, 8, 16):
        r = fold(mod(), 'drv_idstr', args={'p': R(c), 'n': R(n)}, handlers=strs.HANDLERS)
        if no:
            same(ck, '%s: text, buffer of %d: status' % (what, n), r.ret, R(0), DIR + 'planet_to_naif_id.cpp')
            t = text(r, P(('arg', 'b')))
            ck.ok('%s: text, buffer of %d' % (what, n), None if t is None else t == str(no), DIR + 'planet_to_naif_id.cpp', 'text: %s' % t)
            out = [o for o in r.mem.get(('arg', 'b'), {}) if not 0 <= o < n]
            ck.ok('%s: text stays in the buffer of %d' % (what, n), not out and not r.faults, DIR + 'planet_to_naif_id.cpp', str(out))
        else:
            ck.ok('%s: no text, buffer of %d' % (what, n), None if not r.ret.is_const() else not r.ret.is_zero(), DIR + 'planet_to_naif_id.cpp')
    for d, n in (('pos', 3), ('state', 6)):
        s = Spice()
        r = fold(mod(), 'drv_' + d, args={'p': R(c)}, handlers=s.h)
        loc = DIR + 'planet_%s.cpp' % d
        if not no:
            ck.ok('%s: %s refused' % (what, d), None if not r.ret.is_const() else not r.ret.is_zero() and not s.calls, loc)
            continue
        same(ck, '%s: %s status' % (what, d), r.ret, R(0), loc)
        for i in range(n):
            same(ck, '%s: %s component %d in SI units' % (what, d, i), r.result(('arg', 'o'), 8 * i), A('arg', 'p%d' % i) * 1000, loc)
        jd = tt()
        ok = len(s.calls) == 1
        ck.ok('%s: %s is asked for once' % (what, d), ok, loc, str(s.calls)[:300])
        if ok:
            q, tgt, et, frame, corr, obs = s.calls[0]
            same(ck, '%s: %s: ephemeris time' % (what, d), et, A('fn', 'unitim_JDTDT_ET', (jd,)), HDR)
            ck.ok('%s: %s: target, frame, correction, observer' % (what, d), (tgt == R(no) if q == d else None) and frame == 'J2000' and corr == 'NONE' and obs == R(399) if q == d else None, loc,
                  'target %s, frame %s, correction %s, observer %s' % (tgt, frame, corr, obs))


def tt():
    from .eopops import ld
    return ld('t', 0, 'i32') + (ld('t', 8) / 86400) + R(4800001) / 2
