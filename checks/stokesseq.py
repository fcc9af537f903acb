"""Histories of operations on Stokes-coefficient sets, partially evaluated for
given dimensions with the coefficients left symbolic (supplements the general
obligations of P04-P06, which quantify over the dimensions)."""
from functools import lru_cache
from engine import build
from engine.alg import R, A
from engine.fold import fold, Dead
from engine.vf import P
from .eopops import same
from .stokesops import HDR, LIB

NEW, COPY, MOVE, SWAP, CCTOR, MCTOR, RESIZE, CRESIZE, SHRINK, ADD, CLEAR, SCALE, ANM, ANM1 = range(14)
NAMES = 'construct,copy,move,swap,copy-construct,move-construct,resize,cresize,shrink,add,clear,scale,pack/unpack,pack/unpack with order'.split(',')
GMe, REe = None, None


@lru_cache(None)
def mod():
    return build.driver('stokesseq.cpp')


def inp(q, i):
    return A('ld', ('arg', 'in'), R(8 * (64 * q + i)), 'double', None)


class Set:
    """deg, ord, flag, GM, Re and coefficients of storage; None: unspecified"""

    def __init__(self, n=0, m=0, flag=1, GM=None, Re=None):
        self.n, self.m, self.flag, self.GM, self.Re = n, m, flag, GM, Re
        self.v = {}

    def copy(self):
        c = Set(self.n, self.m, self.flag, self.GM, self.Re)
        c.v = dict(self.v)
        return c

    def fill(self, q):
        self.GM, self.Re = inp(q, 0), inp(q, 1)
        p = 2
        self.v = {}
        for n in range(self.n + 1):
            for m in range(n + 1):
                for X in 'CS':
                    self.v[X, n, m] = inp(q, p)
                    p += 1


def model(prog):
    """(sets after the history, returns of shrink) or None where it is not in the domain"""
    s = [None] * 3
    ret = {}
    for q, (op, a, b, n, m, fl) in enumerate(prog):
        if op == NEW:
            s[a] = Set(n, m if m >= 0 else n, fl)
            s[a].fill(q)
            continue
        if op in (RESIZE, CRESIZE, SHRINK, CLEAR, SCALE):
            if s[a] is None:
                return None
        elif s[b] is None:
            return None
        if op in (COPY, CCTOR):
            s[a] = s[b].copy()
        elif op in (MOVE, MCTOR):
            if a != b:
                s[a], s[b] = s[b], None
        elif op == SWAP:
            s[a], s[b] = s[b], s[a]
            if s[a] is None:
                return None
        elif op == RESIZE:
            s[a].n, s[a].m = n, m
            s[a].fill(q)
        elif op == CRESIZE:
            old = s[a]
            s[a] = old.copy()
            s[a].n, s[a].m = n, m
            s[a].v = {k: x for k, x in old.v.items() if k[1] <= min(n, old.n)}
        elif op == SHRINK:
            ok = m <= n <= s[a].n and m <= s[a].m
            ret[q] = 0 if ok else None
            if ok:
                s[a].n, s[a].m = n, m
        elif op == ADD:
            if s[a] is None or s[b].n > s[a].n or s[b].m > s[a].m:
                return None
            src = s[b].copy()
            for (X, i, j), x in list(s[a].v.items()):
                if i <= src.n and j <= src.m and i <= s[a].n:
                    y = src.v.get((X, i, j))
                    s[a].v[X, i, j] = None if x is None or y is None else x + y
        elif op == CLEAR:
            for k in list(s[a].v):
                s[a].v[k] = R(0)
            for i in range(s[a].n + 1):
                for j in range(i + 1):
                    s[a].v['C', i, j] = s[a].v['S', i, j] = R(0)
        elif op == SCALE:
            for k, x in list(s[a].v.items()):
                s[a].v[k] = None if x is None else x * inp(q, 0)
        elif op in (ANM, ANM1):
            src = s[b].copy()
            t = Set(src.n, src.n if op == ANM or n < 0 else n)
            t.flag = None
            for i in range(src.n + 1):
                for j in range(i + 1):
                    t.v['C', i, j] = src.v.get(('C', i, j))
                    t.v['S', i, j] = R(0) if j == 0 else src.v.get(('S', i, j))
            if op == ANM:
                s[b].fill(q)
            s[a] = t
    return s, ret


def text(prog):
    return '; '.join('%s %s' % (NAMES[p[0]], ','.join(str(x) for x in p[1:])) for p in prog)


def instance(ck, prog):
    w = model(prog)
    if w is None:
        return
    sets, ret = w
    what = 'history [%s]' % text(prog)
    mem = {('arg', 'g'): {4 * i: (R(x), 4) for i, x in enumerate([y for p in prog for y in p])}}
    loc = LIB if any(p[0] in (ADD, RESIZE, CRESIZE) for p in prog) else HDR
    try:
        d = fold(mod(), 'drv_seq', {'len': R(len(prog)), 'mask': R(sum(1 << i for i in range(3) if sets[i] is not None))}, mem)
    except Dead:
        ck.ok(what + ': completes', False, loc, 'the history ends in an access through a null pointer or an abort')
        return
    ck.ok(what + ': completes', not d.deads, loc)
    ck.ok(what + ': no access outside the buffers', not d.faults, loc, '; '.join(d.faults[:3]))
    ck.ok(what + ': every buffer is released', not d.leaks, loc, str(d.leaks[:2]))
    p = 0
    for i, s in enumerate(sets):
        if s is None:
            continue
        g = lambda q: d.result(('arg', 'k'), 4 * (4 * i + q), 'i32')
        n = g(0)
        same(ck, '%s: degree of set %d' % (what, i), n, R(s.n), loc)
        same(ck, '%s: order of set %d' % (what, i), g(1), R(s.m), loc)
        if s.flag is not None:
            same(ck, '%s: normalization flag of set %d' % (what, i), g(2), R(s.flag), loc)
        if s.GM is not None:
            same(ck, '%s: gravitational constant of set %d' % (what, i), d.result(('arg', 'o'), 8 * p), s.GM, loc)
            same(ck, '%s: radius of set %d' % (what, i), d.result(('arg', 'o'), 8 * p + 8), s.Re, loc)
        if not n.is_const():
            return
        k = p + 2
        for r in range(int(n.cval()) + 1):
            for c in range(r + 1):
                for X in 'CS':
                    want = s.v.get((X, r, c))
                    if want is not None:
                        same(ck, '%s: %s(%d,%d) of set %d' % (what, X, r, c, i), d.result(('arg', 'o'), 8 * k), want, loc)
                    k += 1
        p = k
    for q, x in ret.items():
        v = d.result(('arg', 'k'), 4 * (16 + q), 'i32')
        ck.ok('%s: shrink %s' % (what, 'succeeds' if x == 0 else 'fails'), (v.is_zero() == (x == 0)) if v.is_const() else None, loc)


DIM = ((3, 3), (2, 1), (1, 0), (3, 1), (0, 0))
VALUE = [(COPY, 0, 1), (COPY, 0, 0), (MOVE, 0, 1), (SWAP, 0, 1), (SWAP, 0, 0), (CCTOR, 2, 0), (MCTOR, 2, 0), (RESIZE, 0, 0), (CRESIZE, 0, 0), (SHRINK, 0, 0)]


def ops(table, dims):
    for t in table:
        if t[0] in (RESIZE, CRESIZE, SHRINK):
            for n, m in dims:
                yield t + (n, m, 0)
        else:
            yield t + (0, 0, 0)


def start(a, b):
    return [(NEW, 0, 0) + a + (1,), (NEW, 1, 0) + b + (0,)]


def value_programs():
    for a in DIM:
        for b in DIM[:4]:
            for o in ops(VALUE, DIM[:3]):
                yield start(a, b) + [o]
    for a, b in ((DIM[1], DIM[0]), (DIM[0], DIM[3])):
        for o in ops(VALUE, DIM[:3]):
            for q in ops(VALUE, (DIM[0], DIM[2])):
                yield start(a, b) + [o, q]


def arith_programs():
    for a in DIM:
        for b in DIM:
            yield start(a, b) + [(ADD, 0, 1, 0, 0, 0)]
        for o in ((ADD, 0, 0, 0, 0, 0), (CLEAR, 0, 0, 0, 0, 0), (SCALE, 0, 0, 0, 0, 0)):
            yield start(a, a) + [o]
        for o in ops([(SHRINK, 0, 0), (CRESIZE, 0, 0), (SWAP, 0, 1), (MOVE, 0, 1), (SHRINK, 1, 1)], DIM[1:4]):
            for q in ((ADD, 0, 1, 0, 0, 0), (ADD, 0, 0, 0, 0, 0), (CLEAR, 0, 0, 0, 0, 0), (SCALE, 0, 0, 0, 0, 0)):
                yield start(a, DIM[1]) + [o, q]


def anm_programs():
    for a in DIM:
        yield start(a, a) + [(ANM, 2, 0, 0, 0, 0)]
        for m in range(-1, a[0] + 1):
            yield start(a, a) + [(ANM1, 2, 0, m, 0, 0)]
        for o in ops([(SHRINK, 0, 0), (COPY, 0, 1), (CRESIZE, 0, 0)], DIM[1:4]):
            yield start(a, DIM[1]) + [o, (ANM, 2, 0, 0, 0, 0)]


def run(ck, programs):
    mod()
    ck.analysed('drv_seq')
    ps = list(programs())
    ck.par(lambda c, i: [instance(c, p) for p in ps[i::16]], range(16))
