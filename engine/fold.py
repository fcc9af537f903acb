"""Constant folding of table-driven code.

Loops whose trip counts are fixed by constants (literals, `constexpr` tables) are
unrolled and folded the way a compiler's full unroller does: integers, pointers
and table entries become constants, floating-point results stay exact algebraic
expressions of the symbolic inputs.  At a branch whose condition is not a constant
both arms are folded up to the join point and their effects are merged; an arm
that cannot return (error path) contributes nothing.  What comes out is the closed
form of the value computed for every input."""
from fractions import Fraction as Fr
from . import alg
from .alg import R, A, Rat, atom_desc, fn
from .logic import Not
from .vf import Fn, P, isP, isF, ite, UNDEF, FMATH, cval, AnalysisError, desc_key

MATH1 = ('sin', 'cos', 'sqrt', 'fabs', 'atan2', 'exp', 'log', 'asin', 'acos', 'atan', 'tan', 'pow', 'fmod')
BITS = {'i1': 1, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64}
MAXSTEP = 6_000_000


class Dead(Exception):
    """the path ends without returning"""


class Thrown(Dead):
    """an exception leaves the call"""


# typeinfos that match what the code throws (std::runtime_error)
CATCHES = ('_ZTISt9exception', '_ZTISt13runtime_error')


class Fold(Fn):
    """folds one call of a function: Fold(mod, d).run(args, mem)"""

    def __init__(self, mod, d, handlers=None, budget=None, depth=0, **kw):
        super().__init__(mod, d, **kw)
        self.handlers = handlers or {}
        self.env = {}
        self.mem = {}
        self.steps = budget if budget is not None else [0]
        self.depth = depth
        self.events = []
        self._pdom = None
        self.path = ()
        self.deads = []            # conditions under which the call does not return
        self.blocksz = {}          # heap blocks: size, or None once released
        self.faults = []           # accesses outside or after the life of an object
        self.ranges = {}           # atom -> (lo, lo included, hi, hi included)

    # ---- post dominators (on the live CFG; exits joined in a virtual node)
    def ipdom(self, b):
        if self._pdom is None:
            live = [x for x in self.rpo]
            ret = [x for x in live if self.blocks[x][-1].op == 'ret']
            full = set(live)
            # blocks that can reach a return
            good = set(ret)
            ch = True
            while ch:
                ch = False
                for x in live:
                    if x not in good and any(s in good for s in self.succ[x]):
                        good.add(x)
                        ch = True
            pd = {x: set(good) for x in good}
            for x in ret:
                pd[x] = {x}
            ch = True
            while ch:
                ch = False
                for x in reversed(live):
                    if x in good and x not in ret:
                        ss = [pd[s] for s in self.succ[x] if s in good]
                        n = set.intersection(*ss) | {x}
                        if n != pd[x]:
                            pd[x] = n
                            ch = True
            self._pdom = pd
            self._good = good
        c = self._pdom.get(b, set()) - {b}
        for x in c:
            if all(y in self._pdom[x] for y in c):
                return x
        return None

    # ---- values
    def opv(self, o):
        if o[0] == 'v':
            i = o[1]
            if i in self.env:
                return self.env[i]
            if i in self.args:
                return self.argv(i)
            raise AnalysisError('value used before it is defined in %s' % self.name)
        return cval(o)

    def argv(self, i):
        nm, ty = self.args[i]
        if ty == 'ptr':
            return P(('arg', nm))
        if ty == 'i1':
            return ('b', ('argb', nm))
        return A('arg', nm)

    val = lambda self, i: self.opv(('v', i))

    def p2i(self, v):
        return v[2] if v[1][0] == 'null' else super().p2i(v)

    def assumed(self, c):
        if not self.assume or c is True or c is False:
            return c
        from .cases import decide_s
        v = decide_s(self.assume, c)
        return c if v is None else v

    # ---- memory
    def load(self, p, ty, blk=None, pos=None):
        if p == UNDEF or isP(p) and p[1] == ('undefp',):
            self.faults.append('read through an uninitialised pointer in %s' % self.name)
            raise Dead()
        if not isP(p):
            raise AnalysisError('load through an unknown pointer in %s' % self.name)
        base, off = p[1], p[2]
        if base[0] == 'pite':
            c, p1, p2 = base[1:]
            vs = []
            for q, k in ((p1, c), (p2, Not(c))):
                try:
                    vs.append(self.load(self.padd(q, off), ty))
                except Dead:
                    self.deads.append(self.path + (k,))
            if not vs:
                raise Dead()
            return vs[0] if len(vs) == 1 else ite(c, vs[0], vs[1])
        if base[0] == 'null':
            raise Dead()
        if not off.is_const():
            self.unset(off, 'read')
            return self.symload(base, off, ty)
        o = int(off.cval())
        if base[0] == 'new':
            self.touch(base, o, self.SIZES.get(ty, 8), 'read')
        m = self.mem.get(base)
        if m is not None and o in m:
            v, sz = m[o]
            if sz == self.SIZES.get(ty, 8):
                if ty == 'i1' and isinstance(v, Rat):
                    return Fn._simp_ite_cond(self, alg.Not(alg.eq(v, 0))) if not v.is_const() else not v.is_zero()
                if isF(v) and ty != 'i1':
                    from .vf import b2i
                    return b2i(v)
                if ty == 'ptr' and isinstance(v, Rat) and v.is_zero():
                    return P(('null',))
                if ty == 'double' and isinstance(v, tuple) and v == UNDEF:
                    return A('undef', str(base), o)
                return v
            if isinstance(v, Rat) and v.is_zero() and sz > self.SIZES.get(ty, 8):
                return R(0)
        n = self.SIZES.get(ty, 8)
        if m is not None and ty in BITS and ty != 'i1':
            u = self.gather(m, o, n)
            if u is not None:
                return R(wrap(u, BITS[ty]))
        for oo, (v, sz) in m.items() if m is not None else ():
            if oo <= o and o + n <= oo + sz and isinstance(v, Rat):
                # part of a wider cell copied from memory
                d = sole(v)
                if d is not None and d[0] == 'ld' and d[4] is None:
                    return self._ldatom(d[1], d[2] + (o - oo), ty, None)
        if base[0] == 'glob':
            nm = base[1]
            if nm.startswith('_ZGV'):
                return R(0)
            g = self.mod.globals.get(nm)
            if g and g['const']:
                gm, zr, has, _ = self.mod.gmem(nm)
                if o in gm:
                    v = cval(gm[o][1])
                    if ty == 'i1' and isinstance(v, Rat):
                        return not v.is_zero()
                    if isF(v) and ty == 'i8':
                        return R(1 if v else 0)
                    return v
                if has and any(a <= o < b for a, b in zr):
                    return R(0) if ty != 'ptr' else P(('null',))
                if ty in ('i16', 'i32', 'i64') and has:
                    bs = [gm.get(o + k) for k in range(BITS[ty] // 8)]
                    if all(b is not None and b[0] == 'i8' for b in bs):
                        u = sum((int(b[1][1]) & 255) << (8 * k) for k, b in enumerate(bs))
                        return R(wrap(u, BITS[ty]))
        if base[0] in ('alloca', 'new'):
            if m is not None:
                # wider/narrower re-read of cleared memory
                for oo, (v, sz) in m.items():
                    if oo < o < oo + sz and isinstance(v, Rat) and v.is_zero():
                        return R(0) if ty != 'ptr' else P(('null',))
            if ty in ('i32', 'i64') and m is not None:
                z = [m.get(o + k) for k in (0, 4)]
            return A('undef', str(base), o) if ty != 'ptr' else P(('undefp',))
        return self._ldatom(base, off, ty, None)

    def unset(self, off, what):
        """an address that is a combination of uninitialised memory and constants"""
        ds = [atom_desc(a) for a in off.atoms()]
        if ds and any(d[0] == 'undef' for d in ds) and all(d[0] in ('undef', 'ld', 'arg') for d in ds):
            self.faults.append('%s at an uninitialised index in %s' % (what, self.name))
            raise Dead()

    def symload(self, base, off, ty):
        if base in self.mem:
            raise AnalysisError('load at a non-constant offset %s from modified memory in %s' % (str(off)[:200], self.name))
        return self._ldatom(base, off, ty, None)

    def load_at(self, I):
        return self.load(self.opv(I.ops[0]), I.ty)

    def store(self, p, v, sz):
        if not isP(p):
            raise AnalysisError('store through an unknown pointer in %s' % self.name)
        base, off = p[1], p[2]
        if base[0] == 'null':
            raise Dead()
        if base[0] != 'pite' and not off.is_const():
            self.unset(off, 'write')
        if base[0] == 'pite' or not off.is_const():
            raise AnalysisError('store at a non-constant address in %s' % self.name + ' ' + str(p)[:300])
        m = dict(self.mem.get(base, {}))
        o = int(off.cval())
        if base[0] == 'new':
            self.touch(base, o, sz, 'write')
        for oo in [x for x in m if x < o + sz and x + m[x][1] > o]:
            ov, osz = m.pop(oo)
            for b in range(oo, oo + osz):
                # what is left of a wider cell
                if not o <= b < o + sz:
                    m[b] = (self.part(base, oo, ov, b, 'i8'), 1)
        m[o] = (v, sz)
        self.mem[base] = m

    def part(self, base, oo, v, o, ty):
        """integer of type ty at offset o, inside the wider cell v at oo"""
        if isinstance(v, Rat) and v.is_const() and v.cval().denominator == 1:
            return R(wrap(int(v.cval()) >> 8 * (o - oo), BITS[ty]))
        if v == UNDEF:
            return A('undef', str(base), o)
        d = sole(v) if isinstance(v, Rat) else None
        if d is not None and d[0] == 'ld' and d[4] is None:
            return self._ldatom(d[1], d[2] + (o - oo), ty, None)
        return A('opq', 'part of', str(base), oo, str(v), o)

    def gather(self, m, o, n):
        """constant bytes o .. o+n-1, from cells of any width"""
        u = 0
        for b in range(o, o + n):
            for oo in range(b - 7, b + 1):
                if oo in m and oo + m[oo][1] > b:
                    v = m[oo][0]
                    if not (isinstance(v, Rat) and v.is_const() and v.cval().denominator == 1):
                        return None
                    u |= (int(v.cval()) >> 8 * (b - oo) & 255) << 8 * (b - o)
                    break
            else:
                return None
        return u

    def touch(self, base, o, n, what):
        """record an access outside a heap block or after its release"""
        b = self.blocksz.get(base)
        if b is None:
            return
        if b[1] is not None and self.path[:len(b[1])] == b[1]:
            self.faults.append('%s of released memory in %s' % (what, self.name))
        elif o < 0 or o + n > b[0]:
            self.faults.append('%s of bytes %d to %d of a block of %d bytes in %s' % (what, o, o + n - 1, b[0], self.name))

    def release(self, p):
        if not isP(p) or p[1][0] == 'null':
            return
        b = self.blocksz.get(p[1])
        if b is not None:
            if b[1] is not None and self.path[:len(b[1])] == b[1]:
                self.faults.append('second release of a block in %s' % self.name)
            self.blocksz[p[1]] = (b[0], self.path)

    def copy_mem(self, dst, src, n):
        if n:
            self.touch(src[1], int(src[2].cval()), n, 'read')
            self.touch(dst[1], int(dst[2].cval()), n, 'write')
        m = self.mem.get(src[1], {})
        so, do = int(src[2].cval()), int(dst[2].cval())
        cells = {}
        for o, (v, sz) in m.items():
            if so <= o and o + sz <= so + n:
                cells[o - so] = (v, sz)
        if src[1][0] == 'glob':
            g = self.mod.globals.get(src[1][1])
            if g and g['const']:
                gm, zr, has, _ = self.mod.gmem(src[1][1])
                for o, (t, c) in gm.items():
                    sz = self.SIZES.get(t, 8)
                    if so <= o and o + sz <= so + n:
                        cells.setdefault(o - so, (cval(c), sz))
                for a, b in zr:
                    for o in range(a - a % 8, b, 8):
                        if so <= o and o + 8 <= so + n and not any(k in cells for k in range(o - so, o - so + 8)):
                            cells[o - so] = (R(0), 8)
        elif src[1][0] not in ('alloca', 'new'):
            o = 0
            while o < n:
                k = 8 if n - o >= 8 else 4 if n - o >= 4 else 1
                if not any(x in cells for x in range(o, o + k)):
                    cells[o] = (self._ldatom(src[1], R(so + o), {8: 'double', 4: 'i32', 1: 'i8'}[k], None), k)
                o += k
        for o, (v, sz) in sorted(cells.items()):
            self.store(P(dst[1], do + o), v, sz)

    # ---- real inputs of bounded range: comparisons and roundings they decide
    def bounds(self, v):
        if not self.ranges or not v.is_poly():
            return None
        lo = hi = Fr(0)
        li = hi_i = True
        for m, c in v.n.t.items():
            if m == ():
                lo, hi = lo + c, hi + c
                continue
            if len(m) != 1 or m[0][1] != 1 or m[0][0] not in self.ranges:
                return None
            a, ai, b, bi = self.ranges[m[0][0]]
            if c < 0:
                a, ai, b, bi = b, bi, a, ai
            lo, li, hi, hi_i = lo + c * a, li and ai, hi + c * b, hi_i and bi
        return lo, li, hi, hi_i

    def fcmp(self, I):
        v = super().fcmp(I)
        neg = isinstance(v, tuple) and v[0] == 'not'
        w = v[1] if neg else v
        if isinstance(w, tuple) and w[0] == 'flt':
            b = self.bounds(w[1])
            if b:
                if b[2] < 0 or b[2] == 0 and not b[3]:
                    return not neg
                if b[0] >= 0:
                    return neg
        return v

    def ranged(self, f):
        """comparison of integers, decided where the ranges of the inputs do"""
        if isinstance(f, tuple) and f[0] == 'not':
            v = self.ranged(f[1])
            return not v if v in (True, False) else f
        if isinstance(f, tuple) and f[0] in ('lt', 'eq') and isinstance(f[1], Rat):
            b = self.bounds(f[1])
            if b:
                if f[0] == 'lt':
                    if b[2] < 0 or b[2] == 0 and not b[3]:
                        return True
                    if b[0] >= 0:
                        return False
                elif b[0] > 0 or b[2] < 0 or 0 in (b[0], b[2]) and not (b[1] if b[0] == 0 else b[3]):
                    return False
        return f

    def round_in(self, nm, v):
        b = (v.cval(), True, v.cval(), True) if v.is_const() else self.bounds(v)
        if b is None:
            return None
        lo, li, hi, hi_i = b
        if nm in ('toint', 'ftrunc'):
            nm = 'floor' if lo >= 0 else 'ceil' if hi <= 0 else None
        if nm == 'floor':
            k = lo.__floor__()
            return R(k) if hi < k + 1 or hi == k + 1 and not hi_i else None
        if nm == 'ceil':
            k = hi.__ceil__()
            return R(k) if lo > k - 1 or lo == k - 1 and not li else None
        return None

    # ---- calls
    def callv(self, I):
        c = I.d.get('callee')
        if c is None and I.d.get('calleev'):
            t = self.opv(I.d['calleev'])          # call through a pointer that is known here
            if isP(t) and t[1][0] == 'func' and t[2].is_zero():
                c = t[1][1]
        if c in FMATH and FMATH[c] in ('floor', 'ceil', 'ftrunc'):
            v = self.num(I.ops[0])
            v = self.round_in(FMATH[c], v) if self.ranges or v.is_const() else None
            if v is not None:
                return v
        if c in self.handlers:
            return self.handlers[c](self, I, [self.opv(o) for o in I.ops if o[0] not in ('md', 'bb', 'unk')])
        for k, h in self.handlers.items():
            if k.endswith('*') and c is not None and c.startswith(k[:-1]):
                return h(self, I, [self.opv(o) for o in I.ops if o[0] not in ('md', 'bb', 'unk')])
        if c in FMATH and FMATH[c] in MATH1:
            args = tuple(self.num(o) for o in I.ops)
            if FMATH[c] in ('sin', 'cos'):
                return trig(FMATH[c], args[0])
            if FMATH[c] == 'sqrt' and '#sqrt' in self.handlers:
                v = self.handlers['#sqrt'](args[0])
                if v is not None:
                    return v
            if FMATH[c] == 'sqrt' and '#opaque_sqrt' in self.handlers and not args[0].is_const():
                return A('fn', 'sqrt', args)
            if FMATH[c] == 'fabs' and not args[0].is_const():
                return A('fn', 'fabs', (-args[0] if alg._neg_lead(args[0]) else args[0],))
            if all(a.is_const() for a in args) or FMATH[c] in ('pow', 'sqrt', 'tan'):
                return fn(FMATH[c], *args)
            return A('fn', FMATH[c], args)
        if c is not None:
            if c.startswith('llvm.lifetime') or c.startswith('llvm.dbg') or c.startswith('llvm.assume') or c.startswith('llvm.experimental') \
                    or c in ('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free', 'printf', 'fprintf', 'puts', 'fputs', 'fwrite', 'fputc', 'putchar', '__cxa_guard_release') or c.startswith('llvm.stack'):
                if c in ('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free'):
                    self.release(self.opv(I.ops[0]))
                return UNDEF
            if c in ('__cxa_throw', 'abort', '_ZSt9terminatev', '__assert_fail', 'exit', '__cxa_rethrow', '__clang_call_terminate') or c.startswith('_ZSt2') and '__throw' in c:
                raise Thrown() if c in ('__cxa_throw', '__cxa_rethrow') or '__throw' in c else Dead()
            if c == 'llvm.eh.typeid.for' and '#catch' in self.handlers:
                return R(1 if I.ops[0][0] == 'g' and I.ops[0][1] in CATCHES else 2)
            if c.startswith('llvm.memcpy') or c.startswith('llvm.memmove') or c in ('memcpy', 'memmove'):
                d, s, n = [self.opv(o) for o in I.ops[:3]]
                if not (isP(d) and isP(s) and isinstance(n, Rat) and n.is_const() and d[2].is_const() and s[2].is_const()):
                    raise AnalysisError('copy of unknown extent in %s' % self.name)
                self.copy_mem(d, s, int(n.cval()))
                return d
            if c.startswith('llvm.memset') or c == 'memset':
                d, v, n = [self.opv(o) for o in I.ops[:3]]
                if not (isP(d) and isinstance(n, Rat) and n.is_const() and d[2].is_const() and isinstance(v, Rat) and v.is_zero()):
                    raise AnalysisError('fill of unknown extent in %s' % self.name)
                o, n = int(d[2].cval()), int(n.cval())
                while n > 0:
                    s = 8 if n >= 8 else 1
                    self.store(P(d[1], o), R(0), s)
                    o += s
                    n -= s
                return d
            if c in ('_Znwm', '_Znam', 'malloc') or c.startswith('_ZnwmRK') or c.startswith('_ZnamRK'):
                b = ('new', self.name, I.id, self.steps[0])
                n = self.opv(I.ops[0])
                if isinstance(n, Rat) and n.is_const():
                    self.blocksz[b] = (int(n.cval()), None)
                return P(b)
            if c in self.mod.fns and self.mod.fns[c].get('blocks'):
                if self.depth > 40:
                    raise AnalysisError('recursion in %s' % c)
                g = Fold(self.mod, self.mod.fns[c], self.handlers, self.steps, self.depth + 1, assume=self.assume)
                g.mem = self.mem
                g.path, g.deads = self.path, self.deads
                g.blocksz, g.faults = self.blocksz, self.faults
                g.ranges = self.ranges
                vals = [self.opv(o) for o in I.ops if o[0] not in ('md', 'bb', 'unk')]
                for (i, _), v in zip(sorted(g.args.items()), vals):
                    g.env[i] = v
                try:
                    r = g.go()
                finally:
                    self.mem = g.mem
                return r
        if c is None:
            raise AnalysisError('indirect call in %s' % self.name)
        if not I.d.get('nomem') and not I.d.get('onlyread') and not c.startswith(('llvm.', 'vfn_', '__cxa_', '_ZN9__gnu_cxx')) and not any(c.startswith(k) for k in FMATH):
            if not c.startswith(('_ZNSt', '_ZNKSt', '_ZStls', '_ZNSo', '_ZSt')):
                raise AnalysisError('call of the unknown function %s in %s' % (c, self.name))
        return super().callv(I)

    # ---- control
    def run(self, args=None, mem=None):
        """fold the whole function; args: name -> value, mem: base -> {off: (value, size)}"""
        if mem:
            self.mem = {k: dict(v) for k, v in mem.items()}
        for i, (nm, ty) in self.args.items():
            if args and nm in args:
                self.env[i] = args[nm]
        return self.go()

    def go(self):
        r = self.exec(0, None, None)
        return r[1] if r[0] == 'ret' else UNDEF

    def exec(self, b, pred, stop):
        """fold from block b; stop before `stop`: ('stop', phis) or ('ret', v)"""
        while True:
            if pred is not None:
                ph = self.phis(b, pred)
                if b == stop:
                    return ('stop', ph)
                self.env.update(ph)
            nxt = None
            for I in self.blocks[b]:
                op = I.op
                if op == 'phi':
                    continue
                self.steps[0] += 1
                if self.steps[0] > MAXSTEP:
                    raise AnalysisError('folding %s does not terminate within the budget' % self.name)
                if op == 'store':
                    self.store(self.opv(I.ops[1]), self.opv(I.ops[0]), I.d.get('sz', 8))
                elif op == 'ret':
                    return ('ret', self.opv(I.ops[0]) if I.ops else UNDEF)
                elif op == 'unreachable':
                    raise Dead()
                elif op == 'resume':
                    raise Thrown()
                elif op == 'landingpad' and '#catch' in self.handlers:
                    got = any(o[0] == 'null' or o[0] == 'g' and o[1] in CATCHES for o in I.ops)
                    self.env[I.id] = ('agg', (P(('exc',)), R(1 if got else 0)))
                elif op in ('br', 'switch'):
                    su = I.d['succ']
                    if op == 'br' and (not I.ops or su[0] == su[1]):
                        nxt = su[0]
                        break
                    conds = [(s, self.edge(b, s)) for s in dict.fromkeys(su)]
                    live = [(s, c) for s, c in conds if c is not False]
                    if len(live) == 1 or any(c is True for s, c in live):
                        nxt = [s for s, c in live if c is True or len(live) == 1][0]
                        break
                    r = self.fork(b, live, stop)
                    if r[0] == 'goto':
                        # joined at r[1] with its phis already set
                        b, pred = r[1], None
                        if b == stop:
                            return ('stop', r[2])
                        self.env.update(r[2])
                        nxt = 'again'
                        break
                    return r
                elif op == 'invoke':
                    nxt = I.d['succ'][0]
                    try:
                        self.env[I.id] = self.eval(I)
                    except Thrown:
                        if '#catch' not in self.handlers:
                            raise
                        nxt = I.d['succ'][1]      # to the handler
                    break
                elif op == 'fence':
                    continue
                else:
                    self.env[I.id] = self.eval(I)
            if nxt == 'again':
                continue
            if nxt is None:
                raise AnalysisError('block without successor in %s' % self.name)
            pred, b = b, nxt

    def phis(self, b, pred):
        out = {}
        for I in self.blocks[b]:
            if I.op != 'phi':
                break
            for o, blk in zip(I.ops, I.d['inc']):
                if blk == pred:
                    out[I.id] = self.opv(o)
                    break
        return out

    def fork(self, b, live, stop):
        self.nfork = getattr(self, 'nfork', 0) + 1
        if self.nfork > 20000:
            raise AnalysisError('too many undetermined branches in %s' % self.name)
        ip = self.ipdom(b)
        res = []
        mem0, env0 = self.mem, self.env
        for s, c in live:
            self.mem, self.env = dict(mem0), dict(env0)
            p0 = self.path
            self.path = p0 + (c,)
            try:
                r = self.exec(s, b, ip)
            except Dead:
                self.deads.append(self.path)
                continue
            finally:
                self.path = p0
            res.append((c, r, self.mem))
        self.env = env0
        if not res:
            raise Dead()
        # merge from the last arm backwards
        c, r, mem = res[-1]
        for c2, r2, m2 in reversed(res[:-1]):
            if r[0] != r2[0]:
                raise AnalysisError('arms of a branch end differently in %s' % self.name)
            if r[0] == 'ret':
                r = ('ret', r2[1] if r2[1] == r[1] else ite(c2, r2[1], r[1]))
            else:
                ph = {}
                for k in r2[1]:
                    x, y = r2[1][k], r[1].get(k, UNDEF)
                    ph[k] = x if x == y else ite(c2, x, y)
                r = ('stop', ph)
            mem = self.merge(c2, m2, mem)
        self.mem = mem
        if r[0] == 'ret':
            return r
        return ('goto', ip, r[1])

    def merge(self, c, m1, m2):
        out = {}
        for base in set(m1) | set(m2):
            a, b = m1.get(base, {}), m2.get(base, {})
            if a is b or a == b:
                out[base] = a
                continue
            o = {}
            for k in set(a) | set(b):
                x, y = a.get(k), b.get(k)
                if x == y:
                    o[k] = x
                    continue
                sz = (x or y)[1]
                vs = []
                for z in (x, y):
                    if z is None:
                        z = (self._ldatom(base, R(k), 'double', None) if base[0] not in ('alloca', 'new') else UNDEF, sz)
                    vs.append(z)
                if vs[0][1] != vs[1][1]:
                    raise AnalysisError('merge of differently sized stores in %s' % self.name)
                o[k] = (vs[0][0] if vs[0][0] == vs[1][0] else ite(c, vs[0][0], vs[1][0]), sz)
            out[base] = o
        return out

    # ---- integers have their machine width
    def eval(self, I):
        op = I.op
        if op in ('zext', 'sext', 'trunc'):
            v = self.opv(I.ops[0])
            if isinstance(v, Rat) and v.is_const():
                c = int(v.cval())
                if op == 'zext':
                    c &= (1 << BITS.get(I.d.get('sty', 'i64'), 64)) - 1
                if op == 'trunc':
                    if I.ty == 'i1':
                        return bool(c & 1)
                    c = wrap(c, BITS.get(I.ty, 64))
                return R(c)
        if op == 'icmp':
            v = super().eval(I)
            if self.ranges:
                v = self.ranged(v)
            # pointer arguments of the analysed entry are objects
            for b, w in ((v, False), (v[1] if isinstance(v, tuple) and v[0] == 'not' else None, True)):
                if isinstance(b, tuple) and b[0] == 'b' and isinstance(b[1], tuple) and b[1][0] == 'isnull' and b[1][1][0] == 'arg':
                    return w
            return v
        if op == 'select' and self.assume:
            c = self.assumed(self.boolean(I.ops[0]))
            return ite(c, self.opv(I.ops[1]), self.opv(I.ops[2])) if c not in (True, False) else self.opv(I.ops[1] if c else I.ops[2])
        if op in ('fptosi', 'fptoui') and self.ranges:
            v = self.round_in('toint', self.num(I.ops[0]))
            if v is not None:
                return v
        if op == 'insertelement':
            v = self.opv(I.ops[0])
            x = self.opv(I.ops[1])
            return self._ins(v, x, [int(self.num(I.ops[2]).cval())])
        return super().eval(I)

    def result(self, base, off, ty='double'):
        return self.load(P(base, off), ty)


def sole(r):
    """descriptor of the atom, when the value is one atom"""
    if r.is_poly() and len(r.n.t) == 1:
        (m, c), = r.n.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return atom_desc(m[0][0])
    return None


def wrap(c, bits):
    c &= (1 << bits) - 1
    return c - (1 << bits) if c >> (bits - 1) and bits > 1 else c


def trig(nm, x):
    if x.is_zero():
        return R(0 if nm == 'sin' else 1)
    if alg._neg_lead(x):
        r = A('fn', nm, (-x,))
        return -r if nm == 'sin' else r
    return A('fn', nm, (x,))


def alg_atom(a):
    (m, _), = a.n.t.items()
    return m[0][0]


def fold(mod, name, args=None, mem=None, handlers=None, assume=(), ranges=None):
    if name not in mod.fns:
        raise AnalysisError('function %s not present in IR' % name)
    f = Fold(mod, mod.fns[name], handlers, assume=assume)
    f.ranges = {alg_atom(a): r for a, r in (ranges or {}).items()}
    f.ret = f.run(args, mem)
    f.leaks = [b for b, (n, gone) in f.blocksz.items() if gone is None]
    return f
