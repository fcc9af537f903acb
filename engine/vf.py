"""Value-flow summaries of LLVM functions.

For every function the engine computes, for all inputs at once and without
executing anything: closed forms of induction variables, trip counts, gated
values at merges, reduction sums, the symbolic address and value of every
memory effect and the condition and loop nest under which it happens."""
import json
import struct
from fractions import Fraction as Fr
from . import alg
from .alg import (Rat, Poly, R, A, fn, atom_id, atom_desc, subst_rat, from_double,
                  deep_atoms, faulhaber, REBUILD, desc_str)
from .logic import (lt, le, gt, ge, eq, Not, And, Or, fmap, fsubst, entails, decide,
                    contradictory, fstr, literals)


class AnalysisError(Exception):
    pass


# --------------------------------------------------------------- value helpers
UNDEF = ('undef',)


def P(base, off=0):
    return ('P', base, R(off))


def isP(v):
    return isinstance(v, tuple) and len(v) == 3 and v[0] == 'P'


def isF(v):
    return v is True or v is False or (isinstance(v, tuple) and v and v[0] in alg.FKINDS)


def mm(kind, a, b):
    a, b = R(a), R(b)
    if a == b:
        return a
    d = a - b
    if d.is_const():
        return (a if (d.cval() < 0) == (kind == 'min') else b)
    x, y = sorted((a, b), key=str)
    return A('mm', kind, (x, y))


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b or a == b:
        return a
    if a == UNDEF:
        return b
    if b == UNDEF:
        return a
    if isF(a) and isF(b):
        return Or(And(c, a), And(Not(c), b))
    if isP(a) and isP(b):
        if a[1] == b[1]:
            return ('P', a[1], ite(c, a[2], b[2]))
        if c[0] == 'not':
            c, a, b = c[1], b, a
        # a test of null against the same pointer
        return ('P', ('pite', c, a, b), R(0))
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == 'agg' and b[0] == 'agg' and len(a[1]) == len(b[1]):
        return ('agg', tuple(ite(c, x, y) for x, y in zip(a[1], b[1])))
    if isF(a):
        a = b2i(a)
    if isF(b):
        b = b2i(b)
    if not (isinstance(a, Rat) and isinstance(b, Rat)):
        return A('opq', 'ite', desc_key(c), str(a), str(b))
    if c[0] == 'not':
        c, a, b = c[1], b, a
    if c[0] == 'lt':
        p = c[1]
        if p == a - b or p == a - b - 1:
            return mm('min', a, b)
        if p == b - a or p == b - a - 1:
            return mm('max', a, b)
    if c[0] == 'eq':
        # value substitution cannot be used in general; keep
        pass
    if a.eq(b):
        return a
    # canonical polarity of lt
    if c[0] == 'lt':
        n = Not(c)
        if str(n) < str(c):
            c, a, b = n, b, a
    return A('ite', c, a, b)


def desc_key(x):
    return x


def rounded(op, a, b):
    if op == 'fsub':
        op, b = 'fadd', -b
    if op == 'fadd':
        a, b = sorted((a, b), key=lambda r: str(-r if alg._neg_lead(r) else r))
        if alg._neg_lead(a):
            return -A('fadd', -a, -b)
        return A('fadd', a, b)
    sg = 1
    if alg._neg_lead(a):
        sg, a = -sg, -a
    if alg._neg_lead(b):
        sg, b = -sg, -b
    if op == 'fmul':
        a, b = sorted((a, b), key=str)
    return A(op, a, b) * sg


def b2i(f):
    return ite(f, R(1), R(0)) if not (f is True or f is False) else R(1 if f else 0)


def _rb_ite(d, g):
    return _as_rat(ite(alg.FMAP[0](d[1], g), g(d[2]), g(d[3])))


def _rb_mm(d, g):
    return mm(d[1], g(d[2][0]), g(d[2][1]))


def _rb_half(d, g):
    return idiv(g(d[1]), 2)


def _rb_sum(d, g):
    ups = tuple(g(u) for u in d[2])
    body = g(d[3])
    return mksum(d[1], ups, body)


def _rb_ld(d, g):
    return A('ld', alg._map_any(d[1], g), g(d[2]), d[3], alg._map_any(d[4], g))


def _as_rat(v):
    return v if isinstance(v, Rat) else A('opq', v)


def _rb_rec(d, g):
    return A('rec', d[1], g(d[2]), g(d[3]), g(d[4]))


REBUILD.update({'ite': _rb_ite, 'mm': _rb_mm, 'half': _rb_half, 'sum': _rb_sum, 'ld': _rb_ld, 'rec': _rb_rec})


def _levels(r):
    return [atom_desc(a)[1] for a in deep_atoms(r) if atom_desc(a)[0] == 'bv']


def mksum(bv, ups, body):
    """Sum over bv in [0, min(ups)) of body"""
    if isinstance(body, Rat) and body.is_zero():
        return R(0)
    bid = atom_id(bv)
    if len(ups) == 1:
        f = faulhaber(body, bid) if bid not in () else None
        if f is not None:
            return subst_rat(f, lambda a: ups[0] if a == bid else None)
    if bid not in deep_atoms(body):
        return body * minof(ups)
    return A('sum', bv, ups, body)


def minof(ups):
    r = ups[0]
    for u in ups[1:]:
        r = mm('min', r, u)
    return r


def idiv(r, n):
    """exact integer division when provable, else floor atom"""
    q = r * Rat.c(Fr(1, n))
    if q.is_const():
        v = q.cval()
        if v.denominator == 1:
            return q
        v2 = v.__floor__() if v >= 0 else -((-v).__floor__())
        return R(v2)
    if r.is_poly() and n in (2, 4, 6, 3, 8):
        if all(c.denominator == 1 for c in q.n.t.values()):
            return q
        if all(c.denominator == 1 for c in r.n.t.values()) and _always_divisible(r.n, n):
            return q
    if n == 2:
        return A('half', r)
    return fn('idiv', r, R(n))


def _always_divisible(p, n):
    ats = sorted(p.atoms())
    if len(ats) > 4:
        return False
    import itertools
    for vals in itertools.product(range(n), repeat=len(ats)):
        env = dict(zip(ats, vals))
        s = 0
        for m, c in p.t.items():
            t = int(c)
            for a, e in m:
                t *= env[a] ** e
            s += t
        if s % n:
            return False
    return True


# --------------------------------------------------------------- IR structures
class Ins:
    __slots__ = ('id', 'op', 'ty', 'ops', 'd', 'blk', 'pos')

    def __init__(self, d, blk, pos):
        self.id = d['id']
        self.op = d['op']
        self.ty = d['ty']
        self.ops = d['ops']
        self.d = d
        self.blk = blk
        self.pos = pos


class Loop:
    pass


class Module:
    def __init__(self, path):
        self.j = json.load(open(path))
        self.globals = self.j['globals']
        self.fns = {f['name']: f for f in self.j['functions']}
        self._gmem = {}
        self._sum = {}

    def fn(self, name, **kw):
        key = (name, tuple(sorted(kw.items())))
        if key not in self._sum:
            if name not in self.fns:
                raise AnalysisError('function %s not present in IR' % name)
            self._sum[key] = Fn(self, self.fns[name], **kw)
        return self._sum[key]

    def gmem(self, name):
        """offset -> (ty, const) scalar map of a constant global"""
        if name not in self._gmem:
            g = self.globals[name]
            m = {}
            zr = []
            if 'init' in g:
                for off, ty, v in g['init']:
                    if ty == 'Z':
                        zr.append((off, off + v))
                    elif ty == 'S':
                        b = bytes.fromhex(v)
                        for i, ch in enumerate(b):
                            m[off + i] = ('i8', ['i', str(ch - 256 if ch > 127 else ch), 8])
                    else:
                        m[off] = (ty, v)
            self._gmem[name] = (m, zr, 'init' in g, g)
        return self._gmem[name]


def cval(c, ty=None):
    k = c[0]
    if k == 'i':
        v = int(c[1])
        if c[2] == 1:
            return v != 0
        return R(v)
    if k == 'f':
        return from_double(float.fromhex(c[1]))
    if k == 'null':
        return P(('null',))
    if k == 'undef':
        return UNDEF
    if k == 'zero':
        t = c[1]
        if t.startswith('[') or t.startswith('{') or t.startswith('%') or t.startswith('<'):
            return ('zeroagg', t)
        return R(0)
    if k == 'g':
        return P(('glob', c[1]), c[2])
    if k == 'fn':
        return P(('func', c[1]))
    if k == 'vec':
        return ('agg', tuple(cval(x) for x in c[1]))
    if k == 'p2i':
        v = cval(c[1])
        return A('addr', v[1]) + v[2] if v[1][0] != 'null' else R(0) + v[2]
    if k == 'cbin':
        a, b = cval(c[2]), cval(c[3])
        return a + b if c[1] == 'add' else a - b if c[1] == 'sub' else a * b
    raise AnalysisError('constant %r' % (c,))


NOEFFECT_CALLS = ('printf', 'fprintf', 'puts', 'fputs', 'putchar', 'fwrite', 'llvm.dbg', 'puts', 'fputc',
                  'llvm.assume', 'llvm.va_', '__cxa_guard', '__cxa_atexit', '_Znwm', '_Znam', '_ZdlPv', '_ZdaPv', '_ZdlPvm',
                  '_ZdaPvm', '__assert_fail', 'abort', '__cxa_', '_ZSt9terminatev', 'malloc', 'free',
                  'llvm.stacksave', 'llvm.stackrestore', 'exit', '_ZNSt13runtime_errorC', '_ZNSt13runtime_errorD', 'perror')
FMATH = {'llvm.sqrt.f64': 'sqrt', 'sqrt': 'sqrt', 'llvm.sin.f64': 'sin', 'sin': 'sin', 'llvm.cos.f64': 'cos', 'cos': 'cos',
         'tan': 'tan', 'llvm.tan.f64': 'tan', 'llvm.pow.f64': 'pow', 'pow': 'pow', 'llvm.fabs.f64': 'fabs', 'fabs': 'fabs', 'fmod': 'fmod',
         'llvm.floor.f64': 'floor', 'floor': 'floor', 'llvm.ceil.f64': 'ceil', 'ceil': 'ceil', 'atan2': 'atan2', 'atan': 'atan', 'asin': 'asin',
         'acos': 'acos', 'exp': 'exp', 'llvm.exp.f64': 'exp', 'log': 'log', 'llvm.log.f64': 'log', 'hypot': 'hypot', 'log10': 'log10',
         'llvm.log10.f64': 'log10', 'llvm.round.f64': 'round', 'round': 'round', 'llvm.trunc.f64': 'ftrunc', 'trunc': 'ftrunc', 'llvm.rint.f64': 'rint',
         'llvm.copysign.f64': 'copysign', 'cbrt': 'cbrt', 'llvm.maxnum.f64': 'fmax', 'llvm.minnum.f64': 'fmin', 'fmax': 'fmax', 'fmin': 'fmin',
         'llvm.abs.i32': 'iabs', 'llvm.abs.i64': 'iabs', 'abs': 'iabs', 'labs': 'iabs', 'modf': None}


def _pack(r):
    if r.is_poly() and len(r.n.t) == 1:
        (m, c), = r.n.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            d = alg.atom_desc(m[0][0])
            if d[0] == 'pack':
                return d[1], d[2]
    return None


class _Conds:
    """lazy map block -> condition relative to block d (scope: innermost loop of d)"""

    def __init__(self, f, d):
        self.f = f
        self.d = d
        self.h = f.inner.get(d)
        if self.h is not None:
            f.trip(self.h)
        self.scope = f.loops[self.h].blocks if self.h is not None else f.live
        self.memo = {d: True}

    def __contains__(self, b):
        return self._c(b) is not None

    def get(self, b, dflt=None):
        c = self._c(b)
        return dflt if c is None else c

    def __getitem__(self, b):
        c = self._c(b)
        if c is None:
            raise KeyError(b)
        return c

    def _c(self, b):
        if b in self.memo:
            return self.memo[b]
        f, h, d = self.f, self.h, self.d
        if b not in self.scope or f.rpon[b] < f.rpon[d] or (h is not None and b == h):
            self.memo[b] = None
            return None
        if f.inner.get(b) != h and b != f._top_loop(b, h):
            self.memo[b] = None
            return None
        fs = []
        for p in f.preds[b]:
            if p not in self.scope:
                continue
            tp = f._top_loop(p, h)
            if tp is not None:
                if b in f.loops[tp].blocks:
                    continue          # back edge of inner loop
                ct = self._c(tp)
                if ct is None:
                    continue
                fs.append(And(ct, f._exit_cond(tp, p, b)))
            else:
                if f.rpon[p] >= f.rpon[b]:
                    continue
                ct = self._c(p)
                if ct is None:
                    continue
                fs.append(And(ct, f._edge_scoped(p, b, h)))
        c = Or(*fs) if fs else None
        self.memo[b] = c
        return c


class Event:
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Fn:
    def __init__(self, mod, d, fwd=True, assume=(), intarith=True, argbases=None):
        self.mod = mod
        self.d = d
        self.name = d['name']
        self.fwd = fwd
        self.assume = list(assume)
        self.rounded = False
        self.ins = {}
        self.blocks = []
        self.preds = {}
        self.succ = {}
        self.args = {}
        for i, nm, ty, sret in d['args']:
            self.args[i] = (nm, ty)
        for b in d['blocks']:
            lst = []
            for pos, x in enumerate(b['ins']):
                I = Ins(x, b['id'], pos)
                lst.append(I)
                self.ins[I.id] = I
            self.blocks.append(lst)
            self.preds.setdefault(b['id'], [])
        for b, lst in enumerate(self.blocks):
            t = lst[-1]
            su = t.d.get('succ', [])
            self.succ[b] = list(su)
            for s in dict.fromkeys(su):
                self.preds[s].append(b)
        self._reach()
        self._idom()
        self._loops(d)
        self.memo = {}
        self.ph = {}
        self._cond_memo = {}
        self._mem_memo = {}
        self._solving = set()
        self._effects_cache = None
        self._inprogress = set()

    # ---------------------------------------------------------------- CFG
    def _reach(self):
        seen = set()
        order = []
        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    # ignore unwind edges
                    t = self.blocks[b][-1]
                    if t.op == 'invoke' and s == t.d['succ'][1] and s != t.d['succ'][0]:
                        continue
                    seen.add(s)
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                st.pop()
        self.rpo = order[::-1]
        self.rpon = {b: i for i, b in enumerate(self.rpo)}
        for b in list(self.preds):
            self.preds[b] = [p for p in self.preds[b] if p in seen and not (
                self.blocks[p][-1].op == 'invoke' and self.blocks[p][-1].d['succ'][1] == b)]
        for b in self.succ:
            t = self.blocks[b][-1]
            if t.op == 'invoke':
                self.succ[b] = [t.d['succ'][0]]
        self.live = seen

    def _idom(self):
        idom = {0: 0}
        changed = True
        while changed:
            changed = False
            for b in self.rpo[1:]:
                ps = [p for p in self.preds[b] if p in idom]
                if not ps:
                    continue
                n = ps[0]
                for p in ps[1:]:
                    a, c = p, n
                    while a != c:
                        while self.rpon[a] > self.rpon[c]:
                            a = idom[a]
                        while self.rpon[c] > self.rpon[a]:
                            c = idom[c]
                    n = a
                if idom.get(b) != n:
                    idom[b] = n
                    changed = True
        self.idom = idom

    def dominates(self, a, b):
        while b != a:
            if b == 0:
                return False
            b = self.idom[b]
        return True

    def _loops(self, d):
        # natural loops, computed here (unwind edges ignored)
        hdr = {}
        for b in self.rpo:
            for s in self.succ[b]:
                if s in self.live and self.dominates(s, b):
                    hdr.setdefault(s, set()).add(b)
        self.loops = {}
        for h, latches in hdr.items():
            L = Loop()
            L.header = h
            L.latches = sorted(latches)
            body = {h}
            st = list(latches)
            while st:
                x = st.pop()
                if x in body:
                    continue
                body.add(x)
                st.extend(self.preds[x])
            L.blocks = body
            self.loops[h] = L
        self.inner = {}
        for h, L in sorted(self.loops.items(), key=lambda kv: -len(kv[1].blocks)):
            for b in L.blocks:
                self.inner[b] = h
        for h, L in self.loops.items():
            par = None
            for h2, L2 in self.loops.items():
                if h2 != h and h in L2.blocks and (par is None or len(L2.blocks) < len(self.loops[par].blocks)):
                    par = h2
            L.parent = par
            L.solved = False
            L.iv = A('iv', self.name, h)
            L.ivid = atom_id(('iv', self.name, h))
            L.exits = [(b, s) for b in sorted(L.blocks, key=lambda x: self.rpon[x]) for s in self.succ[b] if s not in L.blocks]
            L.exits_norm = [e for e in L.exits if not self._dead_end(e[1])]
            L.uppers = None
            L.entry_preds = [p for p in self.preds[h] if p not in L.blocks]

    def _dead_end(self, b, depth=0):
        """block that never returns normally (throw/abort)"""
        t = self.blocks[b][-1]
        if t.op == 'unreachable' or t.op == 'resume':
            return True
        if depth > 6:
            return False
        su = self.succ[b]
        if t.op in ('br', 'invoke') and len(su) == 1:
            return self._dead_end(su[0], depth + 1)
        return False

    def loop_chain(self, b):
        ch = []
        h = self.inner.get(b)
        while h is not None:
            ch.append(h)
            h = self.loops[h].parent
        return ch[::-1]

    # ---------------------------------------------------------------- values
    def opv(self, o):
        if o[0] == 'v':
            return self.val(o[1])
        return cval(o)

    def val(self, i):
        if i in self.memo:
            return self.memo[i]
        if i in self.ph:
            return self.ph[i]
        if i in self.args:
            nm, ty = self.args[i]
            if ty == 'ptr':
                v = P(('arg', nm))
            elif ty == 'i1':
                v = ('b', ('argb', nm))
            else:
                v = A('arg', nm)
            self.memo[i] = v
            return v
        I = self.ins[i]
        if I.op == 'phi' and I.blk in self.loops:
            self.solve(I.blk)
            if i in self.memo:
                return self.memo[i]
            return self.ph[i]
        # make sure all enclosing loops are solved (or being solved)
        h = self.inner.get(I.blk)
        if h is not None and not self.loops[h].solved and h not in self._solving:
            self.solve(h)
            if i in self.memo:
                return self.memo[i]
        if i in self._inprogress:
            raise AnalysisError('cyclic value in %s' % self.name)
        self._inprogress.add(i)
        try:
            v = self.eval(I)
        finally:
            self._inprogress.discard(i)
        self.memo[i] = v
        return v

    def num(self, o):
        v = self.opv(o)
        if isF(v):
            v = b2i(v)
        if isinstance(v, Rat):
            return v
        if v == UNDEF:
            return A('undef', self.name)
        if isP(v):
            return self.p2i(v)
        return A('opq', v)

    def p2i(self, v):
        return A('addr', v[1]) + v[2]

    def boolean(self, o):
        v = self.opv(o)
        if isF(v):
            return v
        if isinstance(v, Rat):
            return Not(eq(v, 0))
        if v == UNDEF:
            return ('b', ('undef',))
        return ('b', v)

    def eval(self, I):
        op = I.op
        d = I.d
        if op == 'phi':
            return self.gate(I)
        if op == 'getelementptr':
            b = self.opv(I.ops[0])
            if 'off' not in d:
                return P(('opqp', self.name, I.id))
            off = R(d['off'])
            for s, o in d['terms']:
                off = off + self.num(o) * s
            return self.padd(b, off)
        if op in ('add', 'sub', 'mul', 'shl', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'lshr', 'ashr'):
            return self.intop(I)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            a, b = self.num(I.ops[0]), self.num(I.ops[1])
            if self.rounded:
                # rounded arithmetic is kept as written: no algebraic identities
                # other than commutativity and sign symmetry
                return rounded(op, a, b)
            if op == 'fadd':
                return a + b
            if op == 'fsub':
                return a - b
            if op == 'fmul':
                return a * b
            if op == 'fdiv':
                if b.is_zero():
                    return fn('divzero', a)
                return a / b
            return fn('fmod', a, b)
        if op == 'fneg':
            return -self.num(I.ops[0])
        if op == 'icmp':
            return self.icmp(I)
        if op == 'fcmp':
            return self.fcmp(I)
        if op == 'select':
            c = self.boolean(I.ops[0])
            return ite(c, self.opv(I.ops[1]), self.opv(I.ops[2]))
        if op in ('zext', 'sext', 'trunc', 'freeze', 'fpext', 'bitcast', 'addrspacecast', 'ptrtoint', 'inttoptr'):
            v = self.opv(I.ops[0])
            if op == 'trunc' and I.ty == 'i1':
                return v if isF(v) else Not(eq(v, 0))
            if op == 'ptrtoint':
                return self.p2i(v) if isP(v) else v
            if op == 'inttoptr':
                return P(('opqp', self.name, I.id)) if not isP(v) else v
            if op == 'trunc' and I.ty == 'i32' and isinstance(v, Rat) and _pack(v):
                return _pack(v)[0]
            if op in ('zext', 'sext') and isF(v):
                b = b2i(v)
                return -b if op == 'sext' else b
            return v
        if op in ('sitofp', 'uitofp'):
            return self.num(I.ops[0])
        if op == 'fptrunc':
            return fn('f32', self.num(I.ops[0]))
        if op in ('fptosi', 'fptoui'):
            v = self.num(I.ops[0])
            if v.is_const():
                c = v.cval()
                return R(c.__floor__() if c >= 0 else -((-c).__floor__()))
            return fn('toint', v)
        if op == 'load':
            return self.load_at(I)
        if op == 'alloca':
            return P(('alloca', self.name, I.id, d.get('nm', '')))
        if op in ('call', 'invoke'):
            return self.callv(I)
        if op == 'extractvalue':
            v = self.opv(I.ops[0])
            ix = d['idx']
            for k in ix:
                if isinstance(v, tuple) and v[0] == 'agg':
                    v = v[1][k]
                elif isinstance(v, tuple) and v[0] == 'zeroagg':
                    v = R(0)
                else:
                    v = A('ext', desc_key(v), k)
            return v
        if op == 'insertvalue':
            v = self.opv(I.ops[0])
            x = self.opv(I.ops[1])
            ix = d['idx']
            return self._ins(v, x, ix)
        if op == 'extractelement':
            v = self.opv(I.ops[0])
            k = self.num(I.ops[1])
            if isinstance(v, tuple) and v[0] == 'agg' and k.is_const():
                return v[1][int(k.cval())]
            return A('ext', desc_key(v), k)
        if op == 'insertelement':
            v = self.opv(I.ops[0])
            x = self.opv(I.ops[1])
            k = int(self.num(I.ops[2]).cval())
            return self._ins(v, x, [k])
        if op == 'landingpad':
            return A('lp', self.name, I.id)
        raise AnalysisError('opcode %s in %s' % (op, self.name))

    def _ins(self, v, x, ix):
        k = ix[0]
        lst = list(v[1]) if isinstance(v, tuple) and v[0] == 'agg' else []
        while len(lst) <= k:
            lst.append(UNDEF)
        lst[k] = x if len(ix) == 1 else self._ins(lst[k], x, ix[1:])
        return ('agg', tuple(lst))

    def padd(self, b, off):
        if not isP(b):
            if b == UNDEF:
                return P(('undefp',))
            return P(('opqp', str(b)), off)
        return ('P', b[1], b[2] + off)

    def _lo32(self, x, o):
        """x as the low 32-bit half of a packed pair"""
        if x.is_poly() and len(x.n.t) == 1:
            (m, c), = x.n.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                d = alg.atom_desc(m[0][0])
                if d[0] == 'fn' and d[1] == 'iand':
                    for u, v in (d[2], d[2][::-1]):
                        if isinstance(u, Rat) and u.is_const() and u.cval() == (1 << 32) - 1:
                            return v
        if o[0] == 'v':
            J = self.ins.get(o[1])
            if J is not None and J.op == 'zext' and J.d.get('sty', '') in ('i32', ''):
                return x
        if x.is_const() and 0 <= x.cval() < (1 << 31):
            return x
        return None

    def intop(self, I):
        op = I.op
        if I.ty == 'i1':
            a, b = self.boolean(I.ops[0]), self.boolean(I.ops[1])
            if op == 'and':
                return And(a, b)
            if op == 'or':
                return Or(a, b)
            if op in ('xor', 'add'):
                return Or(And(a, Not(b)), And(Not(a), b))
        a, b = self.num(I.ops[0]), self.num(I.ops[1])
        if op == 'add':
            return a + b
        if op == 'sub':
            r = a - b
            return r
        if op == 'mul':
            return a * b
        if op == 'shl' and b.is_const():
            return a * R(1 << int(b.cval()))
        if op in ('sdiv', 'udiv') and b.is_const() and b.cval() > 0:
            # pointer difference / size
            return idiv(a, int(b.cval()))
        if op in ('lshr', 'ashr') and b.is_const() and b.cval() == 32 and _pack(a):
            return _pack(a)[1]
        if op == 'or' and I.ty == 'i64':
            for x, y, ox in ((a, b, I.ops[0]), (b, a, I.ops[1])):
                lo = self._lo32(x, ox)
                if lo is not None and y.is_poly() and not y.is_zero() and all(c.denominator == 1 and c % (1 << 32) == 0 for c in y.n.t.values()):
                    return A('pack', lo, y / (1 << 32))
        if op == 'and' and I.ty == 'i64':
            for x, y in ((a, b), (b, a)):
                if x.is_const() and _pack(y):
                    if x.cval() == (1 << 32) - 1:
                        return _pack(y)[0]
                    if x.cval() == -(1 << 32):
                        return _pack(y)[1] * (1 << 32)
        if op in ('lshr', 'ashr') and b.is_const():
            return idiv(a, 1 << int(b.cval()))
        if op in ('srem', 'urem'):
            if a.is_const() and b.is_const():
                x, y = int(a.cval()), int(b.cval())
                return R(x - y * int(abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)))
            return fn('mod', a, b)
        if op == 'xor' and b.is_const() and b.cval() == -1:
            return -a - 1
        if a.is_const() and b.is_const():
            x, y = int(a.cval()), int(b.cval())
            if op == 'and':
                return R(x & y)
            if op == 'or':
                return R(x | y)
            if op == 'xor':
                return R(x ^ y)
        if op == 'and':
            # alignment masks  x & -8 etc.
            for x, y in ((a, b), (b, a)):
                if y.is_const() and y.cval() == 1 and False:
                    return fn('mod', x, R(2))
        return fn('i' + op, a, b)

    def icmp(self, I):
        pr = I.d['pred']
        a, b = self.opv(I.ops[0]), self.opv(I.ops[1])
        if isP(a) or isP(b):
            return self.pcmp(pr, a, b)
        if isF(a) and isF(b):
            x = Or(And(a, b), And(Not(a), Not(b)))
            if pr == 'eq':
                return x
            if pr == 'ne':
                return Not(x)
        a = b2i(a) if isF(a) else (a if isinstance(a, Rat) else self.num(I.ops[0]))
        b = b2i(b) if isF(b) else (b if isinstance(b, Rat) else self.num(I.ops[1]))
        f = None
        if pr == 'eq':
            f = eq(a, b)
        elif pr == 'ne':
            f = Not(eq(a, b))
        else:
            s = pr[1:]
            # unsigned range idiom  (x - lo) < n  is kept opaque-free only for plain operands
            f = {'lt': lt, 'le': le, 'gt': gt, 'ge': ge}[s](a, b)
            if pr[0] == 'u':
                # unsigned: a<b additionally requires a>=0 when a may be negative
                f = self._unsigned(s, a, b, f, I)
        return self._simp_ite_cond(f)

    def _unsigned(self, s, a, b, f, I):
        # x -u c <u n   (range check)
        if a.is_poly() and b.is_const() and s == 'lt' and b.cval() > 0 and a.n.t.get((), 0) != 0 and I.ops[0][0] == 'v' \
                and self.ins.get(I.ops[0][1]) is not None and self.ins[I.ops[0][1]].op in ('add', 'sub'):
            return And(ge(a, 0), lt(a, b))
        return f

    def _simp_ite_cond(self, f):
        """(cond ? c1 : c2) cmp const  ->  cond"""
        if f is True or f is False or f[0] not in ('lt', 'eq'):
            if f not in (True, False) and f[0] == 'not':
                return Not(self._simp_ite_cond(f[1]))
            return f
        p = f[1]
        if p.is_poly():
            ats = p.n.atoms()
            for a in ats:
                d = atom_desc(a)
                if d[0] == 'ite' and len(ats) == 1:
                    t1 = subst_rat(p, lambda x: d[2] if x == a else None)
                    t2 = subst_rat(p, lambda x: d[3] if x == a else None)
                    g = lt if f[0] == 'lt' else eq
                    return Or(And(d[1], self._simp_ite_cond(g(t1))), And(Not(d[1]), self._simp_ite_cond(g(t2))))
        return f

    def pcmp(self, pr, a, b):
        if not isP(a) or not isP(b):
            return ('b', ('pcmp', pr, desc_key(a), desc_key(b)))
        # expand conditional pointers
        for x, y, sw in ((a, b, 0), (b, a, 1)):
            if x[1][0] == 'pite':
                c, p1, p2 = x[1][1:]
                q1, q2 = self.padd(p1, x[2]), self.padd(p2, x[2])
                r1 = self.pcmp(pr, q1, y) if not sw else self.pcmp(pr, y, q1)
                r2 = self.pcmp(pr, q2, y) if not sw else self.pcmp(pr, y, q2)
                return Or(And(c, r1), And(Not(c), r2))
        if a[1] == b[1]:
            d = a[2] - b[2]
            s = pr[1:] if pr not in ('eq', 'ne') else pr
            return {'eq': lambda: eq(d), 'ne': lambda: Not(eq(d)), 'lt': lambda: lt(d), 'le': lambda: le(d), 'gt': lambda: gt(d),
                    'ge': lambda: ge(d)}[s]()
        if pr in ('eq', 'ne'):
            f = None
            kinds = (a[1][0], b[1][0])
            hard = ('alloca', 'new', 'glob', 'func')
            if 'null' in kinds:
                o = a if kinds[1] == 'null' else b
                if o[1][0] in hard:
                    f = False
                elif o[2].is_zero():
                    f = ('b', ('isnull', o[1]))
                else:
                    f = False
            elif kinds[0] in hard and (kinds[1] in hard or kinds[1] == 'arg' or kinds[1] == 'ld') or kinds[1] in hard and kinds[0] in ('arg', 'ld'):
                f = False
            else:
                x, y = sorted((a, b), key=str)
                f = ('b', ('peq', x[1], x[2], y[1], y[2]))
            return f if pr == 'eq' else Not(f)
        return ('b', ('pcmp', pr, a, b))

    def fcmp(self, I):
        pr = I.d['pred']
        a, b = self.num(I.ops[0]), self.num(I.ops[1])
        d = a - b
        if pr in ('true', 'false'):
            return pr == 'true'
        if pr in ('ord', 'uno'):
            f = ('b', ('isnan', a if not a.is_const() else b))
            return f if pr == 'uno' else Not(f)
        s = pr[1:]
        if s in ('lt', 'gt', 'le', 'ge'):
            if s in ('gt', 'le'):
                e = b - a          # a>b  <=> b-a<0
            else:
                e = a - b          # a<b
            if e.is_const():
                v = e.cval() < 0
            else:
                v = ('flt', e)
            if s in ('lt', 'gt'):
                return v
            return Not(v)          # a<=b == !(b<a);  a>=b == !(a<b)   (NaN ignored)
        if d.is_const():
            v = d.cval() == 0
        else:
            if alg._neg_lead(d):
                d = -d
            v = ('feq', d)
        return v if s == 'eq' else Not(v)

    # ---------------------------------------------------------------- calls
    def callv(self, I):
        c = I.d.get('callee')
        if c is None:
            return self._opaque(I, 'indirect')
        if c in FMATH and FMATH[c]:
            args = [self.num(o) for o in I.ops]
            nm = FMATH[c]
            if nm == 'iabs':
                v = args[0]
                if v.is_const():
                    return R(abs(v.cval()))
                return mm('max', v, -v)
            return fn(nm, *args)
        if c.startswith('llvm.fmuladd'):
            a, b, e = [self.num(o) for o in I.ops]
            return a * b + e
        if c.startswith('llvm.smin') or c.startswith('llvm.umin'):
            return mm('min', self.num(I.ops[0]), self.num(I.ops[1]))
        if c.startswith('llvm.smax') or c.startswith('llvm.umax'):
            return mm('max', self.num(I.ops[0]), self.num(I.ops[1]))
        if c in ('_Znwm', '_Znam', 'malloc') or c.startswith('_ZnwmRK') or c.startswith('_ZnamRK') or c.startswith('_ZnamSt'):
            return P(('new', self.name, I.id))
        if c == '__cxa_guard_acquire':
            return R(1)
        if c.startswith('llvm.umul.with.overflow') or c.startswith('llvm.uadd.with.overflow'):
            a, b = self.num(I.ops[0]), self.num(I.ops[1])
            return ('agg', (a * b if 'umul' in c else a + b, False))
        if c == 'llvm.is.constant' or c.startswith('llvm.is.constant'):
            return False
        if c.startswith('llvm.expect'):
            return self.opv(I.ops[0])
        if c.startswith('llvm.objectsize'):
            return A('objsize', I.id)
        return self._opaque(I, c)

    def _opaque(self, I, c):
        args = []
        for o in I.ops:
            v = self.opv(o) if o[0] not in ('md', 'bb', 'unk') else UNDEF
            args.append(v)
        ro = I.d.get('nomem') or (c is not None and (c.startswith('vfn_')))
        if ro:
            key = ()
        else:
            key = (self.name, I.id)
        ty = I.ty
        ivs = self._ctx_ivs(I.blk) if key else ()
        desc = ('call', c, tuple(args), key, ivs)
        if ty == 'ptr':
            return P(('retp', desc))
        if ty == 'i1':
            return ('b', desc)
        if ty.startswith('{') or ty.startswith('[') or ty.startswith('<') or ty.startswith('%'):
            return ('aggv', desc)
        if ro and all(isinstance(a, Rat) for a in args):
            return fn(c, *args)
        return A('fn', c, tuple(args) + ((('site',) + key + ivs,) if key else ()))

    def _ctx_ivs(self, b):
        return tuple(self.loops[h].iv for h in self.loop_chain(b))

    # ---------------------------------------------------------------- conditions
    def edge(self, p, b):
        t = self.blocks[p][-1]
        if t.op == 'br':
            if not t.ops:
                return True
            su = t.d['succ']
            if su[0] == su[1]:
                return True
            c = self.assumed(self.boolean(t.ops[0]))
            return c if su[0] == b else Not(c)
        if t.op == 'switch':
            su = t.d['succ']
            v = self.num(t.ops[0])
            cs = [cval(x) for x in t.d['cases']]
            cs = [R(1 if x else 0) if isF(x) else x for x in cs]
            f = False
            for s, c in zip(su[1:], cs):
                if s == b:
                    f = Or(f, eq(v, c))
            if su[0] == b:
                f = Or(f, And(*[Not(eq(v, c)) for s, c in zip(su[1:], cs) if s != b]))
            return self.assumed(f)
        return True

    def assumed(self, c):
        """condition under the assumed preconditions"""
        if not self.assume or c is True or c is False:
            return c
        k = ('assumed', c)
        if k not in self._cond_memo:
            from .cases import decide_s
            v = decide_s(self.assume, c)
            self._cond_memo[k] = c if v is None else v
        return self._cond_memo[k]

    def _edge_scoped(self, p, b, h):
        """edge condition inside scope of loop h; counted-exit tests are part
        of the iteration domain and count as true"""
        if h is not None:
            L = self.loops[h]
            for (e, x) in L.exits:
                if e == p and b in L.blocks and self.inner.get(p) == h and (e, x) in L.exits_norm:
                    if L.counted and (e, x) in L.counted:
                        return True
        return self.edge(p, b)

    def conds_from(self, d):
        """conditions of blocks reachable from d in d's innermost scope,
        relative to reaching d (computed on demand)"""
        c = self._cond_memo.get(d)
        if c is None:
            c = self._cond_memo[d] = _Conds(self, d)
        return c

    def _top_loop(self, b, h):
        """outermost loop containing b strictly inside scope loop h"""
        x = self.inner.get(b)
        res = None
        while x is not None and x != h:
            res = x
            x = self.loops[x].parent
        return res

    def _exit_cond(self, top, p, b):
        L = self.loops[top]
        ex = L.exits_norm
        hp = self.inner.get(p)
        if len(ex) == 1 and ex[0] == (p, b):
            return True
        if (p, b) not in ex:
            return ('b', ('exit', self.name, top, p, b) + self._ctx_ivs(L.parent) if L.parent is not None else ('exit', self.name, top, p, b))
        # several exits: opaque unless only one target
        if all(x[1] == b for x in ex) and False:
            return True
        par = tuple(self._ctx_ivs(L.parent)) if L.parent is not None else ()
        if (p, b) == ex[-1] :
            return And(*[Not(('b', ('exit', self.name, top) + e + par)) for e in ex[:-1]])
        return ('b', ('exit', self.name, top, p, b) + par)

    def block_cond(self, b):
        """full condition of block b: conjunction over its loop nest (iteration
        domains not included)"""
        ch = self.loop_chain(b)
        cs = []
        scope = 0
        for h in ch:
            cs.append(self.conds_from(scope).get(h, False))
            scope = h
        cs.append(self.conds_from(scope).get(b, False))
        return And(*cs)

    def domain(self, b):
        """iteration-domain constraints for block b"""
        fs = []
        for h in self.loop_chain(b):
            L = self.loops[h]
            self.trip(h)
            fs.append(ge(L.iv, 0))
            for (e, x), N in (L.counted or {}).items():
                if N is None:
                    continue
                if isinstance(N, tuple):
                    # test that does not vary with the iteration
                    if b != e and self.dominates(e, b):
                        fs.append(N[1])
                    else:
                        fs.append(Or(eq(L.iv, 0), N[1]))
                    continue
                if b != e and self.dominates(e, b) or (b == e and False):
                    fs.append(lt(L.iv, N))
                else:
                    fs.append(le(L.iv, N))
        return fs

    # ---------------------------------------------------------------- phis
    def gate(self, I):
        b = I.blk
        inc = I.d['inc']
        pairs = [(p, o) for p, o in zip(inc, I.ops) if p in self.live and p in self.preds[b]]
        if len(pairs) == 1:
            p, o = pairs[0]
            return self.leave(o, p, b)
        vals = [self.leave(o, p, b) for p, o in pairs]
        if all(v == vals[0] for v in vals):
            return vals[0]
        d = self.idom[b]
        conds = self.conds_from(d)
        h = self.inner.get(d)
        res = None
        items = []
        for (p, o), v in zip(pairs, vals):
            tp = self._top_loop(p, h)
            if tp is not None and b not in self.loops[tp].blocks:
                c = And(conds.get(tp, False), self._exit_cond(tp, p, b))
            else:
                c = And(conds.get(p, False), self._edge_scoped(p, b, h))
            items.append((c, v))
        # group equal values
        grp = []
        for c, v in items:
            for k, (c2, v2) in enumerate(grp):
                if v2 == v:
                    grp[k] = (Or(c2, c), v2)
                    break
            else:
                grp.append((c, v))
        if len(grp) == 1:
            return grp[0][1]
        grp.sort(key=lambda cv: len(str(cv[0])))
        res = grp[-1][1]
        for c, v in reversed(grp[:-1]):
            res = ite(c, v, res)
        return res

    def leave(self, o, p, b):
        """value of operand o on the edge p->b, leaving loops if necessary"""
        v = self.opv(o)
        ls = []
        h = self.inner.get(p)
        while h is not None and b not in self.loops[h].blocks:
            ls.append(h)
            h = self.loops[h].parent
        for h in ls:
            L = self.loops[h]
            self.trip(h)
            N = self.exit_count(h, p, b)
            v = subst_val(v, {L.ivid: N})
        return v

    def exit_count(self, h, p, b):
        L = self.loops[h]
        ex = L.exits_norm
        if len(ex) == 1 and L.counted and ex[0] in L.counted and L.counted[ex[0]] is not None:
            if not isinstance(L.counted[ex[0]], tuple):
                return self._nonneg(L, ex[0], L.counted[ex[0]])
        if L.counted and all(e in L.counted and L.counted[e] is not None for e in ex) and all(self.inner.get(e[0]) == h for e in ex):
            # several counted exits (e.g. i<a && i<b): leaves at the minimum;
            # a test that does not vary leaves in iteration 0 or never
            cnt = [L.counted[e] for e in ex if not isinstance(L.counted[e], tuple)]
            inv = [L.counted[e][1] for e in ex if isinstance(L.counted[e], tuple)]
            if cnt:
                N = minof([self._nonneg(L, e, L.counted[e]) for e in ex if not isinstance(L.counted[e], tuple)])
                return ite(And(*inv), N, R(0)) if inv else N
        par = tuple(self._ctx_ivs(L.parent)) if L.parent is not None else ()
        return A('kx', self.name, h, p, b, par)

    def solve(self, h):
        L = self.loops[h]
        if L.solved or h in self._solving:
            return
        if L.parent is not None and not self.loops[L.parent].solved and L.parent not in self._solving:
            self.solve(L.parent)
            if L.solved:
                return
        self._solving.add(h)
        phis = [I for I in self.blocks[h] if I.op == 'phi']
        init = {}
        nxt_ops = {}
        for I in phis:
            ini = None
            nx = []
            for p, o in zip(I.d['inc'], I.ops):
                if p not in self.live:
                    continue
                if p in L.blocks:
                    nx.append((p, o))
                else:
                    v = self.leave(o, p, h)
                    ini = v if ini is None else ite(('b', ('entry', self.name, h, p)), v, ini)
            init[I.id] = ini
            nxt_ops[I.id] = nx
        for I in phis:
            t = I.ty
            if t == 'ptr':
                self.ph[I.id] = P(('phP', self.name, I.id))
            elif t == 'i1':
                self.ph[I.id] = ('b', ('phB', self.name, I.id))
            else:
                self.ph[I.id] = A('ph', self.name, I.id)
        sub = {}
        psub = {}
        pending = list(phis)
        # pass 1: next values with placeholders
        nxt = {}
        for I in phis:
            nxt[I.id] = self._next(L, I, nxt_ops[I.id])
        self._clear(L)
        progress = True
        solved = {}
        while progress and pending:
            progress = False
            for I in list(pending):
                s = self._try_solve(L, I, init[I.id], nxt[I.id], solved, pending)
                if s is not None:
                    solved[I.id] = s
                    pending.remove(I)
                    progress = True
                    for J in pending:
                        nxt[J.id] = self._apply(nxt[J.id], I, s)
        for I in pending:
            solved[I.id] = self._opaque_rec(L, I, init[I.id], nxt[I.id])
        for I in phis:
            self.ph.pop(I.id, None)
        for I in phis:
            s = solved[I.id]
            # resolve references to still-placeholder phis (mutual recursion)
            for J in pending:
                s = self._apply(s, J, solved[J.id]) if J is not I else s
            self.memo[I.id] = s
        L.init = init
        L.solved = True
        self._solving.discard(h)
        self._clear(L, keep=set(I.id for I in phis))
        self._cond_memo.clear()
        self._mem_memo.clear()
        self.trip(h)

    def _next(self, L, I, nx):
        if len(nx) == 1:
            return self.opv(nx[0][1])
        # several latches: gate by conditions
        conds = self.conds_from(L.header)
        res = None
        for p, o in nx:
            v = self.leave(o, p, L.header)
            c = And(conds.get(p, False), self._edge_scoped(p, L.header, L.header))
            res = v if res is None else ite(c, v, res)
        return res

    def _clear(self, L, keep=()):
        for b in L.blocks:
            for J in self.blocks[b]:
                if J.id not in keep:
                    self.memo.pop(J.id, None)
        for h2, L2 in self.loops.items():
            if h2 != L.header and h2 in L.blocks:
                L2.solved = False
                L2.uppers = None
        self._cond_memo.clear()
        self._mem_memo.clear()
        if not L.solved:
            L.uppers = None

    def _pid(self, I):
        if I.ty == 'ptr':
            return ('phP', self.name, I.id)
        if I.ty == 'i1':
            return ('phB', self.name, I.id)
        return ('ph', self.name, I.id)

    def _apply(self, v, I, s):
        if I.ty == 'ptr':
            return subst_base(v, self._pid(I), s)
        if I.ty == 'i1':
            return subst_bool(v, self._pid(I), s)
        return subst_val(v, {atom_id(self._pid(I)): s if isinstance(s, Rat) else R(0)})

    def _mentions(self, v, pids):
        return mentions(v, pids)

    def _try_solve(self, L, I, init, nx, solved, pending):
        pids = set(self._pid(J) for J in pending)
        me = self._pid(I)
        k = L.iv
        if I.ty == 'ptr':
            if isP(nx) and nx[1] == me:
                dlt = nx[2]
                if not self._mentions(dlt, pids) and isP(init):
                    s = self._accum(L, dlt)
                    return ('P', init[1], init[2] + s)
            if not self._mentions(nx, pids):
                return self._prev(L, init, nx)
            return None
        if I.ty == 'i1':
            if not self._mentions(nx, pids):
                return self._prev(L, init, nx)
            return None
        if not isinstance(nx, Rat):
            return None
        x = Rat(Poly.atom(atom_id(me)))
        if not isinstance(init, Rat):
            if init == UNDEF:
                init = A('undef', self.name)
            elif isF(init):
                init = b2i(init)
            else:
                return None
        dlt = nx - x
        if not self._mentions(dlt, pids):
            return init + self._accum(L, dlt)
        if not self._mentions(nx, pids):
            return self._prev(L, init, nx)
        # geometric: next = q*x, q constant
        if len(pids) and not self._mentions(dlt, pids - {me}):
            q = None
            if nx.is_poly():
                co = nx.n.coeffs(atom_id(me))
                if set(co) == {1} and not mentions(Rat(co[1]), {me}):
                    q = Rat(co[1])
            if q is not None and L.ivid not in deep_atoms(q):
                if q == R(-1):
                    return init * A('altsign', k)
                return init * fn('ipow', q, k)
        return None

    def _accum(self, L, dlt):
        """sum of dlt over iterations 0..iv-1"""
        ivid = L.ivid
        f = faulhaber(dlt, ivid)
        if f is not None:
            return f
        lv = _levels(dlt)
        bv = ('bv', (max(lv) + 1) if lv else 0)
        body = subst_rat(dlt, lambda a: A(*bv) if a == ivid else None)
        return mksum(bv, (L.iv,), body)

    def _prev(self, L, init, nx):
        prevv = subst_val(nx, {L.ivid: L.iv - 1})
        return ite(eq(L.iv, 0), init, prevv)

    def _opaque_rec(self, L, I, init, nx):
        if I.ty == 'ptr':
            return P(('recp', self.name, L.header, I.id, L.iv))
        if I.ty == 'i1':
            return ('b', ('recb', self.name, L.header, I.id, L.iv))
        if isinstance(init, Rat) and isinstance(nx, Rat):
            me = atom_id(self._pid(I))
            slot = A('slot', 0)
            body = subst_rat(nx, lambda a: slot if a == me else None)
            lv = _levels(body)
            bv = A('bv', (max(lv) + 1) if lv else 0)
            body = subst_rat(body, lambda a: bv if a == L.ivid else None)
            return A('rec', 0, L.iv, init, body)
        return A('recv', self.name, L.header, I.id, L.iv)

    # ---------------------------------------------------------------- trip count
    def trip(self, h):
        L = self.loops[h]
        if L.uppers is not None:
            return L.uppers
        L.counted = {}
        L.uppers = []
        if not L.solved:
            if h not in self._solving:
                L.uppers = None
                self.solve(h)
                return L.uppers
            # being solved: counted exits identified structurally (header test)
            for (e, x) in L.exits_norm:
                if self.inner.get(e) == h and self.dominates(e, L.latches[0]):
                    L.counted[(e, x)] = None
            u = L.uppers
            L.uppers = None
            return u
        for (e, x) in L.exits_norm:
            if self.inner.get(e) != h:
                continue
            if not all(self.dominates(e, l) for l in L.latches):
                continue
            ins = [s for s in self.succ[e] if s in L.blocks]
            c = Not(self.edge(e, x))
            N = self._solve_trip(L, c)
            if N is not None:
                L.counted[(e, x)] = N
                L.uppers.append(N)
            elif c is not True and c is not False and self._invariant(L, c):
                L.counted[(e, x)] = ('inv', c)
        # exits tested unconditionally only; others remain as guards
        return L.uppers

    def _nonneg(self, L, e, N):
        """a loop `iv < N` entered with N < 0 leaves in iteration 0"""
        c = self.edge(*e)
        if c in (True, False) or not any(x[0] == 'lt' for x in literals(c)):
            return N
        if N.is_const() and N.cval() >= 0:
            return N
        return mm('max', N, R(0))

    def _invariant(self, L, c):
        """the formula does not vary over the iterations of L"""
        at = set()
        for x in literals(c):
            if x[0] == 'b':
                return False
            alg._deep_desc(x, at)
        if L.ivid in at:
            return False
        for a in at:
            d = atom_desc(a)
            if d[0] in ('arg', 'sym', 'min', 'max', 'iv'):
                continue
            if d[0] == 'ld' and d[4] in (0, 'init', None, ()):
                continue
            return False
        return True

    def _solve_trip(self, L, c):
        if c is True or c is False:
            return None
        k = L.ivid
        neg = False
        if c[0] == 'and':
            Ns, inv = [], []
            for x in c[1]:
                N = self._solve_trip(L, x)
                if N is not None:
                    Ns.append(N)
                elif self._invariant(L, x):
                    inv.append(x)
                else:
                    return None
            if not Ns:
                return None
            # a conjunct that does not vary: no iteration unless it holds
            return ite(And(*inv), minof(Ns), R(0)) if inv else minof(Ns)
        if c[0] == 'not' and c[1][0] == 'eq':
            p = c[1][1]
            neg = True
        elif c[0] == 'lt':
            p = c[1]
        else:
            return None
        if not p.is_poly() or p.n.degree(k) != 1:
            return None
        co = p.n.coeffs(k)
        a, b = co.get(1), co.get(0, Poly({}))
        for q in (a, b):
            if k in deep_atoms(Rat(q)):
                return None
        if not a.is_const():
            return None
        a = a.cval()
        b = Rat(b)
        if neg:
            N = b * Rat.c(Fr(-1) / a)
            return N
        if a <= 0:
            return None
        if a == 1:
            return -b
        q = (-b) * Rat.c(Fr(1) / a)
        if q.is_poly() and all(x.denominator == 1 for x in q.n.t.values()):
            return q
        if q.is_const():
            return R(-((-q.cval()).__floor__()))
        if a.denominator == 1:
            if b.is_poly() and all(x.denominator == 1 for x in b.n.t.values()) and a <= 8 and _always_divisible(b.n, int(a)):
                return q
            return fn('ceildiv', -b, R(a))
        return None

    # ---------------------------------------------------------------- memory
    def effects(self):
        if self._effects_cache is None:
            eff = {}
            for b in self.rpo:
                lst = []
                for I in self.blocks[b]:
                    k = self._effkind(I)
                    if k:
                        lst.append((I.pos, k, I))
                eff[b] = lst
            self._effects_cache = eff
        return self._effects_cache

    def _effkind(self, I):
        if I.op == 'store':
            return 'store'
        if I.op in ('call', 'invoke'):
            c = I.d.get('callee')
            if c is None:
                return 'call'
            if c.startswith('llvm.memcpy') or c.startswith('llvm.memmove'):
                return 'memcpy'
            if c.startswith('llvm.memset'):
                return 'memset'
            if c in FMATH or c.startswith('llvm.') or c.startswith('vfn_'):
                return None
            if I.d.get('nomem') or I.d.get('onlyread'):
                return None
            for n in NOEFFECT_CALLS:
                if c.startswith(n):
                    return None
            return 'call'
        if I.op in ('atomicrmw', 'cmpxchg'):
            return 'call'
        return None

    SIZES = {'double': 8, 'ptr': 8, 'i64': 8, 'i32': 4, 'i8': 1, 'i1': 1, 'float': 4, 'i16': 2}

    def alias(self, b1, o1, s1, t1, b2, o2, s2, t2):
        """relation of effect region 1 to location 2"""
        if b1 != b2:
            for x, y, oy, sy, ty in ((b1, b2, None, None, None), (b2, b1, None, None, None)):
                if x[0] == 'pite':
                    c, p1, p2 = x[1:]
                    return 'may' if (p1[1] == y or p2[1] == y) else 'no'
            if b1[0] in ('phP', 'recp') or b2[0] in ('phP', 'recp'):
                return 'may' if t1 == t2 else 'no'
            return 'no'
        dlt = o1 - o2
        if dlt.is_const():
            v = dlt.cval()
            if v == 0 and s1 == s2:
                return 'must'
            if v >= s2 or (s1 is not None and v + s1 <= 0):
                return 'no'
            return 'may'
        if t1 is not None and t2 is not None and (t1 == 'double') != (t2 == 'double') and t1 != 'i8' and t2 != 'i8':
            return 'no'
        if self.assume and s1 is not None:
            if entails(self.assume, ge(dlt, s2)) or entails(self.assume, le(dlt + s1, 0)):
                return 'no'
        return 'may'

    def load_at(self, I):
        p = self.opv(I.ops[0])
        return self.load(p, I.ty, I.blk, I.pos)

    def load(self, p, ty, blk, pos):
        if not isP(p):
            return self._ldatom(('opqp', str(p)), R(0), ty, None)
        base, off = p[1], p[2]
        if base[0] == 'pite':
            c, p1, p2 = base[1:]
            return ite(c, self.load(self.padd(p1, off), ty, blk, pos), self.load(self.padd(p2, off), ty, blk, pos))
        if base[0] == 'null':
            return self._ldatom(base, off, ty, None)
        if base[0] == 'glob':
            nm = base[1]
            if nm.startswith('_ZGV'):
                return R(0)
            g = self.mod.globals.get(nm)
            if g and g['const'] and off.is_const():
                m, zr, has, _ = self.mod.gmem(nm)
                o = int(off.cval())
                if o in m:
                    t, c = m[o]
                    if t == ty or True:
                        v = cval(c)
                        if ty == 'i1' and isinstance(v, Rat):
                            return not v.is_zero()
                        if isF(v) and ty == 'i8':
                            return R(1 if v else 0)
                        return v
                if has and any(a <= o < b for a, b in zr):
                    return R(0) if ty != 'ptr' else P(('null',))
        key = (base, off, ty, blk, pos)
        if key in self._mem_memo:
            return self._mem_memo[key]
        v = self._mem(base, off, ty, self.SIZES.get(ty, 8), blk, pos)
        self._mem_memo[key] = v
        return v

    def _ldatom(self, base, off, ty, ver):
        if ty == 'ptr':
            return P(('ld', base, off, ty, ver))
        a = A('ld', base, off, ty, ver)
        if ty == 'i1':
            return ('b', ('ldb', base, off, ver))
        return a

    def _mem(self, base, off, ty, sz, blk, pos):
        eff = self.effects()
        b = blk
        while True:
            for (ps, k, I) in reversed(eff[b]):
                if ps >= pos:
                    continue
                r = self._effect_on(k, I, base, off, ty, sz)
                if r is not None:
                    return r[0]
            # block start
            if b == 0:
                return self._initmem(base, off, ty)
            if b in self.loops:
                L = self.loops[b]
                if self._loop_may(L, base, off, ty, sz):
                    return self._ldatom(base, off, ty, ('h', b))
                ps = L.entry_preds
            else:
                ps = self.preds[b]
            if len(ps) == 1:
                p = ps[0]
                q = self._exit_jump(p, b, base, off, ty, sz)
                if q is None:
                    return self._ldatom(base, off, ty, ('x', self._top_loop_from(p, b)))
                b = q
                pos = 1 << 30
                continue
            # merge
            d = self.idom[b]
            if not self._between_may(d, b, base, off, ty, sz):
                b = d
                pos = 1 << 30
                continue
            vals = []
            for p in ps:
                q = self._exit_jump(p, b, base, off, ty, sz)
                if q is None:
                    vals.append(self._ldatom(base, off, ty, ('x', self._top_loop_from(p, b))))
                else:
                    vals.append(self.load(('P', base, off), ty, q, 1 << 30))
            if all(v == vals[0] for v in vals):
                return vals[0]
            conds = self.conds_from(d)
            h = self.inner.get(d)
            res = None
            for p, v in zip(ps, vals):
                tp = self._top_loop(p, h)
                if tp is not None and b not in self.loops[tp].blocks:
                    c = And(conds.get(tp, False), self._exit_cond(tp, p, b))
                else:
                    c = And(conds.get(p, False), self._edge_scoped(p, b, h))
                res = v if res is None else ite(c, v, res)
            return res

    def _top_loop_from(self, p, b):
        h = self.inner.get(p)
        res = None
        while h is not None and b not in self.loops[h].blocks:
            res = h
            h = self.loops[h].parent
        return res

    def _exit_jump(self, p, b, base, off, ty, sz):
        """walking backwards over edge p->b: if it leaves loops that do not
        write the location, jump before them"""
        t = self._top_loop_from(p, b)
        if t is None:
            return p
        L = self.loops[t]
        if self._loop_may(L, base, off, ty, sz):
            return None
        if len(L.entry_preds) == 1:
            q = L.entry_preds[0]
            return self._exit_jump(q, t, base, off, ty, sz)
        return None

    def _loop_may(self, L, base, off, ty, sz):
        eff = self.effects()
        for b in L.blocks:
            for (ps, k, I) in eff.get(b, ()):
                if self._effect_rel(k, I, base, off, ty, sz) != 'no':
                    return True
        return False

    def _between_may(self, d, b, base, off, ty, sz):
        seen = set()
        st = list(self.preds[b])
        eff = self.effects()
        while st:
            x = st.pop()
            if x in seen or x == d:
                continue
            seen.add(x)
            for (ps, k, I) in eff.get(x, ()):
                if self._effect_rel(k, I, base, off, ty, sz) != 'no':
                    return True
            st.extend(self.preds[x])
        return False

    def _effect_rel(self, k, I, base, off, ty, sz):
        if k == 'store':
            vt = I.d['vty']
            if vt != ty and 'double' in (vt, ty) and vt in self.SIZES and ty in self.SIZES and vt not in ('i8', 'i1') and ty not in ('i8', 'i1') \
                    and not (vt == 'i64' and base[0] in ('alloca',)):
                return 'no'       # type-based aliasing
            p = self.opv(I.ops[1])
            if not isP(p):
                return 'may'
            return self.alias(p[1], p[2], I.d['sz'], I.d['vty'], base, off, sz, ty)
        if k in ('memcpy', 'memset'):
            p = self.opv(I.ops[0])
            if not isP(p):
                return 'may'
            if p[1] != base:
                if p[1][0] == 'pite':
                    return 'may' if base in (p[1][2][1], p[1][3][1]) else 'no'
                return 'no'
            n = self.num(I.ops[2])
            if n.is_const():
                dlt = p[2] - off
                if dlt.is_const():
                    v = dlt.cval()
                    if v >= sz or v + n.cval() <= 0:
                        return 'no'
                    if v <= 0 and v + n.cval() >= sz:
                        return 'must'
            return 'may'
        if k == 'call':
            if base[0] in ('glob',):
                g = self.mod.globals.get(base[1], {})
                if g.get('const'):
                    return 'no'
            for o, ro in zip(I.ops, I.d.get('argro', [0] * len(I.ops))):
                if o[0] in ('v', 'g'):
                    v = self.opv(o)
                    if isP(v) and not ro:
                        if v[1] == base or (v[1][0] == 'pite' and base in (v[1][2][1], v[1][3][1])):
                            return 'may'
            return 'no'
        return 'no'

    def _effect_on(self, k, I, base, off, ty, sz):
        rel = self._effect_rel(k, I, base, off, ty, sz)
        if rel == 'no':
            return None
        if k == 'store':
            if rel == 'must' and self._fwd_ok(base, ty):
                v = self.opv(I.ops[0])
                vt = I.d['vty']
                if vt == ty:
                    return (v,)
                if {vt, ty} <= {'ptr', 'i64'} and isP(v):
                    return (v,)
                if vt == 'i8' and ty == 'i1':
                    return (v if isF(v) else Not(eq(v, 0)),)
            return (self._ldatom(base, off, ty, ('s', I.id) + tuple(self._ctx_ivs(I.blk))),)
        if k == 'memset' and rel == 'must':
            v = self.num(I.ops[1])
            if v.is_zero():
                return (R(0) if ty != 'ptr' else P(('null',)),)
        if k == 'memcpy' and rel == 'must':
            dst = self.opv(I.ops[0])
            src = self.opv(I.ops[1])
            if isP(src):
                return (self.load(self.padd(src, off - dst[2]), ty, I.blk, I.pos),)
        return (self._ldatom(base, off, ty, ('s', I.id) + tuple(self._ctx_ivs(I.blk))),)

    def _fwd_ok(self, base, ty):
        if self.fwd:
            return True
        if ty == 'double' and base[0] in ('ld', 'arg', 'new', 'pite'):
            return False
        return True

    def _initmem(self, base, off, ty):
        return self._ldatom(base, off, ty, None if base[0] not in ('alloca', 'new') else 'uninit')

    # ---------------------------------------------------------------- summary
    def events(self):
        """ordered list of memory effects and calls with conditions"""
        if getattr(self, '_ev', None) is not None:
            return self._ev
        out = []
        n = 0
        for b in self.rpo:
            for I in self.blocks[b]:
                ev = None
                if I.op == 'store':
                    ev = Event(kind='store', ptr=self.opv(I.ops[1]), val=self.opv(I.ops[0]), ty=I.d['vty'], size=I.d['sz'])
                elif I.op in ('call', 'invoke'):
                    c = I.d.get('callee') or '?'
                    if c.startswith('llvm.memcpy') or c.startswith('llvm.memmove'):
                        ev = Event(kind='memcpy', ptr=self.opv(I.ops[0]), src=self.opv(I.ops[1]), n=self.num(I.ops[2]))
                    elif c.startswith('llvm.memset'):
                        ev = Event(kind='memset', ptr=self.opv(I.ops[0]), val=self.opv(I.ops[1]), n=self.num(I.ops[2]))
                    elif c.startswith('llvm.') or c in FMATH:
                        continue
                    else:
                        av = []
                        for o in I.ops:
                            av.append(self.opv(o) if o[0] not in ('md', 'bb', 'unk') else UNDEF)
                        ev = Event(kind='call', callee=c, dcallee=I.d.get('dcallee', c), args=av)
                elif I.op == 'ret':
                    ev = Event(kind='ret', val=self.opv(I.ops[0]) if I.ops else None)
                elif I.op == 'unreachable':
                    ev = Event(kind='unreachable')
                if ev is None:
                    continue
                ev.I = I
                ev.blk = b
                ev.cond = self.block_cond(b)
                if ev.cond is False:
                    continue
                ev.dom = self.domain(b)
                ev.loops = self.loop_chain(b)
                ev.loc = self.loc(I)
                ev.order = n
                n += 1
                out.append(ev)
        self._ev = out
        return out

    def loc(self, I):
        ch = I.d.get('loc')
        if not ch:
            return '%s:%s' % (self.d.get('file', '?'), self.d.get('line', '?'))
        for f, l, nm in ch:
            if '/repo/' in f or f.startswith('/repo') or 'include/' in f and '/usr/' not in f:
                return '%s:%d (%s)' % (f.replace('/repo/', ''), l, nm)
        f, l, nm = ch[-1]
        return '%s:%d (%s)' % (f, l, nm)

    def retval(self):
        rets = [e for e in self.events() if e.kind == 'ret']
        if not rets:
            raise AnalysisError('%s never returns' % self.name)
        v = rets[-1].val
        for e in reversed(rets[:-1]):
            v = ite(e.cond, e.val, v)
        return v

    def final(self, p, ty):
        """value of memory location p at function return (gated over returns)"""
        rets = [e for e in self.events() if e.kind == 'ret']
        v = None
        for e in reversed(rets):
            x = self.load(p, ty, e.blk, e.I.pos)
            v = x if v is None else ite(e.cond, x, v)
        return v


# ------------------------------------------------------------ generic substitution
def subst_val(v, env):
    """env: atom id -> Rat"""
    f = lambda a: env.get(a)
    memo = {}
    g = lambda r: subst_rat(r, f, memo)
    return map_val(v, g)


def map_val(v, g):
    if isinstance(v, Rat):
        return g(v)
    if v is True or v is False:
        return v
    if isF(v):
        return fmap(v, g)
    if isinstance(v, tuple):
        return alg._map_any(v, g)
    return v


def mentions(v, pids):
    """does v mention one of the placeholder descriptors"""
    found = [False]

    def walk(x):
        if found[0]:
            return
        if isinstance(x, Rat):
            for a in x.atoms():
                d = atom_desc(a)
                if d in pids:
                    found[0] = True
                    return
                walk(d)
        elif isinstance(x, Poly):
            walk(Rat(x))
        elif isinstance(x, tuple):
            if x in pids:
                found[0] = True
                return
            for y in x:
                walk(y)
        elif isinstance(x, frozenset):
            for y in x:
                walk(y)
    walk(v)
    return found[0]


def subst_base(v, pid, s):
    """replace pointer base pid by pointer value s everywhere in v"""
    def rep(x):
        if isP(x) and x[1] == pid:
            o = g(x[2])
            return ('P', s[1], s[2] + o) if isP(s) else x
        return x

    def walkdesc(d):
        if isinstance(d, Rat):
            return g(d)
        if d is True or d is False:
            return d
        if isinstance(d, tuple):
            if isP(d) and d[1] == pid:
                return rep(d)
            if d and d[0] == 'ld' and d[1] == pid:
                return ('ld', s[1], s[2] + g(d[2]), d[3], d[4])
            if d and d[0] in alg.FKINDS:
                return fwalk(d)
            return tuple(walkdesc(x) for x in d)
        if isinstance(d, frozenset):
            return frozenset(walkdesc(x) for x in d)
        return d

    def fwalk(f):
        if f is True or f is False:
            return f
        if f[0] == 'b':
            return ('b', walkdesc(f[1]))
        return fmap(f, g) if f[0] not in ('and', 'or', 'not') else (
            And(*[fwalk(x) for x in f[1]]) if f[0] == 'and' else Or(*[fwalk(x) for x in f[1]]) if f[0] == 'or' else Not(fwalk(f[1])))
    memo = {}

    def fa(a):
        d = atom_desc(a)
        if mentions(d, {pid}):
            nd = walkdesc(d)
            if nd != d:
                if nd[0] in REBUILD:
                    return REBUILD[nd[0]](nd, lambda r: r)
                return A(*nd)
        return None

    def g(r):
        return subst_rat(r, fa, memo)
    if isinstance(v, Rat):
        return g(v)
    return walkdesc(v)


def subst_bool(v, pid, s):
    def fwalk(f):
        if f is True or f is False:
            return f
        if f[0] == 'b':
            return s if f[1] == pid else f
        if f[0] == 'not':
            return Not(fwalk(f[1]))
        if f[0] == 'and':
            return And(*[fwalk(x) for x in f[1]])
        if f[0] == 'or':
            return Or(*[fwalk(x) for x in f[1]])
        return fmap(f, g)
    memo = {}

    def fa(a):
        d = atom_desc(a)
        if d[0] == 'ite' and mentions(d, {pid}):
            return _as_rat(ite(fwalk(d[1]), g(d[2]), g(d[3])))
        return None

    def g(r):
        return subst_rat(r, fa, memo)
    if isinstance(v, Rat):
        return g(v)
    if isF(v):
        return fwalk(v)
    return v
