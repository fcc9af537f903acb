"""Matrix-object reasoning: class invariants, ownership and element contents of
objects holding a layout-mapped heap buffer, computed from value-flow events."""
import itertools
from . import alg
from .alg import R, A, Rat, Poly, atom_desc, atom_id, subst_rat, deep_atoms
from .logic import fmap, fstr, lt, le, ge, eq, Not, And, Or, fsubst, literals, contradictory, entails
from .cases import simplify, decide_any, decide_s, sform, resolve_ptr, prove_eq, prove
from .vf import P, isP, isF, ite, AnalysisError

DELETES = {'_ZdaPv': 'new[]', '_ZdaPvm': 'new[]', '_ZdlPv': 'new', '_ZdlPvm': 'new'}
NEWS = {'_Znam': 'new[]', '_Znwm': 'new', '_ZnamRKSt9nothrow_t': 'new[]'}


def rebase(r, provider, src=('arg', 'p')):
    """replace loads from object src in r by provider(off, ty)"""
    def fa(a):
        d = atom_desc(a)
        if d[0] == 'ld' and d[1] == src:
            return provider(d[2], d[3])
        return None
    return subst_rat(r, fa)


class Shape:
    """how the fields of a matrix type encode rows/cols/size/data/index/capacity,
    learned from the accessors' summaries"""

    def __init__(self, m, sfx):
        self.L = sfx
        g = lambda n: m.fn('drv_%s_%s' % (n, sfx)).retval()
        self.e_rows, self.e_cols, self.e_num = g('rows'), g('cols'), g('num')
        d = g('data')
        if not (isP(d) and d[1][0] == 'ld' and d[2].is_zero()):
            raise AnalysisError('data() of %s is not a plain field: %s' % (sfx, d))
        self.off_data = d[1][2]
        at = g('at')
        if not isP(at):
            raise AnalysisError('operator() of %s not understood: %s' % (sfx, at))
        self.at_base, self.e_at = at[1], at[2]
        # capacity-like field: extra integer field whose constructed value is the allocation size
        f = m.fn('drv_ctor_' + sfx)
        known = {int(self.off_data.cval())}
        for e in (self.e_rows, self.e_cols, self.e_num):
            for a in deep_atoms(e):
                dd = atom_desc(a)
                if dd[0] == 'ld' and dd[2].is_const():
                    known.add(int(dd[2].cval()))
        self.cap = None
        self.fields = set(known)
        for e in f.events():
            if e.kind == 'store' and e.ptr[1] == ('arg', 'p') and e.ptr[2].is_const():
                o = int(e.ptr[2].cval())
                self.fields.add(o)
                if o not in known and e.ty in ('i64', 'i32'):
                    self.cap = (o, e.ty)
        self.tri = sfx != 'RowWise' and sfx != 'ColumnWise'

    def view(self, provider):
        return View(self, provider)

    def pre(self, arg, delta=0):
        def pv(off, ty):
            if ty == 'ptr':
                return P(('ld', ('arg', arg), off + delta, ty, None))
            return A('ld', ('arg', arg), off + delta, ty, None)
        v = View(self, pv)
        v.arg = arg
        return v

    def post(self, f, arg, delta=0):
        v = View(self, lambda off, ty: f.final(P(('arg', arg), off + delta), ty))
        v.arg = arg
        return v


class View:
    def __init__(self, s, provider):
        self.s = s
        self.rows = rebase(s.e_rows, provider)
        self.cols = rebase(s.e_cols, provider)
        self.num = rebase(s.e_num, provider)
        self.data = provider(s.off_data, 'ptr')
        self.cap = provider(R(s.cap[0]), s.cap[1]) if s.cap else self.num
        self._pv = provider

    def idx(self, r, c):
        """byte offset of element (r,c)"""
        e = rebase(self.s.e_at, self._pv)
        ir, ic = atom_id(('arg', 'i')), atom_id(('arg', 'j'))
        return subst_rat(e, lambda a: R(r) if a == ir else (R(c) if a == ic else None))

    def under(self, facts):
        """copy with expressions simplified and the data pointer resolved"""
        import copy
        v = copy.copy(self)
        v.rows, v.cols, v.num, v.cap = [simplify(x, facts) for x in (self.rows, self.cols, self.num, self.cap)]
        v.data = resolve_ptr(self.data, facts)
        return v

    def stored(self, r, c, rows=None, cols=None):
        """(r,c) is a stored entry"""
        rows = self.rows if rows is None else rows
        cols = self.cols if cols is None else cols
        return [ge(r, 0), lt(r, rows), ge(c, 0), lt(c, cols)] + ([le(c, r)] if self.s.tri else [])

    def lemma(self, r, c):
        """index map facts established for every layout by P01"""
        x = self.idx(r, c)
        return [ge(x, 0), le(x + 8, self.num * 8)]

    def facts(self):
        fs = [ge(self.rows, 0), ge(self.cols, 0)]
        if self.s.L == 'Trapezoid':
            fs.append(le(self.cols, self.rows))
            self.num = simplify(self.num, fs)
        fs += [le(self.num, self.cap), ge(self.num, 0)]
        return [f for f in fs if f is not True]


class Piece:
    pass


class Contents:
    """element contents of buffers after (or during) a function"""

    def __init__(self, f, allocas=False):
        self.f = f
        self.pieces = []
        self._dec = {}
        self.hints = ()
        for ev in f.events():
            if ev.kind == 'store' and ev.ty == 'double' or ev.kind in ('memcpy', 'memset'):
                if not isP(ev.ptr):
                    continue
                if ev.ptr[1][0] in ('alloca',) and not allocas:
                    continue
                p = Piece()
                p.ev = ev
                p.ptr = ev.ptr
                p.loops = list(ev.loops)
                p.vars = [f.loops[h].ivid for h in ev.loops]
                p.cond = ev.cond
                p.dom = list(ev.dom)
                if ev.kind == 'store':
                    p.val = ev.val
                    p.off = ev.ptr[2]
                elif ev.kind == 'memcpy':
                    if ev.ptr[1][0] == 'arg':
                        continue
                    e = A('iv', f.name, 'e%d' % ev.I.id)
                    p.vars = p.vars + [atom_id(('iv', f.name, 'e%d' % ev.I.id))]
                    p.dom = p.dom + [ge(e, 0), lt(e * 8, ev.n)]
                    p.off = ev.ptr[2] + e * 8
                    p.val = f.load(('P', ev.src[1], ev.src[2] + e * 8), 'double', ev.blk, ev.I.pos) if isP(ev.src) else None
                else:
                    e = A('iv', f.name, 'e%d' % ev.I.id)
                    p.vars = p.vars + [atom_id(('iv', f.name, 'e%d' % ev.I.id))]
                    p.dom = p.dom + [ge(e, 0), lt(e * 8, ev.n)]
                    p.off = ev.ptr[2] + e * 8
                    p.val = R(0) if isinstance(ev.val, Rat) and ev.val.is_zero() else A('bytes', ev.I.id)
                top = ev.loops[0] if ev.loops else ev.blk
                p.phase = (f.rpon[top], -1 if ev.loops else ev.I.pos)
                p.top = ev.loops[0] if ev.loops else None
                self.pieces.append(p)
        self.pieces.sort(key=lambda p: (p.phase, p.ev.order))

    def decompose(self, p, view, facts):
        """(R, C) over the piece's loop variables with view.idx(R, C) equal to the
        written offset and (R, C) a stored entry throughout the piece's domain"""
        key = (id(p), id(view), frozenset(facts))
        if key in self._dec:
            return self._dec[key][0]
        res = None
        fd = list(facts) + [x for x in (sform(y, facts) for y in p.dom + [p.cond]) if x is not True]
        if False not in fd:
            vs = [Rat(Poly.atom(a)) for a in p.vars]
            cands = vs + [x + 1 for x in vs] + [x - 1 for x in vs] + [x + 2 for x in vs] + [x + y for i, x in enumerate(vs) for y in vs[:i]] + [R(0), R(1)] + list(self.hints) + [x + y for x in vs for y in self.hints] + [y - x for x in vs for y in self.hints]
            off = simplify(p.off, fd)
            for rr, cc in locate(view, off, cands, fd):
                if all(prove(fd, g) for g in view.stored(rr, cc) if g is not True):
                    res = (rr, cc)
                    break
        self._dec[key] = (res, view)      # keeps view alive: the key uses its id
        return res

    def hits(self, p, target, r, c, facts, view=None):
        """assignments of the piece's loop variables that hit byte offset target:
        list of (assignment, side condition); None when not understood"""
        n = len(p.vars)
        if view is not None:
            d = self.decompose(p, view, facts)
            if d is not None:
                env, cond = {}, []
                for e, t in zip(d, (r, c)):
                    e = subst_rat(e, lambda a: env.get(a)) - t
                    for a in p.vars:
                        if a in env:
                            continue
                        s = _solve_lin(e, a, ())
                        if s is not None:
                            for k in list(env):
                                env[k] = subst_rat(env[k], lambda x: s if x == a else None)
                            env[a] = s
                            break
                    else:
                        cond.append(eq(e, 0))
                if len(env) == n:
                    return [(env, And(*cond))]
        if n == 0:
            v = prove_eq(facts, p.off, target)
            if v is None:
                return None
            return [({}, True)] if v else []
        if n == 1:
            s = _solve_lin(p.off - target, p.vars[0], facts)
            return None if s is None else [({p.vars[0]: s}, True)]
        base = (r, c, r - c)
        ext = base + (c - 1, r - 1, c + 1, r + 1, r - c - 1, r - c + 1)
        for cands, lasts in ((base, (n - 1,)), (ext, range(n - 1, -1, -1))):
            for li in lasts:
                last = p.vars[li]
                oth = [x for k, x in enumerate(p.vars) if k != li]
                for combo in itertools.product(cands if n <= 2 else base, repeat=n - 1):
                    env = dict(zip(oth, combo))
                    o = subst_rat(p.off, lambda a: env.get(a))
                    s = _solve_lin(o - target, last, facts)
                    if s is None or not self._ok_inner(s, r, c):
                        continue
                    env[last] = s
                    # without an injectivity argument only a certain hit counts
                    if all(prove(facts, sform(fsubst(x, lambda a: env.get(a)), facts)) for x in [p.cond] + p.dom if x is not True):
                        return [(env, True)]
        return None

    @staticmethod
    def _ok_inner(s, r, c):
        return s.is_poly() and all(len(m) <= 1 and all(e == 1 for _, e in m) for m in s.n.t) and not any(
            atom_desc(a)[0] in ('sum', 'mm', 'ite') for a in s.atoms())

    def at(self, base, view, r, c, facts, before=None, depth=0):
        """value of element (r,c) of the buffer `base` viewed with `view`'s layout"""
        target = view.idx(r, c)
        return self.at_off(base, target, r, c, facts, before, depth, view)

    def at_off(self, base, target, r, c, facts, before=None, depth=0, view=None):
        v = A('ld', base, target, 'double', None)
        if base[0] == 'new':
            v = A('uninit', base, target)
        if depth > 4:
            return v
        for p in self.pieces:
            if before is not None and not (p.phase < before.phase):
                continue
            pp = resolve_ptr(p.ptr, facts)
            if pp[1] != base:
                if pp[1][0] == 'pite':
                    return A('unknown', base, target)
                continue
            if decide_s(facts, p.cond) is False:
                continue
            hs = self.hits(p, target, r, c, facts, view)
            if hs is None:
                if os_empty(p, facts):
                    continue
                return A('unknown', base, target, p.ev.order)
            if not hs:
                continue
            env, side = hs[0]
            fa = lambda a: env.get(a)
            dom = And(side, *[sform(fsubst(x, fa), facts) for x in [p.cond] + p.dom])
            val = subst_rat(p.val, fa) if isinstance(p.val, Rat) else A('unknown', p.ev.order)
            if isinstance(val, Rat):
                val = self._resolve(p, val, base, target, r, c, facts, depth, view)
            v = ite(dom, val, v)
        return v

    def _resolve(self, p, val, base, target, r, c, facts, depth, view=None):
        """loads of versioned memory inside the piece's value"""
        def fa(a):
            d = atom_desc(a)
            if d[0] == 'ld' and d[3] == 'double' and d[4] is not None and d[4] != 'uninit':
                b, off = d[1], d[2]
                b = resolve_ptr(('P', b, R(0)), facts)[1] if b[0] == 'pite' else b
                same = [q for q in self.pieces if q.phase == p.phase and resolve_ptr(q.ptr, facts)[1] == b]
                for q in same:
                    if q is not p:
                        return None
                    elif not prove_eq(facts, off, target):
                        return None
                vw = view if view is not None and prove_eq(facts, off, target) else None
                return self.at_off(b, off, r, c, facts, before=p, depth=depth + 1, view=vw)
            if d[0] == 'ld' and d[3] == 'double' and d[1][0] == 'pite':
                q = resolve_ptr(('P', d[1], d[2]), facts)
                if q[1][0] != 'pite':
                    return A('ld', q[1], q[2], d[3], d[4])
            return None
        return subst_rat(val, fa)


def os_empty(p, facts):
    fs = [sform(x, facts) for x in p.dom + [p.cond]]
    return False in fs or contradictory(list(facts) + [x for x in fs if x is not True])


def _solve_lin(e, a, facts=()):
    """solve e == 0 for atom a when e is linear in a with constant coefficient"""
    e = simplify(e, facts) if facts else e
    if not e.is_poly():
        return None
    coef = None
    rest = {}
    for m, c in e.n.t.items():
        if any(x == a for x, _ in m):
            if len(m) == 1 and m[0] == (a, 1):
                coef = c
            else:
                return None
        else:
            rest[m] = c
    if not coef:
        return None
    r = Rat(Poly(rest))
    if a in deep_atoms(r):
        return None
    return r * R(-1 / coef)


# ------------------------------------------------------------------ case splits
def case_literals(f, extra=()):
    lits = []
    seen = set()

    def add(c):
        if c is True or c is False:
            return
        for l in literals(c):
            k = l[1] if l[0] == 'not' else l
            if k not in seen and Not(k) not in seen:
                seen.add(k)
                lits.append(k)

    def addp(p):
        if isP(p):
            b = p[1]
            while b[0] == 'pite':
                add(b[1])
                addp(b[3])
                b = b[2][1]
    for e in f.events():
        if e.loops:
            # only loop-invariant parts matter for ownership
            pass
        ivs = {f.loops[h].ivid for h in e.loops}
        if e.cond not in (True, False):
            for l in literals(e.cond):
                if not ivs or not _uses(l, ivs):
                    add(l)
        for k in ('ptr', 'val', 'src'):
            v = getattr(e, k, None)
            if isP(v):
                addp(v)
        for v in getattr(e, 'args', ()):
            addp(v)
    for x in extra:
        if isP(x):
            addp(x)
    return lits


def _uses(l, ivs):
    found = []

    def fa(a):
        if a in ivs:
            found.append(a)
        return None
    fsubst(l, fa)
    return bool(found)


def cases(f, facts, extra=(), limit=256, peqfalse=True):
    """consistent truth assignments of the branch literals"""
    lits = case_literals(f, extra)
    lits2 = []
    base = [x for x in facts if x is not True]
    for l in lits:
        if l[0] == 'b' and isinstance(l[1], tuple) and l[1][0] == 'peq' and peqfalse:
            base.append(Not(l))        # distinct objects
            continue
        lits2.append(l)
    out = [base]
    for l in lits2:
        nxt = []
        for fs in out:
            for g in (l, Not(l)):
                if decide_any(fs, g) is False:
                    continue
                fs2 = fs + [g]
                if contradictory(fs2):
                    continue
                nxt.append(fs2)
        out = nxt
        if len(out) > limit:
            raise AnalysisError('too many cases in %s' % f.name)
    return out


# ------------------------------------------------------------------ obligations
def locate(view, off, cands, facts):
    """(r,c) with view.idx(r,c) == off, in terms of the candidate expressions"""
    T = atom_id(('sym', '__t'))
    t = Rat(Poly.atom(T))
    for order in ('row', 'col'):
        for x in cands:
            rc = (x, t) if order == 'row' else (t, x)
            fs = list(facts) + [g for g in view.stored(*rc) if g is not True]
            o = simplify(view.idx(*rc), fs)
            s = _solve_lin(simplify(o, facts) - off, T, facts)
            if s is not None and Contents._ok_inner(s, None, None):
                yield ((x, s) if order == 'row' else (s, x))


class Op:
    """one analysed operation: objects {arg: (shape, delta, entry, exit)}"""

    def __init__(self, m, fname, objs, pre=(), facts=()):
        self.f = m.fn(fname)
        self.name = fname
        self.objs = objs
        self.c = Contents(self.f)
        self.pre = {}
        self.post = {}
        base = [x for x in facts if x is not True]
        self.alloc = {}
        self.extra = []
        for key, (sh, arg, delta, entry, exit_) in objs.items():
            if entry == 'live':
                v = sh.pre(arg, delta)
                self.pre[key] = v
                base += v.facts()
                a = A('sym', 'alloc_' + key)
                self.alloc[v.data[1]] = a
                base.append(ge(a, v.cap))
            if exit_ == 'live':
                v = sh.post(self.f, arg, delta)
                self.post[key] = v
                self.extra.append(v.data)
        for x in pre:
            base.append(x)
        self.base = [x for x in base if x is not True]
        self.cases = []
        for fs in cases(self.f, self.base, self.extra):
            fs = list(fs)
            for key, v in self.pre.items():
                nul = ('b', ('isnull', v.data[1]))
                if nul in fs:
                    fs += [x for x in (eq(v.cap, 0), eq(v.num, 0)) if x is not True]
            n = len(self.base)
            fs = self.base + [g for g in (fmap(x, lambda r: simplify(r, self.base)) for x in fs[n:]) if g is not True]
            if False in fs or contradictory(fs):
                continue
            self.cases.append(fs)

    # ---- ownership
    def ownership(self, ck, tag, loc=''):
        for ci, fs in enumerate(self.cases):
            self._own_case(ck, tag, fs, loc)

    def _own_case(self, ck, tag, fs, loc):
        live = {}
        kind = {}
        deleted = {}
        nulls = set()
        why = ' [when %s]' % self._casestr(fs)
        for key, v in self.pre.items():
            b = v.data[1]
            if ('b', ('isnull', b)) in fs:
                nulls.add(b)
            else:
                live[b] = key
                kind[b] = 'new[]'
        evs = sorted([e for e in self.f.events()], key=lambda e: (self.f.rpon[e.loops[0]] if e.loops else self.f.rpon[e.blk], e.order))
        size = {}
        bad = []
        for e in evs:
            c = decide_s(fs, e.cond)
            if c is False:
                continue
            if e.kind == 'call' and e.callee in NEWS:
                if c is None or e.loops:
                    return ck.ok(tag + ': ownership', None, e.loc, 'allocation under undecided condition' + why)
                b = ('new', self.f.name, e.I.id)
                live[b] = e.loc
                kind[b] = NEWS[e.callee]
                size[b] = simplify(e.args[0], fs)
            elif e.kind == 'call' and e.callee in DELETES:
                if c is None or e.loops:
                    return ck.ok(tag + ': ownership', None, e.loc, 'release under undecided condition' + why)
                p = resolve_ptr(e.args[0], fs)
                b = p[1]
                if b[0] == 'null' or b in nulls:
                    continue
                if b not in live:
                    bad.append(('%s releases a buffer that is %s' % (tag, 'already released' if b in deleted else 'not owned'), e.loc))
                    continue
                if not p[2].is_zero():
                    bad.append((tag + ': releases an interior pointer', e.loc))
                if kind[b] != DELETES[e.callee]:
                    bad.append((tag + ': allocated with %s, released with the other form of delete' % kind[b], e.loc))
                deleted[b] = e
                del live[b]
            elif e.kind in ('store', 'memcpy', 'memset') and isP(e.ptr):
                for p in [e.ptr, getattr(e, 'src', None)]:
                    if isP(p):
                        b = resolve_ptr(p, fs)[1]
                        if b in deleted:
                            bad.append((tag + ': touches a buffer after releasing it', e.loc))
                if isinstance(getattr(e, 'val', None), Rat):
                    for a in deep_atoms(e.val):
                        d = atom_desc(a)
                        if d[0] == 'ld' and resolve_ptr(('P', d[1], R(0)), fs)[1] in deleted:
                            bad.append((tag + ': reads a buffer after releasing it', e.loc))
            elif e.kind == 'call' and not _benign(e.callee):
                return ck.ok(tag + ': ownership', None, e.loc, 'calls %s' % e.callee + why)
        owned = {}
        for key, v in self.post.items():
            p = resolve_ptr(v.data, fs)
            b = p[1]
            if b[0] == 'null' or b in nulls:
                continue
            if b[0] == 'pite':
                return ck.ok(tag + ': ownership', None, loc, 'final pointer of %s undecided%s' % (key, why))
            if b in deleted:
                bad.append(('%s: object %s is left holding a released buffer' % (tag, key), deleted[b].loc))
            elif b not in live:
                bad.append(('%s: object %s is left holding an invalid buffer pointer' % (tag, key), loc))
            elif b in owned:
                bad.append(('%s: objects %s and %s end up owning the same buffer' % (tag, owned[b], key), loc))
            elif not p[2].is_zero():
                bad.append((tag + ': object keeps an interior pointer', loc))
            else:
                owned[b] = key
        for b, w in live.items():
            if b not in owned:
                bad.append(('%s: buffer of %s is neither released nor owned afterwards (leak)' % (tag, w), loc))
        name = tag + ': every buffer has exactly one owner and is released once'
        if bad:
            ck.ok(name, False, bad[0][1] or loc, '; '.join(b[0] for b in bad) + why)
        else:
            ck.ok(name, True, loc)
        # class invariant of surviving objects
        alloc = dict(self.alloc)
        for b, s in size.items():
            alloc[b] = s / 8
        for key, v0 in self.post.items():
            v = v0.under(fs)
            b = v.data[1]
            al = R(0) if (b[0] == 'null' or b in nulls) else alloc.get(b)
            if al is None:
                continue
            ck.holds(tag + ': %s: recorded capacity fits the allocation' % key, fs, le(v.cap, al), loc, what=why)
            if v.s.cap:
                ck.holds(tag + ': %s: element count fits the capacity' % key, fs, le(v.num, v.cap), loc, what=why)
        return None

    def _casestr(self, fs):
        from .logic import fstr
        x = [fstr(f) for f in fs[len(self.base):]]
        return ' and '.join(x[:6]) if x else 'always'

    # ---- bounds of element accesses
    def bounds(self, ck, tag, loc=''):
        for fs in self.cases:
            alloc = dict(self.alloc)
            for e in self.f.events():
                if e.kind == 'call' and e.callee in NEWS:
                    alloc[('new', self.f.name, e.I.id)] = simplify(e.args[0], fs) / 8
            for bl in self.f.blocks:
                for I in bl if not isinstance(bl, int) else self.f.blocks[bl]:
                    if I.op == 'alloca' and I.d.get('aty', '').startswith('[') and I.d.get('asz'):
                        alloc[('alloca', self.f.name, I.id, I.d.get('nm', ''))] = R(I.d['asz']) / 8
            views = {}
            for v0 in list(self.pre.values()) + list(self.post.values()):
                v = v0.under(fs)
                views.setdefault(v.data[1], []).append(v)
            for p in self.c.pieces:
                if decide_s(fs, p.cond) is False:
                    continue
                fd = list(fs) + [x for x in (sform(y, fs) for y in p.dom + [p.cond]) if x is not True]
                if False in fd or contradictory(fd):
                    continue
                acc = [(resolve_ptr(p.ptr, fs)[1], p.off, 'write')]
                if isinstance(p.val, Rat):
                    for a in sorted(deep_atoms(p.val)):
                        d = atom_desc(a)
                        if d[0] == 'ld' and d[3] == 'double':
                            acc.append((resolve_ptr(('P', d[1], R(0)), fs)[1], d[2], 'read'))
                for b, off, what in acc:
                    if b[0] == 'glob' and b not in alloc:
                        g = self.f.mod.globals.get(b[1])
                        if g and g.get('ty', '').startswith('[') and g.get('size'):
                            alloc[b] = R(g['size']) / 8
                    if b not in alloc:
                        continue
                    self._inb(ck, tag, fd, p, b, off, what, alloc[b], views.get(b, []))

    def _inb(self, ck, tag, fd, p, b, off, what, al, views):
        off = simplify(off, fd)
        name = tag + ': element %ss stay inside the buffer' % what
        loc = p.ev.loc
        if prove(fd, ge(off, 0)) and prove(fd, le(off + 8, al * 8)):
            return ck.ok(name, True, loc)
        vs = [Rat(Poly.atom(a)) for a in p.vars]
        cands = vs + [x + 1 for x in vs] + [x + y for i, x in enumerate(vs) for y in vs[:i]] + [R(0), R(1)]
        for v in views:
            for r, c in locate(v, off, cands, fd):
                if all(prove(fd, g) for g in v.stored(r, c) if g is not True):
                    if prove(fd + [sform(x, fd) for x in v.lemma(r, c)], le(off + 8, al * 8)):
                        return ck.ok(name, True, loc)
        from .evalx import refute_formula
        w = None
        if R(al).is_const():
            w = refute_formula(fd + [eq(off, R(al) * 8)], False)     # the first element beyond
        w = w or refute_formula(fd, And(ge(off, 0), le(off + 8, al * 8)))
        if w:
            return ck.ok(name, False, loc, 'byte offset %s of a buffer of %s elements %s' % (off, al, w))
        return ck.ok(name, None, loc, 'offset %s, %s elements; %s' % (off, al, [fstr(x) for x in fd]))


def _benign(c):
    from .vf import NOEFFECT_CALLS, FMATH
    if c in FMATH or c.startswith('llvm.') or c.startswith('vfn_') or c in NEWS or c in DELETES:
        return True
    return any(c.startswith(n) for n in NOEFFECT_CALLS)
