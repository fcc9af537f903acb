"""Recurrences stored in a coefficient matrix: every write is an equation between
entries; the equations are compared with the specified recurrence, and the order
of evaluation, coverage and bounds are decided on the index regions."""
from .alg import R, A, Rat, Poly, atom_desc, atom_id, subst_rat, deep_atoms
from .logic import lt, le, ge, gt, eq, And, Or, Not, fsubst, contradictory
from .cases import simplify, prove, prove_eq, sform, decide_any
from .mat import Contents
from .evalx import refute, refute_formula
from .vf import isP


class Rec:
    def __init__(self, f, view, facts, contents=None):
        """view: the matrix the field lives in; facts: preconditions"""
        self.f, self.v, self.facts = f, view, [x for x in facts if x is not True]
        self.c = contents or Contents(f)
        self.base = view.data[1]
        self.pieces = [p for p in self.c.pieces if p.ptr[1] == self.base]

    def at(self, n, m):
        return A('ld', self.base, self.v.idx(R(n), R(m)), 'double', None)

    def strip(self, r, bases=None):
        """forget memory versions of loads from the field(s)"""
        bases = bases or (self.base,)

        def fa(a):
            d = atom_desc(a)
            if d[0] == 'ld' and d[1] in bases and d[4] is not None:
                return A('ld', d[1], subst_rat(d[2], fa), d[3], None)
            return None
        prev = None
        while prev != r:
            prev, r = r, subst_rat(r, fa)
        return r

    def dom(self, p):
        return self.facts + [x for x in (sform(y, self.facts) for y in p.dom + [p.cond]) if x is not True]

    def loads(self, p):
        out = []
        if isinstance(p.val, Rat):
            for a in sorted(deep_atoms(p.val)):
                d = atom_desc(a)
                if d[0] == 'ld' and d[1] == self.base and d[3] == 'double':
                    out.append(d)
        return out

    # -- order of evaluation
    def fresh(self, p):
        return {a: A('sym', "%s'" % (atom_desc(a)[2],)) for a in p.vars}

    def before(self, q, env, p, fr):
        """formula: instance env of q executes before instance fr of p"""
        f = self.f
        k = 0
        while k < len(q.loops) and k < len(p.loops) and q.loops[k] == p.loops[k]:
            k += 1

        def key(x):
            if len(x.loops) > k:
                return (f.rpon[x.loops[k]], -1)
            return (f.rpon[x.ev.blk], x.ev.I.pos)
        tail = key(q) < key(p)
        out = tail
        for i in reversed(range(k)):
            a, b = env[q.vars[i]], fr[p.vars[i]]
            out = Or(lt(a, b), And(eq(a, b), out))
        return out

    def defined_before(self, p, n, m, fd):
        """formula: entry (n,m), given over p's variables renamed by fresh(p), has
        been written by an earlier instance; None when not understood"""
        fr = self.fresh(p)
        opts = []
        for q in self.pieces:
            hs = self.c.hits(q, self.v.idx(n, m), n, m, fd, self.v)
            if hs is None:
                continue
            for env, side in hs:
                fa = lambda a: env.get(a)
                d = And(side, *[fsubst(x, fa) for x in q.dom + [q.cond]])
                opts.append(And(d, self.before(q, env, p, fr)))
        return Or(*opts) if opts else False

    def written(self, n, m, facts):
        """formula: (n,m) is written at all"""
        opts = []
        und = False
        for q in self.pieces:
            hs = self.c.hits(q, self.v.idx(n, m), n, m, facts, self.v)
            if hs is None:
                und = True
                continue
            for env, side in hs:
                fa = lambda a: env.get(a)
                opts.append(And(side, *[fsubst(x, fa) for x in q.dom + [q.cond]]))
        return Or(*opts) if opts else False, und

    # -- obligations
    def check(self, ck, tag, spec, hook=None, extra_cases=None, ldspec=None):
        """spec(n, m) -> expression over entries; every write must satisfy it"""
        for p in self.pieces:
            loc = p.ev.loc
            fd = self.dom(p)
            if False in fd or contradictory(fd):
                continue
            d = self.c.decompose(p, self.v, self.facts)
            if d is None:
                self._undec_bounds(ck, tag, p, fd)
                ck.ok(tag + ': written entry identified', None, loc, 'offset %s' % p.off)
                continue
            n, m = d
            ck.ok(tag + ': writes stay inside the triangle', True, loc)
            if not isinstance(p.val, Rat):
                ck.ok(tag + ': value understood', None, loc)
                continue
            val = self.strip(p.val)
            sp = spec(n, m)
            for case in (extra_cases(n, m) if extra_cases else [[]]):
                fc = fd + [x for x in case if x is not True]
                if False in fc or contradictory(fc):
                    continue
                self.eq(ck, '%s: recurrence at the written entry' % tag, fc, val, sp, loc, hook)
            self.order(ck, tag, p, fd)

    def eq(self, ck, name, facts, a, b, loc, hook=None):
        from .report import opaque, _cut
        a, b = simplify(a, facts), simplify(b, facts)
        if prove_eq(facts, a, b) is True:
            return ck.ok(name, True, loc)
        if not opaque(a, b):
            w = refute(facts, a, b, hook=hook, hi=6, limit=150)
            if w is not None:
                return ck.ok(name, False, loc, 'found: %s | required: %s | %s' % (_cut(a, 300), _cut(b, 300), w))
        ck.ok(name, None, loc, 'found: %s | required: %s' % (_cut(a), _cut(b)))

    def _undec_bounds(self, ck, tag, p, fd):
        off, al = simplify(p.off, fd), self.v.num
        f = And(ge(off, 0), le(off + 8, al * 8))
        if prove(fd, f):
            return ck.ok(tag + ': writes stay inside the triangle', True, p.ev.loc)
        w = refute_formula(fd, f)
        if w:
            ck.ok(tag + ': writes stay inside the triangle', False, p.ev.loc, 'byte offset %s of %s elements %s' % (off, al, w))

    def order(self, ck, tag, p, fd, others=()):
        """every entry read has been computed before"""
        for d in self.loads(p):
            self.order_load(ck, tag, p, fd, d)

    def order_load(self, ck, tag, p, fd, d, allow=None):
        name = tag + ': every entry read was computed earlier'
        loc = p.ev.loc
        fr = self.fresh(p)
        fa = lambda a: fr.get(a)
        off = subst_rat(d[2], fa)
        fd2 = [fsubst(x, fa) for x in fd]
        from .mat import locate
        vs = list(fr.values())
        cands = vs + [x + k for x in vs for k in (1, 2, -1, -2)] + [x + y for i, x in enumerate(vs) for y in vs[:i]] + [x + y + k for i, x in enumerate(vs) for y in vs[:i] for k in (1, 2, -1)] + [R(k) for k in range(4)] + list(self.hints())
        rc = None
        # conditional read: only where the value actually uses it
        for n, m in locate(self.v, off, cands, fd2):
            if all(prove(fd2, g) for g in self.v.stored(n, m) if g is not True):
                rc = (n, m)
                break
        if rc is None:
            f = And(ge(off, 0), le(off + 8, self.v.num * 8))
            w = refute_formula(fd2, f)
            if w:
                return ck.ok(tag + ': reads stay inside the triangle', False, loc, 'byte offset %s of %s elements %s' % (off, self.v.num, w))
            return ck.ok(name, None, loc, 'entry read at %s not identified' % off)
        F = self.defined_before(p, rc[0], rc[1], fd2)
        if allow is not None:
            F = Or(F, allow(rc[0], rc[1]))
        F = sform(F, fd2)
        if F is True or prove(fd2, F):
            return ck.ok(name, True, loc)
        w = refute_formula(fd2, F)
        if w:
            return ck.ok(name, False, loc, 'entry (%s, %s) is read before it is computed %s' % (rc[0], rc[1], w))
        ck.ok(name, None, loc, 'entry (%s, %s)' % rc)

    def hints(self):
        return ()

    def cover(self, ck, tag, n, m, dom, loc):
        """every (n,m) of the region is written"""
        fd = self.facts + [x for x in dom if x is not True]
        F, und = self.written(n, m, fd)
        F = sform(F, fd)
        name = tag + ': every required entry is computed'
        if F is True or prove(fd, F):
            return ck.ok(name, True, loc)
        w = None if und else refute_formula(fd, F)
        if w:
            return ck.ok(name, False, loc, 'entry is never written: %s' % w)
        ck.ok(name, None, loc)
