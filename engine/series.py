"""Closed forms that are (nested) sums linear in the entries of given arrays:
flattened into terms with explicit index regions, then re-indexed to the
contribution of one symbolic array entry."""
from .alg import R, A, Rat, Poly, atom_desc, atom_id, subst_rat, deep_atoms
from .logic import And, Not, ge, lt, fsubst, contradictory
from .cases import simplify, sform, prove
from .mat import Piece

_n = [0]


class Term:
    """coefficient value `val` (loads removed) of load `ld` over vars/dom"""

    def __init__(self, vars, dom, val):
        self.vars, self.dom, self.val = vars, dom, val


class NotLinear(Exception):
    pass


def _has(r, bases, memo=None):
    for a in deep_atoms(r):
        d = atom_desc(a)
        if d[0] == 'ld' and d[1] in bases:
            return True
    return False


def flatten(r, bases, vars=(), dom=()):
    """terms whose values are free of sums over, and conditionals on, the arrays"""
    r = R(r)
    special = []
    for a in r.n.atoms() if hasattr(r.n, 'atoms') else r.atoms():
        d = atom_desc(a)
        if d[0] in ('sum', 'ite') and _has(Rat(Poly.atom(a)), bases):
            special.append(a)
        elif d[0] == 'ld' and d[1] in bases:
            pass
        elif _has(Rat(Poly.atom(a)), bases):
            raise NotLinear('array entry inside %s' % d[0])
    if _has(Rat(r.d), bases):
        raise NotLinear('array entry in a denominator')
    if not special:
        return [Term(list(vars), list(dom), r)]
    groups = {}
    for m, c in r.n.t.items():
        sp = [(a, e) for a, e in m if a in special]
        if len(sp) > 1 or (sp and sp[0][1] != 1):
            raise NotLinear('product of sums')
        key = sp[0][0] if sp else None
        rest = tuple(x for x in m if x[0] != key)
        groups.setdefault(key, {})[rest] = c
    out = []
    for key, t in groups.items():
        co = Rat(Poly(t)) / Rat(r.d)
        if key is None:
            out.append(Term(list(vars), list(dom), co))
            continue
        d = atom_desc(key)
        if d[0] == 'sum':
            _n[0] += 1
            v = A('sym', '_s%d' % _n[0])
            vid = next(iter(v.atoms()))
            bid = atom_id(d[1])
            body = subst_rat(d[3], lambda a: v if a == bid else None)
            dm = [ge(v, 0)] + [lt(v, R(u)) for u in d[2]]
            out += flatten(body * co, bases, list(vars) + [vid], list(dom) + dm)
        else:
            out += flatten(d[2] * co, bases, vars, list(dom) + [d[1]])
            out += flatten(d[3] * co, bases, vars, list(dom) + [Not(d[1])])
    return out


def split(t, bases):
    """{load desc or None: coefficient} of one flattened term"""
    out = {}
    for m, c in t.val.n.t.items():
        key = None
        rest = []
        for a, e in m:
            d = atom_desc(a)
            if d[0] == 'ld' and d[1] in bases:
                if key is not None or e != 1:
                    raise NotLinear('product of array entries')
                key = a
            else:
                rest.append((a, e))
        out.setdefault(key, {})[tuple(rest)] = c
    return {k: Rat(Poly(v)) / Rat(t.val.d) for k, v in out.items()}


class Series:
    def __init__(self, total, bases, contents, facts):
        self.c, self.facts = contents, facts
        self.rest = R(0)
        self.items = []           # (load desc, piece, coefficient)
        bases = tuple(bases)
        for t in flatten(total, bases):
            for a, co in split(t, bases).items():
                if a is None:
                    if t.vars and not co.is_zero():
                        raise NotLinear('term without array entry')
                    self.rest = self.rest + co if not t.dom else self.rest + co
                    continue
                d = atom_desc(a)
                p = Piece()
                p.vars, p.dom, p.cond, p.off, p.val, p.loops = t.vars, t.dom, True, d[2], co, []
                p.ptr = ('P', d[1], d[2])
                p.version = d[4]
                self.items.append((d, p, co))

    def contribution(self, base, view, r, c, facts):
        """coefficient of the entry (r,c) of the array: a Rat, or None"""
        tot = R(0)
        for d, p, co in self.items:
            if d[1] != base:
                continue
            hs = self.c.hits(p, view.idx(r, c), r, c, facts, view)
            if hs is None:
                fd = [sform(x, facts) for x in p.dom]
                if False in fd or contradictory(list(facts) + [x for x in fd if x is not True]):
                    continue
                return None
            for env, side in hs:
                fa = lambda a: env.get(a)
                g = And(side, *[sform(fsubst(x, fa), facts) for x in p.dom])
                g = sform(g, facts) if g not in (True, False) else g
                if g is False:
                    continue
                v = subst_rat(co, fa)
                if g is not True and not prove(facts, g):
                    if contradictory(list(facts) + [g]):
                        continue
                    from .vf import ite
                    v = ite(g, v, R(0))
                tot = tot + v
        return tot
