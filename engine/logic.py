"""Conditions over integer polynomials and a Fourier-Motzkin decision procedure
(linear over monomials) used to reason about index regions."""
from fractions import Fraction as Fr
from math import gcd
from .alg import Rat, Poly, R, subst_rat, atom_desc, FMAP

# formulas: True | False | ('lt',Rat) | ('eq',Rat) | ('flt',Rat) | ('feq',Rat)
#           | ('b',desc) | ('not',f) | ('and',frozenset) | ('or',frozenset)


def _prim(p):
    """scale polynomial to primitive integer coefficients (positive factor)"""
    if not p.t:
        return p
    dl = 1
    for c in p.t.values():
        dl = dl * c.denominator // gcd(dl, c.denominator)
    g = 0
    for c in p.t.values():
        g = gcd(g, int(c * dl))
    return p.scale(Fr(dl, g))


def lt(a, b=0):
    """a < b over integers"""
    r = R(a) - R(b)
    if r.is_const():
        return r.cval() < 0
    if not r.is_poly():
        return ('b', ('rlt', r))
    # integer tightening: common factor of non-constant coefficients
    p = r.n
    dl = 1
    for c in p.t.values():
        dl = dl * c.denominator // gcd(dl, c.denominator)
    p = p.scale(Fr(dl))
    c0 = p.t.get((), Fr(0))
    g = 0
    for m, c in p.t.items():
        if m != ():
            g = gcd(g, int(c))
    if g > 1:
        # g*q + c0 < 0  <=>  q <= floor((-c0-1)/g)  <=> q - floor(..) - 1 < 0
        q = Poly({m: c / g for m, c in p.t.items() if m != ()})
        fl = (-int(c0) - 1) // g
        p = q.add(Poly.const(Fr(-fl - 1)))
    elif any(len(m) > 1 or (m and m[0][1] > 1) for m in p.t):
        q = Poly({m: c for m, c in p.t.items() if m != ()})
        if _even(q):
            fl = (-int(c0) - 1) // 2
            p = q.scale(Fr(1, 2)).add(Poly.const(Fr(-fl - 1)))
    return ('lt', Rat(p))


_EVEN = {}


def _even(p):
    """integer polynomial takes only even values"""
    k = tuple(sorted((m, int(c) % 2) for m, c in p.t.items()))
    if k in _EVEN:
        return _EVEN[k]
    odd = [m for m, c in k if c]
    ats = sorted({a for m in odd for a, _ in m})
    r = True
    if len(ats) > 5:
        r = False
    else:
        for bits in range(1 << len(ats)):
            on = {a for i, a in enumerate(ats) if bits >> i & 1}
            if sum(1 for m in odd if all(a in on for a, _ in m)) % 2:
                r = False
                break
    _EVEN[k] = r
    return r


def le(a, b=0):
    return lt(R(a) - R(b) - 1)


def gt(a, b=0):
    return lt(R(b) - R(a))


def ge(a, b=0):
    return le(R(b) - R(a))


def eq(a, b=0):
    r = R(a) - R(b)
    if r.is_const():
        return r.cval() == 0
    if not r.is_poly():
        return ('b', ('req', r))
    p = _prim(r.n)
    k = min(p.t)
    if p.t[k] < 0:
        p = p.scale(Fr(-1))
    return ('eq', Rat(p))


_NOT = {}


def Not(f):
    if f is True:
        return False
    if f is False:
        return True
    r = _NOT.get(f)
    if r is None:
        r = _NOT[f] = _Not(f)
    return r


def _Not(f):
    k = f[0]
    if k == 'not':
        return f[1]
    if k == 'lt':
        return lt(-f[1] - 1)
    if k == 'and':
        return Or(*[Not(x) for x in f[1]])
    if k == 'or':
        return And(*[Not(x) for x in f[1]])
    return ('not', f)


def And(*fs):
    s = set()
    for f in fs:
        if f is True:
            continue
        if f is False:
            return False
        if f[0] == 'and':
            s |= f[1]
        else:
            s.add(f)
    for f in s:
        if Not(f) in s:
            return False
    # absorption of or-members
    changed = True
    while changed:
        changed = False
        for f in list(s):
            if f[0] == 'or':
                mem = f[1]
                if any(x in s for x in mem):
                    s.discard(f)
                    changed = True
                    break
                red = [x for x in mem if Not(x) not in s]
                if len(red) != len(mem):
                    s.discard(f)
                    g = Or(*red)
                    if g is False:
                        return False
                    if g is not True:
                        if g[0] == 'and':
                            s |= g[1]
                        else:
                            s.add(g)
                    changed = True
                    break
    for f in s:
        if Not(f) in s:
            return False
    if not s:
        return True
    if len(s) == 1:
        return next(iter(s))
    return ('and', frozenset(s))


def Or(*fs):
    s = set()
    for f in fs:
        if f is False:
            continue
        if f is True:
            return True
        if f[0] == 'or':
            s |= f[1]
        else:
            s.add(f)
    for f in s:
        if Not(f) in s:
            return True
    # merge (A & c) | (A & !c) -> A ; A | (A & c) -> A ; c | (!c & A) -> c | A
    changed = True
    while changed:
        changed = False
        conj = [(f, (f[1] if f[0] == 'and' else frozenset([f]))) for f in s]
        for i in range(len(conj)):
            fi, ci = conj[i]
            for j in range(len(conj)):
                if i == j:
                    continue
                fj, cj = conj[j]
                if ci <= cj:
                    s.discard(fj)
                    changed = True
                    break
                # ci = A+{c}, cj contains A and !c
                for c in ci:
                    nc = Not(c)
                    if nc in cj and (ci - {c}) <= (cj - {nc}):
                        s.discard(fj)
                        g = And(*(cj - {nc}))
                        if g is True:
                            return True
                        s.add(g)
                        changed = True
                        break
                if changed:
                    break
            if changed:
                break
    for f in s:
        if Not(f) in s:
            return True
    if not s:
        return False
    if len(s) == 1:
        return next(iter(s))
    return ('or', frozenset(s))


def fmap(f, g):
    """apply g (Rat -> Rat) to every polynomial of a formula"""
    if f is True or f is False:
        return f
    k = f[0]
    if k == 'lt':
        r = g(f[1])
        return f if r is f[1] else lt(r)
    if k == 'eq':
        r = g(f[1])
        return f if r is f[1] else eq(r)
    if k in ('flt', 'feq'):
        r = g(f[1])
        if r.is_const():
            return (r.cval() < 0) if k == 'flt' else (r.cval() == 0)
        return (k, r)
    if k == 'not':
        return Not(fmap(f[1], g))
    if k == 'and':
        return And(*[fmap(x, g) for x in f[1]])
    if k == 'or':
        return Or(*[fmap(x, g) for x in f[1]])
    if k == 'b':
        from .alg import _map_any
        return ('b', _map_any(f[1], g))
    return f


def fsubst(f, fa, memo=None):
    """substitute atoms in a formula"""
    memo = {} if memo is None else memo
    return fmap(f, lambda r: subst_rat(r, fa, memo))


FMAP[0] = fmap


def literals(f, out=None):
    if out is None:
        out = set()
    if f is True or f is False:
        return out
    if f[0] in ('and', 'or'):
        for x in f[1]:
            literals(x, out)
    elif f[0] == 'not':
        literals(f[1], out)
    else:
        out.add(f)
    return out


# ------------------------------------------------------------ linear reasoning
# A constraint is a dict monomial->Fraction meaning  sum <= 0 ('le') or == 0.

def _lin(p):
    return dict(p.t)


def _norm_le(c):
    """integer tightening of sum<=0 with constant ()"""
    dl = 1
    for v in c.values():
        dl = dl * v.denominator // gcd(dl, v.denominator)
    g = 0
    for m, v in c.items():
        if m != ():
            g = gcd(g, int(v * dl))
    if g == 0:
        return c
    r = {m: v * dl / g for m, v in c.items() if m != ()}
    c0 = c.get((), Fr(0)) * dl / g
    # sum + c0 <= 0 with integer sum  ->  sum <= floor(-c0)
    fl = (-c0).__floor__()
    if fl != 0:
        r[()] = Fr(-fl)
    return r


class Budget(Exception):
    pass


def infeasible(les, eqs=()):
    """True if {p<=0 for les} & {p==0 for eqs} has no integer solution
    (sound: True only when certainly infeasible)."""
    L = [_norm_le(_lin(p)) for p in les]
    E = [_lin(p) for p in eqs]
    # eliminate equalities
    while E:
        e = E.pop()
        ms = [m for m in e if m != ()]
        if not ms:
            if e.get((), 0) != 0:
                return True
            continue
        # gcd test
        dl = 1
        for v in e.values():
            dl = dl * v.denominator // gcd(dl, v.denominator)
        g = 0
        for m in ms:
            g = gcd(g, int(e[m] * dl))
        c0 = e.get((), Fr(0)) * dl
        if g and (c0 / g).denominator != 1:
            return True
        m = min(ms, key=lambda x: (abs(e[x]) != 1, str(x)))
        a = e[m]
        sub = {k: -v / a for k, v in e.items() if k != m}

        def ap(c):
            if m not in c:
                return c
            f = c[m]
            r = {k: v for k, v in c.items() if k != m}
            for k, v in sub.items():
                x = r.get(k, Fr(0)) + f * v
                if x == 0:
                    r.pop(k, None)
                else:
                    r[k] = x
            return r
        E = [ap(c) for c in E]
        L = [_norm_le(ap(c)) for c in L]
    cons = set()
    for c in L:
        cons.add(frozenset(c.items()))
    budget = 4000
    while True:
        cur = []
        best = {}
        for fc in cons:
            c = dict(fc)
            ms = [m for m in c if m != ()]
            if not ms:
                if c.get((), Fr(0)) > 0:
                    return True
                continue
            key = frozenset((m, v) for m, v in c.items() if m != ())
            c0 = c.get((), Fr(0))
            if key not in best or best[key] < c0:
                best[key] = c0
        cur = [dict(k, **{}) for k in []]
        for k, c0 in best.items():
            d = dict(k)
            if c0 != 0:
                d[()] = c0
            cur.append(d)
        if not cur:
            return False
        # quick contradictions
        for k, c0 in best.items():
            nk = frozenset((m, -v) for m, v in k)
            if nk in best and c0 + best[nk] > 0:
                return True
        vars_ = {}
        for c in cur:
            for m, v in c.items():
                if m != ():
                    lo, up = vars_.get(m, (0, 0))
                    vars_[m] = (lo + (v < 0), up + (v > 0))
        m = min(vars_, key=lambda x: (vars_[x][0] * vars_[x][1] - vars_[x][0] - vars_[x][1], str(x)))
        pos = [c for c in cur if c.get(m, 0) > 0]
        neg = [c for c in cur if c.get(m, 0) < 0]
        rest = [c for c in cur if m not in c]
        new = set(frozenset(c.items()) for c in rest)
        for a in pos:
            for b in neg:
                fa, fb = -b[m], a[m]
                r = {}
                for k, v in a.items():
                    if k != m:
                        r[k] = r.get(k, Fr(0)) + fa * v
                for k, v in b.items():
                    if k != m:
                        r[k] = r.get(k, Fr(0)) + fb * v
                r = {k: v for k, v in r.items() if v != 0}
                new.add(frozenset(_norm_le(r).items()))
                budget -= 1
                if budget < 0:
                    return False
        cons = new


def _collect(f, les, eqs, ors):
    """put formula into constraint lists; returns False if trivially false"""
    if f is True:
        return True
    if f is False:
        return False
    k = f[0]
    if k == 'lt':
        les.append((f[1] + 1).n)
    elif k == 'eq':
        eqs.append(f[1].n)
    elif k == 'not' and f[1][0] == 'eq':
        p = f[1][1]
        ors.append([lt(p), lt(-p)])
    elif k == 'and':
        for x in f[1]:
            if not _collect(x, les, eqs, ors):
                return False
    elif k == 'or':
        ors.append(list(f[1]))
    return True


def _expand_minmax(fs):
    """min/max atoms occurring in constraints: add their defining bounds"""
    from .alg import Poly as P
    extra = []
    seen = set()
    work = list(fs)
    while work:
        f = work.pop()
        for l in literals(f):
            if l[0] in ('lt', 'eq'):
                for a in l[1].atoms():
                    d = atom_desc(a)
                    if a in seen:
                        continue
                    if d[0] == 'mm':
                        seen.add(a)
                        x = Rat(P.atom(a))
                        u, v = d[2]
                        if d[1] == 'min':
                            g = And(le(x, u), le(x, v), Or(eq(x, u), eq(x, v)))
                        else:
                            g = And(ge(x, u), ge(x, v), Or(eq(x, u), eq(x, v)))
                        extra.append(g)
                        work.append(g)
                    elif d[0] == 'ite' and isinstance(d[2], Rat):
                        seen.add(a)
                        x = Rat(P.atom(a))
                        g = Or(And(d[1], eq(x, d[2])), And(Not(d[1]), eq(x, d[3])))
                        extra.append(g)
                        work.append(g)
                    elif d[0] == 'half':
                        seen.add(a)
                        x = Rat(P.atom(a))
                        extra.append(And(le(x * 2, d[1]), ge(x * 2 + 1, d[1])))
                    elif d[0] == 'sum':
                        pass
    return extra


def contradictory(fs, depth=0):
    """True if the conjunction of formulas fs is certainly unsatisfiable over
    the integers."""
    f = And(*fs)
    if f is False:
        return True
    if f is True:
        return False
    if depth == 0:
        r = _CMEMO.get(f)
        if r is None:
            if len(_CMEMO) > 50000:
                _CMEMO.clear()
            r = _CMEMO[f] = _contradictory(f, 0)
        return r
    return _contradictory(f, depth)


_CMEMO = {}


def _contradictory(f, depth):
    if depth == 0:
        top = f[1] if f[0] == 'and' else [f]
        if any(x[0] == 'eq' for x in top):
            from .cases import eq_env
            env = eq_env(sorted((x for x in top if x[0] == 'eq'), key=lambda x: str(x[1])))
            if env:
                f = And(*[fsubst(x, lambda t: env.get(t)) for x in top])
                if f is False:
                    return True
                if f is True:
                    return False
        ex = _expand_minmax([f])
        if ex:
            f = And(f, *ex)
            if f is False:
                return True
    les, eqs, ors = [], [], []
    if not _collect(f, les, eqs, ors):
        return True
    if infeasible(les, eqs):
        return True
    if ors and depth < 40:
        rest = list(f[1]) if f[0] == 'and' else [f]
        cand = []
        for x in rest:
            if x[0] == 'or':
                cand.append((x, sorted(x[1], key=str)))
            elif x[0] == 'not' and x[1][0] == 'eq':
                cand.append((x, [lt(x[1][1]), lt(-x[1][1])]))
        if not cand:
            return False
        cand.sort(key=lambda c: (len(c[1]), str(c[0])))
        if len(cand) > 2:
            # drop the alternatives that are infeasible at once; branch on the
            # disjunction with the fewest left
            pruned = []
            for x, ds in cand:
                live = []
                for d in ds:
                    l2, e2 = list(les), list(eqs)
                    if not _collect(d, l2, e2, []) or infeasible(l2, e2):
                        continue
                    live.append(d)
                if not live:
                    return True
                pruned.append((x, live))
                if len(live) == 1:
                    break
            pruned.sort(key=lambda c: len(c[1]))
            target, o = pruned[0]
        else:
            target, o = cand[0]
        others = [x for x in rest if x is not target]
        _NODES[0] += len(o)
        if depth == 0:
            _NODES[0] = 0
        if _NODES[0] > 4000:
            return False
        return all(contradictory(others + [d], depth + 1) for d in o)
    return False


_NODES = [0]


def entails(fs, g):
    """facts fs imply g?"""
    return contradictory(list(fs) + [Not(g)])


def decide(fs, g):
    """True/False/None"""
    if g is True or g is False:
        return g
    if entails(fs, g):
        return True
    if contradictory(list(fs) + [g]):
        return False
    return None


def fstr(f):
    if f is True or f is False:
        return str(f)
    k = f[0]
    if k == 'lt':
        return '%s < 0' % f[1]
    if k == 'eq':
        return '%s == 0' % f[1]
    if k == 'flt':
        return '%s < 0.' % f[1]
    if k == 'feq':
        return '%s == 0.' % f[1]
    if k == 'not':
        return '!(%s)' % fstr(f[1])
    if k == 'and':
        return ' && '.join(sorted(fstr(x) for x in f[1]))
    if k == 'or':
        return '(' + ' || '.join(sorted(fstr(x) for x in f[1])) + ')'
    from .alg import desc_str
    return desc_str(f[1])
