"""Piecewise equality of value-flow expressions under integer facts."""
from fractions import Fraction as Fr
from . import alg
from .alg import Rat, Poly, R, A, atom_desc, atom_id, subst_rat, deep_atoms
from .logic import (lt, le, gt, ge, eq, Not, And, Or, fsubst, entails, decide, contradictory, fstr, literals)
from .vf import ite, mm, mksum, isP, isF, subst_val


class Undecided(Exception):
    pass


def _cond_atoms(r):
    """atoms at polynomial level that carry a case distinction"""
    out = []
    for a in sorted(r.atoms()):
        d = atom_desc(a)
        if d[0] in ('ite', 'mm', 'sum'):
            out.append((a, d))
        elif d[0] == 'ld':
            out.append((a, d))
        elif d[0] in ('fn', 'sqrt'):
            out.append((a, d))
    return out


def simplify(r, facts, _depth=0):
    """resolve conditional atoms decided by facts"""
    changed = True
    rounds = 0
    while changed and rounds < 6:
        changed = False
        rounds += 1
        env = {}
        for a, d in _cond_atoms(r):
            v = _simp_atom(a, d, facts, _depth)
            if v is not None:
                env[a] = v
        if env:
            r2 = subst_top(r, env)
            if r2 != r:
                r = r2
                changed = True
    return r


def subst_top(r, env):
    f = lambda a: env.get(a)
    return subst_rat(r, f)


def _simp_atom(a, d, facts, depth):
    if depth > 6:
        return None
    k = d[0]
    if k == 'ite':
        c = d[1]
        v = decide_any(facts, c)
        if v is True:
            return d[2]
        if v is False:
            return d[3]
        return _simp_ite(d, facts, depth)
    if k == 'mm':
        x, y = d[2]
        x2, y2 = simplify(x, facts, depth + 1), simplify(y, facts, depth + 1)
        v = decide(facts, le(x2, y2))
        if v is True:
            return x2 if d[1] == 'min' else y2
        v = decide(facts, le(y2, x2))
        if v is True:
            return y2 if d[1] == 'min' else x2
        if x2 != x or y2 != y:
            return mm(d[1], x2, y2)
        return None
    if k == 'sum':
        bv = A(*d[1])
        ups = tuple(simplify(u, facts, depth + 1) for u in d[2])
        fs = list(facts) + [ge(bv, 0)] + [lt(bv, u) for u in ups]
        body = simplify(d[3], fs, depth + 1)
        # drop redundant upper bounds
        if len(ups) > 1:
            keep = list(ups)
            for u in list(keep):
                if len(keep) > 1 and any(o is not u and entails(facts, le(o, u)) for o in keep):
                    keep.remove(u)
            ups = tuple(keep)
        if any(entails(facts, le(u, 0)) for u in ups):
            return R(0)
        if len(ups) == 1:
            v = _split_min(bv, ups[0], body, facts)
            if v is not None:
                return v
        if body != d[3] or ups != d[2]:
            return mksum(d[1], ups, body)
        return None
    if k == 'ld':
        off = simplify(d[2], facts, depth + 1)
        base = _simp_base(d[1], facts, depth)
        if off != d[2] or base != d[1]:
            if base[0] == 'P':
                return A('ld', base[1], base[2] + off, d[3], d[4])
            return A('ld', base, off, d[3], d[4])
        return None
    if k == 'sqrt':
        p = simplify(Rat(d[1]), facts, depth + 1)
        if p != Rat(d[1]):
            return alg.rsqrt(p)
        return None
    if k == 'fn':
        na = tuple(simplify(x, facts, depth + 1) if isinstance(x, Rat) else x for x in d[2])
        if na != d[2]:
            return alg.fn(d[1], *na)
    return None


def _simp_ite(d, facts, depth):
    from .logic import fmap
    if not isinstance(d[2], Rat) or not isinstance(d[3], Rat):
        return None
    c = fmap(d[1], lambda r: simplify(r, facts, depth + 1))
    if c is True:
        return simplify(d[2], facts, depth + 1)
    if c is False:
        return simplify(d[3], facts, depth + 1)
    a = simplify(d[2], list(facts) + [c], depth + 1)
    b = simplify(d[3], list(facts) + [Not(c)], depth + 1)
    if a == b:
        return a
    # x == y ? f : g  where g restricted to x == y is f
    for cc, u, w in ((c, a, b), (Not(c), b, a)):
        if cc is not True and cc is not False and cc[0] == 'eq':
            e = _solve_eq(cc[1], {})
            if e and subst_top(w, {e[0]: e[1]}) == subst_top(u, {e[0]: e[1]}):
                return w
    if c != d[1] or a != d[2] or b != d[3]:
        return ite(c, a, b)
    return None


def _minsum(bv, body):
    """body == c*min(a, bv+b) + rest with a, b free of bv -> (atom, a, b)"""
    bid = next(iter(bv.atoms()))
    for a in body.atoms():
        d = atom_desc(a)
        if d[0] == 'mm' and d[1] == 'min':
            for x, y in (d[2], d[2][::-1]):
                if bid not in deep_atoms(x) and y.is_poly() and (y - bv).is_poly() and bid not in deep_atoms(y - bv):
                    return a, x, y - bv
    return None


def _split_min(bv, N, body, facts):
    q = _minsum(bv, body)
    if q is None:
        return None
    at, a, b = q
    K = a - b
    bid = next(iter(bv.atoms()))
    lo = subst_top(body, {at: bv + b})
    hi = subst_top(body, {at: a})
    dbv = atom_desc(bid)
    if entails(facts, le(N, K)):
        return mksum(dbv, (N,), lo)
    if entails(facts, le(K, 0)):
        return mksum(dbv, (N,), hi)
    # at bv == K both branches agree, so K == -1 is covered by the polynomial forms
    if entails(facts, ge(K, -1)) and entails(facts, le(K, N)):
        sh = subst_rat(hi, lambda t: bv + K if t == bid else None)
        return mksum(dbv, (K,), lo) + mksum(dbv, (N - K,), sh)
    return None


def _simp_base(b, facts, depth):
    if b[0] == 'pite':
        v = decide_any(facts, b[1])
        if v is True:
            return b[2]
        if v is False:
            return b[3]
    return b


def resolve_ptr(p, facts):
    while p[1][0] == 'pite':
        v = decide_s(facts, p[1][1])
        if v is None:
            return p
        q = p[1][2] if v else p[1][3]
        p = ('P', q[1], q[2] + p[2])
    return ('P', p[1], simplify(p[2], facts))


def sform(f, facts):
    """formula with its expressions simplified under facts"""
    if f is True or f is False:
        return f
    from .logic import fmap
    return fmap(f, lambda r: simplify(r, facts))


def decide_s(facts, c):
    v = decide_any(facts, c)
    if v is None:
        c2 = sform(c, facts)
        if c2 != c:
            v = decide_any(facts, c2)
    return v


def decide_any(facts, c):
    """decide a formula that may include opaque literals"""
    if c is True or c is False:
        return c
    for f in facts:
        if f == c:
            return True
        if f == Not(c):
            return False
    g = And(c, *[f for f in facts if _share(f, c)])
    k = c[0]
    if k == 'and':
        vs = [decide_any(facts, x) for x in c[1]]
        if any(v is False for v in vs):
            return False
        if all(v is True for v in vs):
            return True
    elif k == 'or':
        vs = [decide_any(facts, x) for x in c[1]]
        if any(v is True for v in vs):
            return True
        if all(v is False for v in vs):
            return False
    elif k == 'not':
        v = decide_any(facts, c[1])
        if v is not None:
            return not v
    elif k in ('flt', 'feq'):
        return None
    return decide(facts, c)


def _share(f, c):
    return False


def _pick_split(r, facts):
    for a, d in _cond_atoms(r):
        if d[0] == 'ite':
            for l in literals(d[1]):
                if decide_any(facts, l) is None:
                    return l
        if d[0] == 'mm':
            x, y = d[2]
            for z in (x, y):
                s = _pick_split(z, facts)
                if s is not None:
                    return s
            return le(x, y)
        if d[0] == 'sum' and len(d[2]) == 1:
            q = _minsum(A(*d[1]), d[3])
            if q is not None:
                K = q[1] - q[2]
                for l in (le(K, d[2][0]), ge(K, -1)):
                    if l not in (True, False) and decide_any(facts, l) is None:
                        return l
        if d[0] == 'ld':
            if d[1][0] == 'pite':
                for l in literals(d[1][1]):
                    if decide_any(facts, l) is None:
                        return l
            s = _pick_split(d[2], facts)
            if s is not None:
                return s
        if d[0] == 'sqrt':
            s = _pick_split(Rat(d[1]), facts)
            if s is not None:
                return s
        if d[0] == 'fn':
            for x in d[2]:
                if isinstance(x, Rat):
                    s = _pick_split(x, facts)
                    if s is not None:
                        return s
    return None


def _align_sums(r, facts):
    """Sum_{<N+d} - rewrite sums with equal bodies and counts differing by a
    constant to a common count"""
    sums = [(a, atom_desc(a)) for a in sorted(r.atoms()) if atom_desc(a)[0] == 'sum']
    env = {}
    for i, (a, d) in enumerate(sums):
        if len(d[2]) != 1:
            continue
        for (a2, d2) in sums[:i]:
            if a2 in env or len(d2[2]) != 1 or d2[3] != d[3] or d2[1] != d[1]:
                continue
            diff = d[2][0] - d2[2][0]
            if diff.is_const() and diff.cval().denominator == 1:
                n = int(diff.cval())
                bid = atom_id(d[1])
                if 0 < n <= 8 and entails(facts, ge(d2[2][0], 0)):
                    v = Rat(Poly.atom(a2))
                    for t in range(n):
                        cnt = d2[2][0] + t
                        v = v + subst_rat(d[3], lambda x: cnt if x == bid else None)
                    env[a] = v
                    break
                if -8 <= n < 0 and entails(facts, ge(d[2][0], 0)):
                    v = Rat(Poly.atom(a2))
                    for t in range(-n):
                        cnt = d[2][0] + t
                        v = v - subst_rat(d[3], lambda x: cnt if x == bid else None)
                    env[a] = v
                    break
    return subst_top(r, env) if env else r


def prove_eq(facts, a, b, depth=0, induct=True):
    """True if a == b for all values allowed by facts; False if some case
    is certainly different; None when undecided"""
    facts = [f for f in facts if f is not True]
    a = simplify(R(a), facts)
    b = simplify(R(b), facts)
    if a.eq(b):
        return True
    d = a - b
    d2 = simplify(_align_sums(d, facts), facts)
    if d2.eq(R(0)):
        return True
    # equality facts as substitutions
    env = eq_env(facts)
    if env:
        facts2 = [fsubst(f, lambda t: env.get(t)) for f in facts]
        facts2 = [f for f in facts2 if f is not True]
        if any(f is False for f in facts2):
            return True
        return prove_eq(facts2, subst_top(a, env), subst_top(b, env), depth + 1, induct)
    if depth < 10:
        s = _pick_split(a, facts) or _pick_split(b, facts)
        if s is not None and s is not True and s is not False:
            res = True
            for g in (s, Not(s)):
                if contradictory(facts + [g]):
                    continue
                v = prove_eq(facts + [g], a, b, depth + 1, induct)
                if v is False:
                    return False
                if v is None:
                    res = None
            return res
    if induct:
        v = _induct(facts, a, b, depth)
        if v:
            return True
    # certain difference: both sides free of undecided structure
    if not any(atom_desc(x)[0] in ('sum', 'ite', 'mm', 'rec', 'opq', 'half', 'fn', 'recv', 'kx') for x in deep_atoms(a) | deep_atoms(b)):
        return False
    return None


def eq_env(facts):
    """triangular substitution from the equality facts (fully reduced)"""
    env = {}
    for f in facts:
        if f is not True and f is not False and f[0] == 'eq':
            r = f[1]
            if env:
                r = subst_top(r, env)
            if r.is_const():
                continue
            e = _solve_eq(r, env)
            if e:
                for k in list(env):
                    env[k] = subst_top(env[k], {e[0]: e[1]})
                env[e[0]] = e[1]
    return env


def _solve_eq(r, env):
    if not r.is_poly():
        return None
    for m, c in r.n.t.items():
        if len(m) == 1 and m[0][1] == 1 and atom_desc(m[0][0])[0] in ('arg', 'iv', 'sym', 'ld', 'bv'):
            a = m[0][0]
            rest = Rat(r.n.add(Poly({m: c}), -1))
            if a not in deep_atoms(rest) and a not in env:
                return a, rest * Rat.c(Fr(-1) / c)
    return None


def _induct(facts, a, b, depth):
    """induction on a symbol that is the count of a sum"""
    d = a - b
    for x in sorted(d.atoms()):
        ds = atom_desc(x)
        if ds[0] != 'sum' or len(ds[2]) != 1:
            continue
        N = ds[2][0]
        if not N.is_poly():
            continue
        for m, c in N.n.t.items():
            if len(m) == 1 and m[0][1] == 1 and abs(c) == 1 and atom_desc(m[0][0])[0] in ('arg', 'sym', 'iv'):
                v = m[0][0]
                # base: v such that N == 0
                rest = Rat(N.n.add(Poly({m: c}), -1))
                if v in deep_atoms(rest) or c != 1:
                    continue
                base = -rest
                if not entails(facts, ge(N, 0)):
                    continue
                fb = [fsubst(f, lambda t: base if t == v else None) for f in facts]
                fb = [f for f in fb if f is not True]
                ok = any(f is False for f in fb) or prove_eq(fb, subst_top(a, {v: base}), subst_top(b, {v: base}), depth + 1, False)
                if not ok:
                    # base may violate other facts; require it only if feasible
                    continue
                vv = Rat(Poly.atom(v))
                fs = list(facts) + [ge(N, 0)]
                # facts that mention v weakened for the induction range: keep upper facts shifted
                a1 = subst_top(a, {v: vv + 1})
                b1 = subst_top(b, {v: vv + 1})
                fs1 = [f for f in (fsubst(f, lambda t: vv + 1 if t == v else None) for f in facts) if f is not True] + [ge(N, 0)]
                ok = prove_eq(fs1, a1 - a, b1 - b, depth + 1, False)
                # NB: property at v+1 follows from v when facts(v+1) hold; facts must be
                # downward closed from v+1 to v for the chain, i.e. facts(v+1)&N>=0 => facts(v)
                if ok and all(entails(fs1, f) for f in facts):
                    return True
    return False


def prove(facts, f):
    """entailment with expressions first simplified under facts"""
    g = simp_formula(f, facts)
    if g is True:
        return True
    if entails(facts, g):
        return True
    return False


def simp_formula(f, facts):
    from .logic import fmap
    if f is True or f is False:
        return f
    return fmap(f, lambda r: simplify(r, facts))
