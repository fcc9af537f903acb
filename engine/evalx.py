"""Refutation of an equation between extracted formulas: look for an integer
assignment satisfying the facts at which the two closed forms differ.  (Works on
the extracted formulas only; nothing of the analysed program is run.)"""
import itertools
import math
import random
import zlib
from .alg import Rat, Poly, R, atom_desc, deep_atoms
from .logic import fstr


class NoVal(Exception):
    pass


def _h(key):
    x = zlib.crc32(repr(key).encode())
    return 0.35 + (x % 100003) / 100003.0 * 1.7


class Ev:
    def __init__(self, env, hook=None):
        self.env = env
        self.hook = hook

    def rat(self, r):
        n = self.poly(r.n)
        d = self.poly(r.d)
        if d == 0:
            raise NoVal('div0')
        return n / d if d != 1 else n

    def poly(self, p):
        s = 0
        for m, c in p.t.items():
            t = c if not hasattr(c, 'denominator') or c.denominator != 1 else int(c)
            if not isinstance(t, int):
                t = float(t)
            for a, e in m:
                v = self.atom(a)
                t = t * (v ** e)
            s += t
        return s

    def any(self, x):
        if isinstance(x, Rat):
            return round(float(self.rat(x)), 9)
        if isinstance(x, Poly):
            return round(float(self.poly(x)), 9)
        if isinstance(x, frozenset):
            return tuple(sorted(repr(self.any(y)) for y in x))
        if isinstance(x, tuple):
            return tuple(self.any(y) for y in x)
        return x

    def atom(self, a):
        if a in self.env:
            return self.env[a]
        d = atom_desc(a)
        k = d[0]
        if k == 'ite':
            return self.rat(d[2]) if self.f(d[1]) else self.rat(d[3])
        if k == 'mm':
            v = [self.rat(x) for x in d[2]]
            return min(v) if d[1] == 'min' else max(v)
        if k == 'half':
            return int(self.rat(d[1]) // 2)
        if k == 'sum':
            from .alg import atom_id
            n = min(int(self.rat(u)) for u in d[2])
            if n > 200:
                raise NoVal('big')
            bid = atom_id(d[1])
            old = self.env.get(bid)
            s = 0
            for i in range(max(0, n)):
                self.env[bid] = i
                s += self.rat(d[3])
            if old is None:
                self.env.pop(bid, None)
            else:
                self.env[bid] = old
            return s
        if k == 'rec':
            from .alg import atom_id
            n = int(self.rat(d[2]))
            if n > 200 or n < 0:
                raise NoVal('big')
            raise NoVal('rec')
        if k == 'sqrt':
            v = self.poly(d[1])
            return math.sqrt(abs(v))
        if k == 'fn':
            return self.fn(d)
        if k == 'ld':
            if self.hook is not None:
                v = self.hook(self, d)
                if v is not None:
                    return v
            return _h(('ld', self.any(d[1]), self.any(d[2]), d[4] if not isinstance(d[4], tuple) else 'v'))
        return _h(self.any(d))

    def fn(self, d):
        nm = d[1]
        try:
            a = [self.rat(x) for x in d[2]]
        except NoVal:
            raise
        except Exception:
            return _h(self.any(d))
        try:
            if nm in ('sin', 'cos', 'exp', 'log', 'atan', 'floor', 'ceil', 'asin', 'acos', 'log10', 'sqrt'):
                return getattr(math, nm)(a[0])
            if nm == 'vfn_anp':
                return math.fmod(math.fmod(a[0], 2 * math.pi) + 2 * math.pi, 2 * math.pi)
            if nm == 'fabs':
                return abs(a[0])
            if nm == 'atan2':
                return math.atan2(a[0], a[1])
            if nm == 'pow':
                return a[0] ** a[1]
            if nm == 'fmod':
                return math.fmod(a[0], a[1])
            if nm == 'toint':
                return int(a[0])
            if nm == 'mod':
                return int(math.fmod(a[0], a[1]))
            if nm == 'idiv':
                q = a[0] / a[1]
                return int(q)
            if nm == 'ceildiv':
                return -(-int(a[0]) // int(a[1]))
            if nm in ('isdiv', 'iudiv', 'isrem', 'iurem'):
                q = abs(int(a[0])) // abs(int(a[1]))
                q = -q if (a[0] < 0) != (a[1] < 0) else q
                return q if nm.endswith('div') else int(a[0]) - q * int(a[1])
            if nm in ('iand', 'ior', 'ixor') and min(a) >= 0:
                x, y = int(a[0]), int(a[1])
                return x & y if nm == 'iand' else x | y if nm == 'ior' else x ^ y
            if nm in ('ilshr', 'iashr') and min(a) >= 0:
                return int(a[0]) >> int(a[1])
            if nm == 'ishl' and min(a) >= 0:
                return int(a[0]) << int(a[1])
        except (ValueError, ZeroDivisionError, OverflowError):
            raise NoVal('domain')
        return _h((nm, tuple(round(float(x), 9) for x in a)))

    def f(self, f):
        if f is True or f is False:
            return f
        k = f[0]
        if k == 'lt':
            return self.rat(f[1]) < 0
        if k == 'eq':
            return abs(self.rat(f[1])) < 1e-9
        if k == 'flt':
            return self.rat(f[1]) < 0
        if k == 'feq':
            return abs(self.rat(f[1])) < 1e-12
        if k == 'not':
            return not self.f(f[1])
        if k == 'and':
            return all(self.f(x) for x in f[1])
        if k == 'or':
            return any(self.f(x) for x in f[1])
        if ('b', f[1]) in self.env:
            return self.env['b', f[1]]
        return zlib.crc32(repr(self.any(f[1])).encode()) % 2 == 0


def int_atoms(*xs):
    """integer-valued free symbols: those occurring in integer conditions,
    sum bounds, load offsets, plus i32/i64 loads"""
    out = set()
    ints = set()

    def add(r):
        for a in deep_atoms(r):
            d = atom_desc(a)
            if d[0] in ('arg', 'iv', 'sym') or (d[0] == 'ld' and d[3] in ('i32', 'i64', 'i16', 'i8', 'i1')):
                ints.add(a)

    def walk(x, isint):
        if isinstance(x, Rat):
            if isint:
                add(x)
            for a in x.atoms():
                d = atom_desc(a)
                if d[0] == 'iv' or (d[0] == 'ld' and d[3] in ('i32', 'i64', 'i16', 'i8', 'i1')):
                    ints.add(a)
                if d[0] == 'sum':
                    for u in d[2]:
                        walk(u, True)
                    walk(d[3], False)
                elif d[0] == 'ite':
                    walk(d[1], False)
                    walk(d[2], isint)
                    walk(d[3], isint)
                elif d[0] == 'mm':
                    walk(d[2][0], isint)
                    walk(d[2][1], isint)
                elif d[0] == 'ld':
                    walk(d[2], True)
                    walk(d[1], True)
                elif d[0] == 'sqrt':
                    walk(Rat(d[1]), False)
                elif d[0] == 'half':
                    walk(d[1], True)
                else:
                    walk(d[1:], False)
        elif isinstance(x, Poly):
            walk(Rat(x), isint)
        elif isinstance(x, frozenset):
            for y in x:
                walk(y, isint)
        elif isinstance(x, tuple):
            if x and x[0] in ('lt', 'eq') and len(x) == 2 and isinstance(x[1], Rat):
                walk(x[1], True)
            else:
                for y in x:
                    walk(y, isint)
    for x in xs:
        walk(x, False)
    # remove loads nested only as bases of others is fine
    return ints


def _fact_atoms(f, ia):
    return int_atoms(f) & ia


def models(facts, ia, extra_ok=lambda env: True, lo=0, hi=7, nodes=30000, limit=400, fl=()):
    """integer assignments of atoms `ia` satisfying facts (bounded search,
    pruned as soon as a fact is fully assigned)"""
    ia = list(ia)
    iset = set(ia)
    facts = _flatten(facts)
    fa = []
    from .alg import deep_atoms as da
    for f in facts:
        s = set()
        _all_atoms(f, s)
        fa.append((f, s & iset))
    # equalities linear in one atom: solved rather than enumerated
    solved = {}
    for f in facts:
        if f is not True and f is not False and f[0] == 'eq' and f[1].is_poly():
            for m, c in sorted(f[1].n.t.items(), key=lambda kv: -(max([a for a, _ in kv[0]] or [0]))):
                if len(m) == 1 and m[0][1] == 1 and abs(c) == 1 and m[0][0] in iset and m[0][0] not in solved:
                    x = m[0][0]
                    rest = Rat(f[1].n.add(Poly({m: c}), -1)) * R(-1 / c)
                    s = set()
                    _all_atoms(rest, s)
                    if x in s or any(x in dd[1] for dd in solved.values()) or (s & set(solved)):
                        continue
                    solved[x] = (rest, s & iset)
                    break
    # order: most constrained first (facts with few atoms)
    free = [x for x in ia if x not in solved]
    order = []
    rem = list(free)
    while rem:
        best = None
        for x in rem:
            sc = sum(1 for f, s in fa if x in s and s <= set(order) | set(solved) | {x})
            if best is None or sc > best[0]:
                best = (sc, x)
        order.append(best[1])
        rem.remove(best[1])
    done_at = [[] for _ in range(len(order) + 1)]
    avail = set()
    placed = set()
    sol_at = [[] for _ in range(len(order) + 1)]
    for i in range(len(order) + 1):
        if i > 0:
            avail.add(order[i - 1])
        for x, (r, s) in solved.items():
            if x not in avail and s <= avail and x not in placed:
                placed.add(x)
                sol_at[i].append((x, r))
        avail |= placed
        for k, (f, s) in enumerate(fa):
            if k not in [q for l in done_at for q in l] and s <= avail:
                done_at[i].append(k)
    rnd = random.Random(987)
    cnt = [0]
    LB = _bounds([f for f, _ in fa])
    # facts linear in the variable placed at step i, all else known: value bounds
    lin = [[] for _ in range(len(order) + 1)]
    for i in range(1, len(order) + 1):
        x = order[i - 1]
        later = {y for y, _ in sol_at[i]}
        for k in done_at[i]:
            f, s = fa[k]
            if x in s and not (s & later) and f is not True and f is not False and f[0] == 'lt' and f[1].is_poly():
                ok = True
                for m, _ in f[1].n.t.items():
                    for a_, e_ in m:
                        if a_ == x:
                            ok = ok and e_ == 1
                        elif x in deep_atoms(Rat(Poly.atom(a_))):
                            ok = False
                if ok:
                    lin[i].append(f[1])

    def check(i, env):
        ev = Ev(env)
        for x, r in sol_at[i]:
            v = ev.rat(r)
            if v != int(v) or v < -50 or v > 5000:
                return False
            env[x] = int(v)
        for k in done_at[i]:
            if not ev.f(fa[k][0]):
                return False
        return True

    def rec(i, env):
        if cnt[0] > nodes:
            return
        try:
            if not check(i, env):
                return
        except (NoVal, OverflowError, ZeroDivisionError):
            return
        if i == len(order):
            yield dict(env)
            return
        lo_, hi_ = max(lo, LB.get(order[i], lo)), hi
        U = None
        if lin[i + 1]:
            e0, e1 = dict(env), dict(env)
            e0[order[i]] = 0
            e1[order[i]] = 1
            for q in lin[i + 1]:
                try:
                    b0 = Ev(e0).rat(q)
                    a0 = Ev(e1).rat(q) - b0
                except (NoVal, OverflowError, ZeroDivisionError):
                    continue
                if a0 > 0:
                    u = math.ceil(-b0 / a0) - 1
                    U = u if U is None else min(U, u)
                elif a0 < 0:
                    lo_ = max(lo_, math.floor(b0 / -a0) + 1)
                elif b0 >= 0:
                    return
        if lo_ > lo:
            hi_ = max(hi, lo_ + 3) if lo_ <= hi else lo_ + 3
        if U is not None:
            if U < lo_ and LB.get(order[i], U - 3) <= U:
                lo_ = U - 3          # the facts ask for a value below the usual range
            hi_ = min(hi_, U)
        vals = list(range(lo_, hi_ + 1))
        rnd.shuffle(vals)
        for v in vals:
            cnt[0] += 1
            env[order[i]] = v
            snap = dict(env)
            yield from rec(i + 1, env)
            env.clear()
            env.update(snap)
        env.pop(order[i], None)
    env = {}
    for f in facts:
        if f is True or f is False:
            continue
        if f[0] == 'b':
            env['b', f[1]] = True
        elif f[0] == 'not' and f[1][0] == 'b':
            env['b', f[1][1]] = False
    for j, x in enumerate(fl):
        env[x] = _h(('fl', x))
    n = 0
    # random restarts first (a plain depth-first walk only varies the last symbols)
    if len(order) > 2 and limit > 4:
        for k in range(120):
            cnt[0] = nodes - 400
            rnd.seed(k)
            for j, e in enumerate(rec(0, dict(env))):
                yield e
                n += 1
                if j >= 2:
                    break
            if n >= limit:
                return
    cnt[0] = 0
    rnd.seed(987)
    for e in rec(0, env):
        yield e
        n += 1
        if n >= limit:
            return


def _flatten(fs):
    out = []
    for f in fs:
        if f is True:
            continue
        out += _flatten(sorted(f[1], key=repr)) if f is not False and f[0] == 'and' else [f]
    return out


def _bounds(fs):
    """constant lower bounds implied by chains of linear facts"""
    L, U, cs = {}, {}, []
    for f in fs:
        if f is True or f is False or f[0] not in ('lt', 'eq') or not f[1].is_poly():
            continue
        co, c0, ok = {}, 0, True
        for m, c in f[1].n.t.items():
            if not m:
                c0 = c
            elif len(m) == 1 and m[0][1] == 1 and atom_desc(m[0][0])[0] in ('arg', 'sym', 'iv', 'ld'):
                co[m[0][0]] = c
            else:
                ok = False
        if ok and co and f[0] == 'lt':
            cs.append((co, c0))
        elif ok and co:
            cs.append((co, c0 - 1))
            cs.append(({x: -c for x, c in co.items()}, -c0 - 1))
    for _ in range(12):
        ch = False
        for co, c0 in cs:
            for x, c in co.items():
                # c*x + rest < 0
                t = c0
                for y, d in co.items():
                    if y == x:
                        continue
                    b = L.get(y) if d > 0 else U.get(y)
                    if b is None:
                        t = None
                        break
                    t += d * b
                if t is None:
                    continue
                if c > 0:
                    u = math.ceil(-t / c) - 1
                    if x not in U or u < U[x]:
                        U[x] = u
                        ch = True
                else:
                    l = math.floor(t / -c) + 1
                    if x not in L or l > L[x]:
                        L[x] = l
                        ch = True
        if not ch:
            break
    return L


def _all_atoms(x, out):
    if isinstance(x, Rat):
        out |= deep_atoms(x)
    elif isinstance(x, Poly):
        out |= deep_atoms(Rat(x))
    elif isinstance(x, (tuple, frozenset, list)):
        for y in x:
            _all_atoms(y, out)


def refute(facts, a, b, tries=4000, lo=0, hi=7, intsyms=(), tol=1e-7, hook=None, limit=400):
    """witness text or None"""
    facts = [f for f in facts if f is not True]
    ia = int_atoms(tuple(facts), a, b) | set(intsyms)
    fl = set()
    for x in deep_atoms(a) | deep_atoms(b):
        d = atom_desc(x)
        if d[0] in ('arg', 'sym') and x not in ia:
            fl.add(x)
    s = set()
    _all_atoms(tuple(facts), s)
    for x in s:
        d = atom_desc(x)
        if d[0] in ('arg', 'sym') and x not in ia:
            fl.add(x)
    w = _differ(models(facts, sorted(ia), lo=lo, hi=hi, fl=sorted(fl), limit=limit), ia, a, b, tol, hook)
    if w is None:
        # steer into the regions the two expressions distinguish
        from .logic import contradictory
        n = 0
        for l in _case_literals((a, b)):
            la = set()
            _all_atoms(l, la)
            if not la & ia or int_atoms(l) - ia:
                continue
            for g in (l, _not(l)):
                if contradictory(facts + [g]):
                    continue
                n += 1
                if n > 16:
                    return None
                w = _differ(models(facts + [g], sorted(ia), lo=lo, hi=hi, fl=sorted(fl), limit=24, nodes=6000), ia, a, b, tol, hook)
                if w is not None:
                    return w
        # steer into the cases of the difference
        from .logic import Not, eq
        for conds, v in _pieces(R(a) - R(b))[:16]:
            if v.is_zero() or contradictory(facts + conds):
                continue
            g = conds + ([Not(eq(v, 0))] if v.atoms() and v.atoms() <= ia else [])
            w = _differ(models(facts + g, sorted(ia), lo=lo, hi=hi, fl=sorted(fl), limit=24, nodes=12000), ia, a, b, tol, hook)
            if w is not None:
                return w
    return w


def _pieces(v, depth=0):
    """[(conditions, value)] of an expression with case distinctions"""
    from .alg import subst_rat
    from .logic import Not
    if depth < 5:
        for a in sorted(v.atoms()):
            d = atom_desc(a)
            if d[0] == 'ite' and d[1] is not True and d[1] is not False:
                out = []
                for c, x in ((d[1], d[2]), (Not(d[1]), d[3])):
                    if not isinstance(x, Rat):
                        return [([], v)]
                    # the same condition elsewhere in the expression
                    def f(t, c=c, a=a, x=x):
                        if t == a:
                            return x
                        e = atom_desc(t)
                        if e[0] == 'ite' and e[1] == d[1]:
                            return e[2] if c == d[1] else e[3]
                        return None
                    out += [([c] + cs, y) for cs, y in _pieces(R(subst_rat(v, f)), depth + 1)]
                return out
    return [([], v)]


def _differ(envs, ia, a, b, tol, hook):
    for env in envs:
        ev = Ev(env, hook)
        try:
            va, vb = ev.rat(a), ev.rat(b)
        except (NoVal, OverflowError, ZeroDivisionError):
            continue
        if isinstance(va, complex) or isinstance(vb, complex):
            continue
        if abs(va - vb) > tol * max(1e-30, abs(va), abs(vb)):
            w = {str(Rat(Poly.atom(x))): env[x] for x in sorted(ia) if x in env}
            return 'at %s: %s vs %s' % (', '.join('%s=%s' % kv for kv in list(w.items())[:8]), _s(va), _s(vb))
    return None


def _case_literals(x, out=None, depth=0):
    """conditions of the case distinctions in an expression"""
    out = [] if out is None else out
    if depth > 40 or len(out) > 12:
        return out
    if isinstance(x, Rat):
        for a in x.atoms():
            d = atom_desc(a)
            if d[0] == 'ite':
                c = d[1]
                for l in (c,) + (tuple(c[1]) if c is not True and c is not False and c[0] in ('and', 'or') else ()):
                    if l is not True and l is not False and l[0] in ('lt', 'eq', 'and', 'or') and l not in out:
                        out.append(l)
                _case_literals((d[2], d[3]), out, depth + 1)
            elif d[0] in ('sqrt', 'half', 'mm', 'fn'):
                _case_literals(d[1:], out, depth + 1)
    elif isinstance(x, Poly):
        _case_literals(Rat(x), out, depth + 1)
    elif isinstance(x, (tuple, list)):
        for y in x:
            _case_literals(y, out, depth + 1)
    return out


def _s(v):
    return '%.12g' % float(v)


def refute_formula(facts, f, tries=4000, lo=0, hi=7):
    """assignment satisfying facts but not f"""
    facts = [x for x in facts if x is not True]
    ia = sorted(int_atoms(tuple(facts), f))
    s = set()
    _all_atoms((tuple(facts), f), s)
    fl = [x for x in s if atom_desc(x)[0] in ('arg', 'sym') and x not in ia]
    for env in models(facts + [_not(f)], ia, lo=lo, hi=hi, limit=1, fl=sorted(fl)):
        ev = Ev(env)
        try:
            if all(ev.f(x) for x in facts) and not ev.f(f):
                return 'at ' + ', '.join('%s=%s' % (Rat(Poly.atom(x)), env[x]) for x in ia[:8] if x in env)
        except (NoVal, OverflowError, ZeroDivisionError):
            continue
    return None


def _not(f):
    from .logic import Not
    return Not(f)
