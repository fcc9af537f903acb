"""Exact algebra on interned atoms: multivariate polynomials (Poly) over Q and
rational functions (Rat), with square-root reduction.  Expressions are compared
as mathematical functions of their atoms, so operand order, associativity,
helper extraction and hoisting do not matter."""
from fractions import Fraction as Fr
import math
import sys
sys.setrecursionlimit(20000)

RTOL = 1e-11
_atoms = []          # id -> descriptor tuple
_ids = {}            # descriptor -> id


def atom_id(desc):
    i = _ids.get(desc)
    if i is None:
        i = len(_atoms)
        _atoms.append(desc)
        _ids[desc] = i
    return i


def atom_desc(i):
    return _atoms[i]


def _cfix(c):
    return c


def feq(a, b):
    if a == b:
        return True
    a = float(a)
    b = float(b)
    return abs(a - b) <= RTOL * max(abs(a), abs(b))


class Poly:
    __slots__ = ('t', '_h')

    def __init__(self, t):
        self.t = t
        self._h = None

    @staticmethod
    def const(c):
        return Poly({(): c}) if c != 0 else Poly({})

    @staticmethod
    def atom(i):
        return Poly({((i, 1),): Fr(1)})

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return self.t == o.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        return self.t.get((), Fr(0))

    def is_zero(self):
        return not self.t

    def add(self, o, s=1):
        if not o.t:
            return self
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m, 0) + (c if s == 1 else s * c)
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
        return Poly(r)

    def scale(self, c):
        if c == 0:
            return Poly({})
        if c == 1:
            return self
        return Poly({m: v * c for m, v in self.t.items()})

    def mul(self, o):
        if not self.t or not o.t:
            return Poly({})
        if len(o.t) == 1 and () in o.t:
            return self.scale(o.t[()])
        if len(self.t) == 1 and () in self.t:
            return o.scale(self.t[()])
        r = {}
        red = False
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = _mmul(m1, m2)
                for a, e in m:
                    if e > 1 and _atoms[a][0] == 'sqrt':
                        red = True
                v = r.get(m, 0) + c1 * c2
                if v == 0:
                    r.pop(m, None)
                else:
                    r[m] = v
        p = Poly(r)
        return _reduce_sqrt(p) if red else p

    def pow(self, n):
        r = Poly.const(Fr(1))
        b = self
        while n:
            if n & 1:
                r = r.mul(b)
            n >>= 1
            if n:
                b = b.mul(b)
        return r

    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m:
                s.add(a)
        return s

    def degree(self, a):
        d = 0
        for m in self.t:
            for b, e in m:
                if b == a:
                    d = max(d, e)
        return d

    def coeffs(self, a):
        """dict exp -> Poly of coefficients of atom a"""
        r = {}
        for m, c in self.t.items():
            e = 0
            rest = []
            for b, x in m:
                if b == a:
                    e = x
                else:
                    rest.append((b, x))
            r.setdefault(e, {})[tuple(rest)] = c
        return {e: Poly(t) for e, t in r.items()}

    def approx(self, o):
        if self.t == o.t:
            return True
        if self.t.keys() != o.t.keys():
            # allow tiny residues relative to the largest coefficient
            mx = max([abs(float(c)) for c in self.t.values()] + [abs(float(c)) for c in o.t.values()] + [0.0])
            for m in self.t.keys() ^ o.t.keys():
                c = self.t.get(m, o.t.get(m))
                if abs(float(c)) > 1e-15 * mx:
                    return False
        for m in self.t.keys() & o.t.keys():
            if not feq(self.t[m], o.t[m]):
                return False
        return True

    def __str__(self):
        if not self.t:
            return '0'
        out = []
        for m, c in sorted(self.t.items(), key=lambda kv: (-sum(e for _, e in kv[0]), str(kv[0]))):
            s = '*'.join(atom_str(a) + ('' if e == 1 else '^%d' % e) for a, e in m)
            if isinstance(c, Fr) and (c.denominator > 10**6 or abs(c.numerator) > 10**9):
                cs = '%.17g' % float(c)
            else:
                cs = str(c)
            out.append(cs if not s else (s if c == 1 else ('-' + s if c == -1 else cs + '*' + s)))
        return ' + '.join(out).replace('+ -', '- ')
    __repr__ = __str__


def _mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    i = j = 0
    r = []
    while i < len(m1) and j < len(m2):
        a, e = m1[i]
        b, f = m2[j]
        if a == b:
            r.append((a, e + f))
            i += 1
            j += 1
        elif a < b:
            r.append(m1[i])
            i += 1
        else:
            r.append(m2[j])
            j += 1
    r.extend(m1[i:])
    r.extend(m2[j:])
    return tuple(r)


def _reduce_sqrt(p):
    """replace sqrt(f)^2 by f"""
    while True:
        todo = None
        for m in p.t:
            for a, e in m:
                if e > 1 and _atoms[a][0] == 'sqrt':
                    todo = a
                    break
            if todo is not None:
                break
        if todo is None:
            return p
        rad = _atoms[todo][1]          # Poly
        r = Poly({})
        for m, c in p.t.items():
            e = 0
            rest = []
            for b, x in m:
                if b == todo:
                    e = x
                else:
                    rest.append((b, x))
            q = e // 2
            if e & 1:
                rest.append((todo, 1))
                rest.sort()
            t = Poly({tuple(rest): c})
            if q:
                t = t.mul(rad.pow(q))
            r = r.add(t)
        p = r


ONE = Poly.const(Fr(1))
ZERO = Poly({})


class Rat:
    __slots__ = ('n', 'd', '_h')

    def __init__(self, n, d=ONE):
        if d.is_const():
            c = d.cval()
            if c == 0:
                # division by literal zero: keep
                pass
            elif c != 1:
                n = n.scale(Fr(1) / c)
                d = ONE
        else:
            n, d = _cancel(n, d)
        self.n = n
        self.d = d
        self._h = None

    @staticmethod
    def c(x):
        return Rat(Poly.const(x if isinstance(x, Fr) else Fr(x)))

    def is_poly(self):
        return self.d.t == ONE.t

    def is_const(self):
        return self.d.is_const() and self.n.is_const()

    def cval(self):
        return self.n.cval()

    def is_zero(self):
        return not self.n.t

    def __add__(self, o):
        o = R(o)
        if self.d == o.d:
            return Rat(self.n.add(o.n), self.d)
        return Rat(self.n.mul(o.d).add(o.n.mul(self.d)), self.d.mul(o.d))
    __radd__ = __add__

    def __sub__(self, o):
        return self + (-R(o))

    def __rsub__(self, o):
        return R(o) + (-self)

    def __neg__(self):
        return Rat(self.n.scale(Fr(-1)), self.d)

    def __mul__(self, o):
        o = R(o)
        return Rat(self.n.mul(o.n), self.d.mul(o.d))
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = R(o)
        return Rat(self.n.mul(o.d), self.d.mul(o.n))

    def __rtruediv__(self, o):
        return R(o) / self

    def __pow__(self, k):
        if k < 0:
            return Rat(self.d.pow(-k), self.n.pow(-k))
        return Rat(self.n.pow(k), self.d.pow(k))

    def eq(self, o):
        if self.d == o.d:
            return self.n.approx(o.n)
        a = self.n.mul(o.d)
        b = o.n.mul(self.d)
        return a.approx(b)

    def __eq__(self, o):
        return isinstance(o, Rat) and self.n == o.n and self.d == o.d

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.n, self.d))
        return self._h

    def atoms(self):
        return self.n.atoms() | self.d.atoms()

    def __str__(self):
        if self.is_poly():
            return str(self.n)
        return '(%s)/(%s)' % (self.n, self.d)
    __repr__ = __str__


def R(x):
    if isinstance(x, Rat):
        return x
    if isinstance(x, Poly):
        return Rat(x)
    if isinstance(x, float):
        return Rat.c(Fr(repr(x)))
    return Rat.c(x)


def _cancel(n, d):
    """cancel common monomial content and, if equal up to a scalar, all"""
    if not n.t:
        return n, ONE
    if len(d.t) == 1:
        (dm, dc), = d.t.items()
        # cancel atoms of dm common to all monomials of n
        common = dict(dm)
        for m in n.t:
            md = dict(m)
            for a in list(common):
                e = min(common[a], md.get(a, 0))
                if e:
                    common[a] = e
                else:
                    del common[a]
            if not common:
                break
        if common:
            n = Poly({_mdiv(m, common): c for m, c in n.t.items()})
            dm = _mdiv(dm, common)
        if dc != 1:
            n = n.scale(Fr(1) / dc)
        d = Poly({dm: Fr(1)})
        return n, d
    # polynomial multiple?
    if len(n.t) == len(d.t):
        k = next(iter(d.t))
        if k in n.t:
            c = n.t[k] / d.t[k]
            if d.scale(c).t == n.t:
                return Poly.const(c), ONE
    common = None
    for p in (n, d):
        for m in p.t:
            md = dict(m)
            if common is None:
                common = md
            else:
                common = {a: min(e, md[a]) for a, e in common.items() if a in md}
            if not common:
                break
        if not common:
            break
    if common:
        n = Poly({_mdiv(m, common): c for m, c in n.t.items()})
        d = Poly({_mdiv(m, common): c for m, c in d.t.items()})
    # exact division attempt when d has few terms
    if len(d.t) <= 4 and len(n.t) >= len(d.t) and len(n.t) <= 400:
        q = _exact_div(n, d)
        if q is not None:
            return q, ONE
    # normalise leading coefficient of d
    k = min(d.t)
    c = d.t[k]
    if c != 1:
        n = n.scale(Fr(1) / c)
        d = d.scale(Fr(1) / c)
    return n, d


def _lead(p):
    # graded-lex-like leading monomial (any multiplicative order): use atom ids
    allat = sorted(p.atoms())
    def key(m):
        md = dict(m)
        return tuple(md.get(a, 0) for a in allat)
    return max(p.t, key=key)


def _exact_div(n, d):
    allat = sorted(n.atoms() | d.atoms())
    if any(_atoms[a][0] == 'sqrt' for a in d.atoms()):
        return None
    idx = {a: i for i, a in enumerate(allat)}
    def key(m):
        v = [0] * len(allat)
        for a, e in m:
            v[idx[a]] = e
        return tuple(v)
    dl = max(d.t, key=key)
    dc = d.t[dl]
    q = {}
    r = n
    for _ in range(2000):
        if not r.t:
            return Poly(q)
        rl = max(r.t, key=key)
        a, b = dict(rl), dict(dl)
        for x, e in b.items():
            if a.get(x, 0) < e:
                return None
        qm = _mdiv(rl, b)
        qc = r.t[rl] / dc
        q[qm] = q.get(qm, 0) + qc
        r = r.add(Poly({qm: qc}).mul(d), -1)
        if len(r.t) > 3 * len(n.t) + 10:
            return None
    return None


def _mdiv(m, common):
    common = dict(common)
    r = []
    for a, e in m:
        e -= common.get(a, 0)
        if e:
            r.append((a, e))
    return tuple(r)


def A(*desc):
    """Rat of an atom given by descriptor"""
    return Rat(Poly.atom(atom_id(tuple(desc))))


def sym(name):
    return A('sym', name)


# ---------------------------------------------------------------- functions
_fncache = {}


def fn(name, *args):
    """interned uninterpreted function of Rat args (equality up to algebra)"""
    args = tuple(R(a) if not isinstance(a, (Rat, tuple, str)) else a for a in args)
    # sign normalisation
    if name == 'sin':
        s = _neg_lead(args[0])
        if s:
            return -fn('sin', -args[0])
        if args[0].is_zero():
            return Rat.c(0)
    if name == 'cos':
        if _neg_lead(args[0]):
            return fn('cos', -args[0])
        if args[0].is_zero():
            return Rat.c(1)
    if name == 'fabs':
        if args[0].is_const():
            return Rat.c(abs(args[0].cval()))
        if _neg_lead(args[0]):
            return fn('fabs', -args[0])
    if name == 'tan':
        return fn('sin', *args) / fn('cos', *args)
    if name == 'sqrt':
        return rsqrt(args[0])
    if name == 'pow':
        b, e = args
        if e.is_const():
            v = e.cval()
            if v.denominator == 1 and abs(v) <= 12:
                return b ** int(v)
            if v.denominator == 2 and abs(v) <= 12:
                return rsqrt(b) ** int(v * 2)
    lst = _fncache.setdefault((name, len(args)), [])
    for a2, r in lst:
        if all(_aeq(x, y) for x, y in zip(args, a2)):
            return r
    r = A('fn', name, args)
    lst.append((args, r))
    return r


def _aeq(x, y):
    if isinstance(x, Rat) and isinstance(y, Rat):
        return x == y or x.eq(y)
    return x == y


def _neg_lead(r):
    if not r.n.t:
        return False
    k = min(r.n.t)
    return r.n.t[k] < 0


def isqrt_exact(v):
    v = Fr(v)
    if v < 0:
        return None
    a = math.isqrt(v.numerator)
    b = math.isqrt(v.denominator)
    if a * a == v.numerator and b * b == v.denominator:
        return Fr(a, b)
    return None


_sqrtcache = {}


def rsqrt(r):
    key = r
    if key in _sqrtcache:
        return _sqrtcache[key]
    v = _rsqrt(r)
    _sqrtcache[key] = v
    return v


def _sqrt_int_atom(c):
    """sqrt of positive rational constant"""
    c = Fr(c)
    s = isqrt_exact(c)
    if s is not None:
        return Rat.c(s)
    n = c.numerator * c.denominator
    out = 1
    if n > 10**14:
        return Rat.c(Fr(math.sqrt(float(c))))
    f = 2
    rest = abs(n)
    primes = {}
    while f * f <= rest and f < 100000:
        while rest % f == 0:
            primes[f] = primes.get(f, 0) + 1
            rest //= f
        f += 1
    if rest > 1:
        primes[rest] = primes.get(rest, 0) + 1
    r = Rat.c(1)
    for p, e in primes.items():
        out *= p ** (e // 2)
        if e & 1:
            r = r * A('sqrt', Poly.const(Fr(p)))
    if n < 0:
        r = r * A('sqrt', Poly.const(Fr(-1)))
    return r * Rat.c(Fr(out, c.denominator))


def _rsqrt(r):
    if r.is_zero():
        return Rat.c(0)
    if r.is_const():
        return _sqrt_int_atom(r.cval())
    nf = _factor(r.n)
    df = _factor(r.d)
    # the argument is non-negative wherever the root is real, and a root atom
    # stands for sqrt|p|: signs of the factors cancel
    cn = abs(nf[0] / df[0])
    facs = {}
    for p, e in nf[1]:
        facs[p] = facs.get(p, 0) + e
    for p, e in df[1]:
        facs[p] = facs.get(p, 0) - e
    out = _sqrt_int_atom(cn)
    for p, e in facs.items():
        q, rem = divmod(e, 2)
        if q:
            out = out * (Rat(p) ** q)
        if rem:
            if len(p.t) == 1:
                (m, c), = p.t.items()
                if len(m) == 1 and m[0][1] == 1 and c == 1 and _atoms[m[0][0]][0] == 'sqrt':
                    pass
            out = out * A('sqrt', p)
    return out


_faccache = {}


def _factor(p):
    """(const, [(Poly, exp)]) factorisation over Q using sympy; each factor is
    primitive with integer coefficients and positive leading (min) monomial"""
    if p in _faccache:
        return _faccache[p]
    if p.is_const():
        res = (p.cval(), [])
    elif len(p.t) == 1:
        (m, c), = p.t.items()
        res = (c, [(Poly.atom(a), e) for a, e in m])
    elif any(not isinstance(c, Fr) or max(abs(c.numerator), c.denominator) > 10**9 for c in p.t.values()) or len(p.t) > 300:
        # not worth factoring: normalise content
        k = min(p.t)
        c = p.t[k]
        c = abs(c) * _leadsign(p)
        res = (c, [(p.scale(1 / c), 1)])
    else:
        import sympy
        ats = sorted(p.atoms())
        syms = {a: sympy.Symbol('a%d' % a) for a in ats}
        gens = [syms[a] for a in ats]
        d = {}
        for m, c in p.t.items():
            md = dict(m)
            d[tuple(md.get(a, 0) for a in ats)] = sympy.Rational(c.numerator, c.denominator)
        sp = sympy.Poly(d, *gens, domain='QQ')
        c, fl = sympy.factor_list(sp)
        const = Fr(int(c.p), int(c.q)) if hasattr(c, 'p') else Fr(str(c))
        out = []
        for f, e in fl:
            t = {}
            for mon, co in f.terms():
                mm = tuple((a, x) for a, x in zip(ats, mon) if x)
                t[mm] = Fr(int(co.p), int(co.q))
            q = Poly(t)
            k = min(q.t)
            # content
            dl = 1
            for co in q.t.values():
                dl = dl * co.denominator // math.gcd(dl, co.denominator)
            g = 0
            for co in q.t.values():
                g = math.gcd(g, int(co * dl))
            cont = Fr(g, dl)
            if _leadsign(q) < 0:
                cont = -cont
            q = q.scale(1 / cont)
            const *= cont ** e
            out.append((q, e))
        res = (const, out)
    _faccache[p] = res
    return res


_typc = {}


def _typ_atom(a):
    """a representative value of an atom: loop counters near their start, degrees
    above orders, dimensions above degrees"""
    if a in _typc:
        return _typc[a]
    d = _atoms[a]
    k = d[0]
    jit = (a % 97) / 1000.0
    if k in ('iv', 'bv') or (k == 'sym' and str(d[1]).startswith('_')):
        v = 3.2 + jit
    elif k in ('arg', 'sym'):
        nm = str(d[1])
        v = {'n': 1000.0, 'r': 900.0, 'm': 100.0, 'c': 90.0}.get(nm, 20.0) + jit
    elif k == 'ld':
        v = 1e4 + jit
    elif k == 'sqrt':
        v = abs(_typ_poly(d[1])) ** 0.5
    else:
        v = 0.7 + jit
    _typc[a] = v
    return v


def _typ_poly(p):
    s = 0.0
    for m, c in p.t.items():
        t = float(c)
        for a, e in m:
            t *= _typ_atom(a) ** e
        s += t
    return s


def _leadsign(q):
    v = _typ_poly(q)
    if abs(v) > 1e-6:
        return 1 if v > 0 else -1
    # positive coefficient for the monomial of highest degree / smallest key
    k = max(q.t, key=lambda m: (sum(e for _, e in m), tuple((-a, e) for a, e in m)))
    return 1 if q.t[k] > 0 else -1


# ---------------------------------------------------------------- substitution
def subst_rat(r, f, memo=None):
    """f: atom id -> Rat or None. Rebuilds nested atoms."""
    if memo is None:
        memo = {}
    return _subst_poly(r.n, f, memo) / _subst_poly(r.d, f, memo) if not r.is_poly() else _subst_poly(r.n, f, memo)


def _subst_atom(a, f, memo):
    if a in memo:
        return memo[a]
    v = f(a)
    if v is None:
        d = _atoms[a]
        nd = map_desc(d, lambda x: subst_rat(x, f, memo), f)
        if isinstance(nd, Rat):
            v = nd
        elif nd == d:
            v = Rat(Poly.atom(a))
        else:
            v = A(*nd)
    memo[a] = v
    return v


REBUILD = {}
FKINDS = ('lt', 'eq', 'flt', 'feq', 'not', 'and', 'or', 'b')
FMAP = [None]


def map_desc(d, g, f=None):
    k = d[0]
    if k == 'sqrt':
        p = g(Rat(d[1]))
        if p == Rat(d[1]):
            return d
        return rsqrt(p)
    if k == 'fn':
        na = tuple(g(x) if isinstance(x, Rat) else (_map_any(x, g)) for x in d[2])
        if na == d[2]:
            return d
        return fn(d[1], *na)
    if k in REBUILD:
        return REBUILD[k](d, g)
    return _map_any(d, g)


def _map_any(d, g):
    if isinstance(d, frozenset):
        return frozenset(_map_any(x, g) for x in d)
    if isinstance(d, tuple) and d and d[0] in FKINDS:
        return FMAP[0](d, g)
    if isinstance(d, Rat):
        return g(d)
    if isinstance(d, Poly):
        v = g(Rat(d))
        return v
    if isinstance(d, tuple):
        r = tuple(_map_any(x, g) for x in d)
        return d if r == d else r
    return d


def _subst_poly(p, f, memo):
    # fast path
    changed = False
    for a in p.atoms():
        v = _subst_atom(a, f, memo)
        if v.d.t != ONE.t or v.n.t != {((a, 1),): Fr(1)}:
            changed = True
    if not changed:
        return Rat(p)
    acc_n = ZERO
    acc = None
    for m, c in p.t.items():
        t = Rat.c(c)
        for a, e in m:
            v = memo[a]
            t = t * (v if e == 1 else v ** e)
        if t.is_poly():
            acc_n = acc_n.add(t.n)
        else:
            acc = t if acc is None else acc + t
    r = Rat(acc_n)
    return r if acc is None else r + acc


def deep_atoms(r, out=None):
    """all atom ids occurring anywhere in r (including nested)"""
    if out is None:
        out = set()
    for a in r.atoms():
        if a not in out:
            out.add(a)
            _deep_desc(_atoms[a], out)
    return out


def _deep_desc(d, out):
    if isinstance(d, frozenset):
        for x in d:
            _deep_desc(x, out)
        return
    if isinstance(d, Rat):
        deep_atoms(d, out)
    elif isinstance(d, Poly):
        deep_atoms(Rat(d), out)
    elif isinstance(d, tuple):
        for x in d:
            _deep_desc(x, out)


def occurs(r, a, _m=None):
    return a in deep_atoms(r)


# ---------------------------------------------------------------- constants
def from_double(x):
    """exact value model of a double literal: the shortest decimal that reads
    back to it; square roots of small rationals are recognised"""
    if x != x or x in (float('inf'), float('-inf')):
        return fn('const', repr(x))
    if x == 0:
        return Rat.c(0)
    s = repr(abs(x))
    digs = len(s.replace('.', '').split('e')[0].strip('0'))
    if digs >= 15:
        y = Fr(x) * Fr(x)
        q = y.limit_denominator(5000)
        if q.numerator and q.numerator < 10**6 and abs(float((y - q) / q)) < 6e-16 and isqrt_exact(q) is None:
            r = _sqrt_int_atom(q)
            return r if x > 0 else -r
        q = Fr(x).limit_denominator(1000)
        if q.numerator and abs(q.numerator) < 10**7 and abs(float((Fr(x) - q) / q)) < 2.5e-16:
            return Rat.c(q)
    return Rat.c(Fr(repr(x)))


def faulhaber(r, kid):
    """Sum_{j=0}^{k-1} r(j) for r polynomial in atom kid (others invariant);
    returns Rat in kid, or None"""
    if kid in r.d.atoms():
        return None
    for a in r.atoms():
        if a != kid:
            dd = set()
            _deep_desc(_atoms[a], dd)
            if kid in dd:
                return None
    co = r.n.coeffs(kid)
    k = Rat(Poly.atom(kid))
    out = Rat.c(0)
    for e, c in co.items():
        out = out + Rat(c) * _powsum(e, k)
    return out / Rat(r.d)


def _powsum(e, k):
    # sum_{j=0}^{k-1} j^e  via Bernoulli numbers
    B = _bern(e)
    out = Rat.c(0)
    for i in range(e + 1):
        out = out + Rat.c(Fr(math.comb(e + 1, i)) * B[i]) * (k ** (e + 1 - i))
    return out / Rat.c(e + 1)


def _bern(n):
    B = [Fr(1)]
    for m in range(1, n + 1):
        s = Fr(0)
        for k in range(m):
            s += math.comb(m + 1, k) * B[k]
        B.append(-s / (m + 1))
    return B


# ---------------------------------------------------------------- printing
def atom_str(a):
    d = _atoms[a]
    return desc_str(d)


def desc_str(d):
    if isinstance(d, (Rat, Poly)):
        return str(d)
    if not isinstance(d, tuple):
        return str(d)
    k = d[0] if d else ''
    if k == 'sym':
        return str(d[1])
    if k == 'sqrt':
        return 'sqrt(%s)' % d[1]
    if k == 'fn':
        return '%s(%s)' % (d[1], ', '.join(desc_str(x) for x in d[2]))
    if k == 'arg':
        return str(d[1])
    if k == 'iv':
        return 'k%s' % (d[2],)
    if k == 'ld':
        return '[%s+%s]%s' % (desc_str(d[1]), d[2], '' if not d[4] else "'")
    if k == 'ite':
        return 'ite(%s ? %s : %s)' % (desc_str(d[1]), d[2], d[3])
    return '%s(%s)' % (k, ','.join(desc_str(x) for x in d[1:]))
