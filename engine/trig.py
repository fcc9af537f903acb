"""Canonical form of trigonometric series: a value polynomial in sines, cosines and
other atoms becomes a map  (other monomial, argument) -> complex coefficient  of
exp(i*argument); products of sines and cosines are linearised, so the way a series
is written (angle-addition formulas, factored powers of t, order of terms, zero
terms) does not matter."""
import functools
import math
from fractions import Fraction as Fr
from . import alg
from .alg import R, Rat, Poly, atom_desc, Fr as _F


def _isT(a):
    d = atom_desc(a)
    return d[0] == 'fn' and d[1] in ('sin', 'cos')


def expmap(r, argmap=None):
    """Rat -> {(mono, argkey): (re, im)}; mono: tuple of (atom, power);
    argkey: frozenset of a linear form's terms"""
    r = R(r)
    if not r.is_poly():
        if not any(_isT(a) for a in r.d.atoms()):
            # denominator free of trigonometric atoms: carried as an opaque monomial
            den = alg.A('inv', Rat(r.d))
            r = Rat(r.n) * den
        else:
            return None
    args = {}                     # argument -> its number
    lins = []
    side = {}

    def slot(a):
        if a not in side:
            d = atom_desc(a)
            x = d[2][0]
            x = argmap(x) if argmap else x
            if not x.is_poly():
                return None
            k = frozenset(x.n.t.items())
            if k not in args:
                args[k] = len(lins)
                lins.append(x)
            side[a] = (args[k], d[1] == 'cos')
        return side[a]
    # terms:  (other monomial, sorted ((argument, cosines, sines)...)) -> coefficient
    den = 1
    for c in r.n.t.values():
        q = c.denominator
        den = den * q // math.gcd(den, q)
    terms = []
    maxk = 0
    for mono, c in r.n.t.items():
        rest = []
        tr = {}
        for a, p in mono:
            if _isT(a):
                s = slot(a)
                if s is None:
                    return None
                i, isc = s
                o = tr.get(i, (0, 0))
                tr[i] = (o[0] + p, o[1]) if isc else (o[0], o[1] + p)
            else:
                rest.append((a, p))
        deg = sum(x + y for x, y in tr.values())
        maxk = max(maxk, deg)
        terms.append((deg, tuple(rest), tuple(sorted((i, x, y) for i, (x, y) in tr.items())), int(c * den)))
    # every term is scaled by the same power of two, so the arithmetic stays in integers
    bucket = [{} for _ in lins] + [{}]
    end = len(lins)

    def put(rest, tr, net, re, im):
        b = bucket[tr[0][0] if tr else end]
        k = (rest, tr, net)
        o = b.get(k, (0, 0))
        b[k] = (o[0] + re, o[1] + im)
    for deg, rest, tr, c in terms:
        put(rest, tr, (), c << (maxk - deg), 0)
    # one argument at a time:  cos^x sin^y  ->  exponentials, merging as we go
    for i in range(end):
        for (rest, tr, net), (re, im) in bucket[i].items():
            if re or im:
                for n, a, b in _powers(tr[0][1], tr[0][2]):
                    put(rest, tr[1:], net + ((i, n),) if n else net, re * a - im * b, re * b + im * a)
        bucket[i] = None
    out = {}
    for (rest, _, net), (re, im) in bucket[end].items():
        q = {}
        for i, n in net:
            for m, cc in lins[i].n.t.items():
                v = q.get(m, 0) + n * cc
                if v:
                    q[m] = v
                else:
                    q.pop(m, None)
        k = (rest, frozenset(q.items()))
        o = out.get(k, (0, 0))
        out[k] = (o[0] + re, o[1] + im)
    return {k: (Fr(v[0], den << maxk), Fr(v[1], den << maxk)) for k, v in out.items() if v[0] or v[1]}


@functools.lru_cache(None)
def _powers(x, y):
    """2^(x+y) cos^x sin^y as ((multiple, re, im), ...)"""
    c = {0: (1, 0)}
    for j in range(x + y):
        n = {}
        for m, (re, im) in c.items():
            for s in (1, -1):
                f = (re, im) if j < x else (im, -re) if s == 1 else (-im, re)
                o = n.get(m + s, (0, 0))
                n[m + s] = (o[0] + f[0], o[1] + f[1])
        c = n
    return tuple((m, a, b) for m, (a, b) in c.items() if a or b)


def close(a, b, rel=1e-12, floor=0.0):
    return abs(float(a) - float(b)) <= max(rel * max(abs(float(a)), abs(float(b))), floor)


def key_str(k):
    rest, arg = k
    a = ' '.join('%+g*%s' % (float(c), '*'.join(alg.atom_str(x) for x, p in m) or '1') for m, c in sorted(arg, key=str))
    return '%s exp i(%s)' % ('*'.join('%s^%d' % (alg.atom_str(x), p) for x, p in rest) or '1', a or '0')


def diff(a, b, rel=1e-12, floor=0.0):
    """first few differences of two canonical maps"""
    out = []
    for k in list(a) + [k for k in b if k not in a]:
        x, y = a.get(k, (0, 0)), b.get(k, (0, 0))
        if not (close(x[0], y[0], rel, floor) and close(x[1], y[1], rel, floor)):
            out.append('%s: found cos %.15g sin %.15g | required cos %.15g sin %.15g' % (
                key_str(k), 2 * float(x[0]), -2 * float(x[1]), 2 * float(y[0]), -2 * float(y[1])))
            if len(out) >= 4:
                break
    return out
