"""Shared pieces of the Earth-orientation checks."""
import math
import os
from fractions import Fraction as Fr
from engine import build, alg
from engine.alg import R, A, Rat, atom_desc, subst_rat, deep_atoms, fn
from engine.fold import fold, trig
from engine.trig import expmap, diff
from engine.vf import P, AnalysisError

STUB = ['-I' + build.VERIF + '/stubs', '-I/usr/include/eigen3']
SRC = build.REPO + '/src/lib/'
TWOPI = Fr('6.283185307179586476925287')
AS = Fr(repr(4.848136811095359935899141e-6))      # radians per arcsecond (as the compiler reads it)


def spec(name):
    for l in open(os.path.join(build.VERIF, 'spec', name)):
        if l.strip() and l[0] != '#':
            yield l.split()


def ld(base, k, ty='double'):
    return A('ld', ('arg', base), R(k), ty, None)


def epoch(name, which=0):
    """Julian centuries / days since J2000 of the epoch behind pointer `name`"""
    d = ld(name, 0, 'i32')
    s = ld(name, 8)
    days = d - 51544 + (s - 43200) / 86400
    return {'cy': days / 36525, 'days': days, 'sec': s, 'mjd': d + s / 86400}


def source(rel, roots, keep=''):
    src = SRC + rel
    if not os.path.exists(src):
        raise AnalysisError('source file %s is gone' % rel)
    return build.export(build.compile_bc(src, STUB), roots=roots, keep=keep)


def strip_turns(r, turn=TWOPI, depth=0):
    """drop reductions to one turn: k*fmod(x,T) with k*T a whole number of
    turns, and integer multiples of anp(x), are x modulo a turn"""
    r = R(r)
    if depth > 12 or not r.is_poly():
        return r
    out = R(0)
    ch = False
    for mono, c in r.n.t.items():
        t = Rat(alg.Poly({mono: c}))
        if len(mono) == 1 and mono[0][1] == 1:
            d = atom_desc(mono[0][0])
            if d[0] == 'fn':
                x, T = None, None
                a = d[2]
                if d[1] == 'fmod' and isinstance(a[1], Rat) and a[1].is_const():
                    x, T = a[0], a[1].cval()
                elif d[1] == 'vfn_anp':
                    x, T = a[0], turn
                elif d[1] in ('floor', 'rint', 'round', 'ftrunc', 'ceil', 'toint'):
                    q = float(c / turn)
                    if abs(q - round(q)) < 1e-9 and round(q) != 0:
                        ch = True
                        continue
                if x is not None:
                    q = float(c * T / turn)
                    if abs(q - round(q)) < 1e-12 * max(1, abs(q)) and round(q) != 0:
                        t = x * R(c)
                        ch = True
        out = out + t
    return strip_turns(out, turn, depth + 1) if ch else out


def near(a, b, rel=2e-14):
    """equal polynomials/rational functions up to rounding of folded constants"""
    a, b = R(a), R(b)
    p = a.n.mul(b.d)
    q = b.n.mul(a.d)
    ks = set(p.t) | set(q.t)
    for k in ks:
        x, y = float(p.t.get(k, 0)), float(q.t.get(k, 0))
        if abs(x - y) > rel * max(abs(x), abs(y)):
            return False
    return True


def same(ck, name, got, want, loc, rel=2e-14, mod=None):
    """obligation: equal expressions (exact reals, constants to double rounding);
    mod: equality modulo one turn"""
    got, want = R(got), R(want)
    if mod:
        got, want = strip_turns(got, mod), strip_turns(want, mod)
    if near(got, want, rel):
        return ck.ok(name, True, loc)
    if mod and whole_turns(got, want, mod, rel):
        return ck.ok(name, True, loc)
    from engine.report import opaque
    # both sides are polynomials in genuinely independent inputs: a difference of
    # coefficients is a difference of functions
    ok = None
    from engine.alg import deep_atoms, atom_desc
    if inputs_only(got) and inputs_only(want) or any(atom_desc(a)[0] == 'undef' for a in deep_atoms(got)):
        # or one side depends on uninitialised memory
        ok = False
    else:
        from engine.evalx import refute
        w = None if opaque(got, want) else refute([], got, want)
        if w is not None:
            ok = False
    ck.ok(name, ok, loc, 'found: %s | required: %s' % (str(got)[:700], str(want)[:700]))


def whole_turns(got, want, mod, rel):
    """got - want is a whole number of turns whenever the integer inputs are integers"""
    d = got - want
    if not d.is_poly():
        return False
    for m, c in d.n.t.items():
        q = float(c / mod)
        whole = not m or (len(m) == 1 and m[0][1] == 1 and atom_desc(m[0][0])[0] == 'ld' and atom_desc(m[0][0])[3] == 'i32')
        if whole and abs(q - round(q)) < 1e-13 * max(1, abs(q)):
            continue
        sc = max(abs(float(x.n.t.get(m, 0))) for x in (got, want))
        if abs(float(c)) > rel * sc:
            return False
    return True


def inputs_only(r):
    return all(atom_desc(a)[0] in ('arg', 'ld') for a in r.atoms())


def series(ck, name, got, want, loc, rel=1e-12, floor=0.0, argmap=None):
    a, b = expmap(got, argmap), expmap(want, argmap)
    if a is None or b is None:
        return ck.ok(name, None, loc, 'value is not a trigonometric polynomial: %s' % str(got)[:300])
    bad = [k for m in a for k, _ in m[0] if atom_desc(k)[0] not in ('arg', 'ld', 'inv', 'sym', 'fn', 'rat')]
    d = diff(a, b, rel, floor)
    if d and bad:
        return ck.ok(name, None, loc, 'value contains unresolved parts: %s' % '; '.join(d)[:600])
    ck.ok(name, not d, loc, '; '.join(d))


def horner(cs, t):
    v = R(0)
    for c in reversed(cs):
        v = v * t + R(Fr(c))
    return v


def witness(a, b, ranges, tries=60, tol=1e-9):
    """a point of the domain at which two closed forms differ (confirms a mismatch
    found symbolically); ranges: function (atom descriptor) -> (lo, hi) or None"""
    import random
    from engine.evalx import Ev, NoVal
    rnd = random.Random(7)
    a, b = R(a), R(b)
    ats = [x for x in deep_atoms(a) | deep_atoms(b) if atom_desc(x)[0] in ('arg', 'sym', 'ld')]
    for _ in range(tries):
        env = {}
        for x in ats:
            lo, hi = ranges(atom_desc(x)) or (-1.0, 1.0)
            env[x] = rnd.uniform(lo, hi)
        ev = Ev(env, None)
        try:
            va, vb = ev.rat(a), ev.rat(b)
        except (NoVal, OverflowError, ZeroDivisionError, ValueError):
            continue
        if abs(va - vb) > tol * max(abs(va), abs(vb), 1e-3):
            return 'e.g. %.12g instead of %.12g' % (va, vb)
    return None
