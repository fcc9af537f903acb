"""P12: compensated summation."""
from fractions import Fraction as Fr
from engine import build
from engine.alg import R, A, Rat, atom_desc, atom_id, subst_rat
from engine.vf import P, isP, rounded
from engine.logic import Not
from engine.cases import simplify
LOC = 'include/kahan.hpp'


class Bad(Exception):
    pass


def ev(r, env):
    """value of a rounded expression: IEEE double for each operation"""
    if r.is_const():
        return float(r.cval())
    if not r.is_poly() or len(r.n.t) != 1:
        raise Bad(str(r))
    (m, c), = r.n.t.items()
    if len(m) != 1 or m[0][1] != 1 or abs(c) != 1:
        raise Bad(str(r))
    a = m[0][0]
    s = float(c)
    d = atom_desc(a)
    if a in env:
        return s * env[a]
    if d[0] in ('fadd', 'fmul', 'fdiv'):
        x, y = ev(d[1], env), ev(d[2], env)
        return s * (x + y if d[0] == 'fadd' else x * y if d[0] == 'fmul' else x / y)
    if d[0] == 'ite':
        return s * ev(d[2] if truth(d[1], env) else d[3], env)
    if d[0] == 'fn' and d[1] == 'fabs':
        return s * abs(ev(d[2][0], env))
    raise Bad(str(d))


def exact(r, env):
    t = Fr(0)
    for m, c in r.n.t.items():
        x = Fr(c)
        for a, e in m:
            x *= Fr(ev(Rat(type(r.n).atom(a)), env)) ** e
        t += x
    return t


def truth(c, env):
    if c is True or c is False:
        return c
    k = c[0]
    if k == 'not':
        return not truth(c[1], env)
    if k == 'and':
        return all(truth(x, env) for x in c[1])
    if k == 'or':
        return any(truth(x, env) for x in c[1])
    if k == 'flt':
        return exact(c[1], env) < 0
    if k == 'feq':
        return exact(c[1], env) == 0
    raise Bad(str(c))


def leaves(v):
    """[(conditions, branch value)]"""
    if v.is_poly() and len(v.n.t) == 1:
        (m, c), = v.n.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            d = atom_desc(m[0][0])
            if d[0] == 'ite':
                return [([d[1]] + fs, x) for fs, x in leaves(d[2])] + [([Not(d[1])] + fs, x) for fs, x in leaves(d[3])]
            if d[0] == 'fadd':
                out = []
                for f1, x in leaves(d[1]):
                    for f2, y in leaves(d[2]):
                        out.append((f1 + f2, rounded('fadd', x, y)))
                return out
    return [([], v)]


def run(ck):
    ck.rule('sum', 'adding v makes the accumulator fl(sum+v)')
    ck.rule('error term', 'the compensation grows by the exact rounding error of that addition: an error-free transformation (FastTwoSum under |a|>=|b|, or TwoSum)')
    m = build.driver('kahan.cpp')
    fs = {}
    for k in ('add', 'get', 'init', 'def'):
        F = m.fn('drv_' + k)
        f = type(F)(m, m.fns['drv_' + k])
        f.rounded = True
        fs[k] = f
        ck.analysed(f.name)
    v = A('arg', 'v')
    p = ('arg', 'p')
    # the accumulator is the member that receives the starting value
    offs = sorted({int(e.ptr[2].cval()) for e in fs['init'].events() if e.kind == 'store' and isP(e.ptr) and e.ptr[2].is_const()})
    so = [o for o in offs if fs['init'].final(P(p, R(o)), 'double') == v]
    eo = [o for o in offs if o not in so]
    if len(so) != 1 or len(eo) != 1:
        return ck.ok('layout: one accumulator and one compensation', None, LOC, 'offsets %s' % offs)
    so, eo = so[0], eo[0]
    ck.eq('start: no compensation', [], fs['init'].final(P(p, R(eo)), 'double'), R(0), LOC)
    for o, w in ((so, 'sum'), (eo, 'compensation')):
        ck.eq('default start: zero ' + w, [], fs['def'].final(P(p, R(o)), 'double'), R(0), LOC)
    S = A('ld', p, R(so), 'double', None)
    E = A('ld', p, R(eo), 'double', None)
    t = rounded('fadd', S, v)
    env_ids = [next(iter(x.atoms())) for x in (S, E, v)]
    g = fs['get'].retval()
    same(ck, 'value: accumulator plus compensation', g, rounded('fadd', S, E), env_ids, LOC)
    s1 = fs['add'].final(P(p, R(so)), 'double')
    e1 = fs['add'].final(P(p, R(eo)), 'double')
    same(ck, 'accumulator becomes the rounded sum', s1, t, env_ids, LOC)

    def fast(a, b):
        return rounded('fadd', rounded('fadd', a, -t), b)

    def two(a, b):
        bb = rounded('fadd', t, -a)
        return rounded('fadd', rounded('fadd', a, -rounded('fadd', t, -bb)), rounded('fadd', b, -bb))
    order = {}
    from engine.alg import fn
    for a, b in ((S, v), (v, S)):
        order[a, b] = fn('fabs', a) - fn('fabs', b)
    good = True
    for cond, x in leaves(e1):
        okay = [rounded('fadd', E, two(S, v)), rounded('fadd', E, two(v, S))]
        for (a, b), df in order.items():
            # |a| >= |b| on this branch
            if any(c == Not(('flt', df)) or c == ('flt', -df) for c in flat(cond)):
                okay.append(rounded('fadd', E, fast(a, b)))
        if x not in okay:
            good = False
    if good:
        return ck.ok('compensation accumulates the exact rounding error', True, LOC)
    w = witness(e1, env_ids, lambda s, e, y: e + float(Fr(s) + Fr(y) - Fr(s + y)))
    ck.ok('compensation accumulates the exact rounding error', False if w else None, LOC, 'found %s | %s' % (e1, w))


def flat(cs):
    out = []
    for c in cs:
        out += flat(list(c[1])) if isinstance(c, tuple) and c[0] == 'and' else [c]
    return out


def witness(expr, ids, want):
    pts = [1.0, -1.0, 1e16, -1e16, 3e-17, 0.1, -0.3, 7e15, 1e100, -1e100, 0.0]
    for s in pts:
        for e in (0.0, 0.25, -3e-3):
            for y in pts:
                try:
                    got = ev(expr, dict(zip(ids, (s, e, y))))
                except Bad:
                    return None
                if got != want(s, e, y):
                    return 'sum=%r, compensation=%r, v=%r: %r instead of %r' % (s, e, y, got, want(s, e, y))
    return None


def same(ck, name, a, b, ids, loc):
    if a == b:
        return ck.ok(name, True, loc)
    w = witness(a, ids, lambda s, e, y: ev(b, dict(zip(ids, (s, e, y)))))
    ck.ok(name, False if w else None, loc, 'found %s | required %s | %s' % (a, b, w))
