"""P21: Doodson numbers, Doodson arguments, tables of constituents."""
from functools import lru_cache
from engine import build
from engine.alg import R, A, Rat, atom_desc, subst_rat
from engine.cases import prove_eq, decide_s, simplify, contradictory
from engine.fold import fold, Dead
from engine.logic import And, Or, Not, eq, ge, le, lt, gt
from engine.vf import isF, AnalysisError
from .eopops import STUB, TWOPI, Fr, same, ld, spec
from .strs import HANDLERS, const
from .tides import doodson

HDR = 'include/doodson.hpp'
DIR = 'src/lib/doodson/'


def ints(b, n=6):
    return [ld(b, 4 * i, 'i32') for i in range(n)]


def ch(b, i):
    return ld(b, i, 'i8')


def formula(ck, name, got, want, facts, loc):
    """equivalent conditions"""
    ok = equiv(got, want, facts)
    ck.ok(name, ok, loc, 'found: %s | required: %s' % (str(got)[:400], str(want)[:400]))


def feq(x, y):
    from engine.alg import _neg_lead
    d = R(x) - R(y)
    return d.is_zero() if d.is_const() else ('feq', -d if _neg_lead(d) else d)


def spread(f):
    """distribute (in)equalities over case distinctions"""
    if isinstance(f, bool):
        return f
    if f[0] == 'not':
        return Not(spread(f[1]))
    if f[0] in ('and', 'or'):
        return (And if f[0] == 'and' else Or)(*[spread(x) for x in f[1]])
    if f[0] in ('lt', 'eq'):
        for a in f[1].atoms():
            d = atom_desc(a)
            if d[0] == 'ite':
                c = spread(d[1])
                x, y = [spread((eq if f[0] == 'eq' else lt)(subst_rat(f[1], lambda t, v=v: R(v) if t == a else None), 0)) for v in d[2:4]]
                return Or(And(c, x), And(Not(c), y))
    return f


def known(f, true):
    """replace sub-formulas known to hold (or known not to)"""
    if isinstance(f, bool):
        return f
    if f in true:
        return True
    n = Not(f)
    if n in true:
        return False
    if f[0] == 'not':
        return Not(known(f[1], true))
    if f[0] in ('and', 'or'):
        return (And if f[0] == 'and' else Or)(*[known(x, true) for x in f[1]])
    return f


def implies(x, y):
    """x => y by replacing what is known, case by case"""
    for d in (x[1] if not isinstance(x, bool) and x[0] == 'or' else [x]):
        true = {d} | set(d[1] if not isinstance(d, bool) and d[0] == 'and' else [])
        r = known(y, true)
        if r is True:
            continue
        # contrapositive
        n = Not(y)
        true = {n} | set(n[1] if not isinstance(n, bool) and n[0] == 'and' else [])
        if known(d, true) is not False:
            return False
    return True


def equiv(got, want, facts=()):
    if isinstance(got, Rat):
        got = Not(eq(got, 0))
    got = spread(got)
    if got == want:
        return True
    if isinstance(got, bool) and isinstance(want, bool):
        return False
    facts = list(facts)
    for x, y in ((got, want), (want, got)):
        if x is False or y is True or implies(x, y):
            continue
        if not contradictory(facts + [x, Not(y)]):
            return False if plain(got) and plain(want) else None
    return True


def plain(f):
    """condition over independent inputs only"""
    from engine.logic import literals
    if isinstance(f, bool):
        return True
    for l in literals(f):
        l = l[1] if l[0] == 'not' else l
        if l[0] not in ('lt', 'eq', 'flt', 'feq') or any(atom_desc(a)[0] not in ('arg', 'ld') for a in l[1].atoms()):
            return False
    return True


def run(ck):
    ck.rule('variables', 'Doodson variables from Delaunay arguments and GMST; argument is the sum of multipliers times variables, modulo a turn')
    ck.rule('identity', 'construction keeps six multipliers and the phase factor; comparisons look at exactly the parts they name')
    ck.rule('strings', 'text form and parsing are inverse over the whole range of the letter convention; malformed text is refused')
    ck.rule('tables', 'every constituent of the two tables is found by name (or number) with its multipliers, phase factor and speed; others are not found')
    mod()
    ck.par(lambda c, k: k(c), [variables, identity, strings, resolve, atmospheric, ocean, wave])
    ck.assumptions += ['characters follow ASCII; C library string functions behave as documented', 'exact real arithmetic']


@lru_cache(None)
def mod():
    return build.linked('doodson.cpp', build.sources('doodson/*.cpp'), flags=STUB)


def variables(ck):
    m = mod()
    f = [ld('f', 8 * i) for i in range(5)]
    r = fold(m, 'drv_vars')
    ck.analysed('drv_vars')
    b = doodson(f, A('arg', 'g'))
    for i, nm in enumerate(("tau", "s", "h", "p", "N'", "ps")):
        same(ck, 'Doodson variable %s' % nm, r.result(('arg', 'o'), 8 * i), b[i], HDR, mod=TWOPI)
    same(ck, 'Doodson variables are returned', r.result(('arg', 'o'), 48), r.result(('arg', 'o'), 0), HDR)
    w = sum((n * ld('f', 8 * i) for i, n in enumerate(ints('n'))), R(0))
    for d in ('drv_arg', 'drv_argl', 'drv_arga'):
        ck.analysed(d)
        same(ck, 'argument of a constituent (%s)' % {'drv_arg': 'six multipliers', 'drv_argl': 'list', 'drv_arga': 'array'}[d], fold(m, d).ret, w, HDR, mod=TWOPI)


def identity(ck):
    m = mod()
    r = fold(m, 'drv_get')
    ck.analysed('drv_get')
    for i in range(6):
        for b in 'oq':
            same(ck, 'multiplier %d' % i, r.result(('arg', b), 4 * i, 'i32'), ints('n')[i], HDR)
        same(ck, 'default multiplier %d' % i, r.result(('arg', 'z'), 4 * i, 'i32'), R(0), HDR)
    for k, w in ((0, A('arg', 'p')), (8, R(0)), (16, R(0))):
        same(ck, 'phase factor', r.result(('arg', 'r'), k), w, HDR)
    a, b = ints('a'), ints('b')
    part = lambda n: And(*[eq(x, y) for x, y in zip(a[:n], b[:n])])
    for d, nm, n, neg in (('drv_eq', 'equality', 6, 0), ('drv_ne', 'inequality', 6, 1), ('drv_species', 'same species', 1, 0), ('drv_group', 'same group', 2, 0), ('drv_const', 'same constituent', 3, 0)):
        ck.analysed(d)
        w = part(n)
        if n == 6:
            w = And(w, feq(A('arg', 'p'), A('arg', 'q')))
        formula(ck, nm, fold(m, d).ret, Not(w) if neg else w, [], HDR)


def rng(v, lo, hi):
    return [ge(v, lo), le(v, hi)]


def strings(ck):
    m = mod()
    n = ints('n')
    for d, five in (('drv_str5', 5), ('drv_str0', 0)):
        ck.analysed(d)
        add = [0] + [five] * 5
        facts = [c for x, k in zip(n, add) for c in rng(x, -13 - k, 22 - k)]
        r = fold(m, d, handlers=HANDLERS, assume=facts)
        pos = [0, 1, 2, 4, 5, 6]
        for i, (x, k) in enumerate(zip(n, add)):
            v = r.result(('arg', 's'), pos[i], 'i8')
            for lo, hi, base in ((0, 9, 48), (10, 22, 87), (-13, -1, 123)):
                fs = facts + rng(x + k, lo, hi)
                decided(ck, 'text of multiplier %d in %d..%d (+%d)' % (i, lo, hi, k), v, x + k + base, fs, DIR + 'doodson_to_str.cpp')
        for k, c in ((3, 46), (7, 0)):
            same(ck, 'text form, character %d' % k, r.result(('arg', 's'), k, 'i8'), R(c), DIR + 'doodson_to_str.cpp')
    # parsing: digit, upper- and lower-case letters
    loc = DIR + 'doodson_from_chars.cpp'
    pos = [0, 1, 2, 4, 5, 6]
    cls = ((48, 57, 48), (97, 109, 87), (110, 122, 123), (65, 77, 55), (78, 90, 91))
    wf = lambda p: Or(*[And(*rng(ch('s', p), lo, hi)) for lo, hi, _ in cls])
    facts = [eq(ch('s', 3), 46)] + [wf(p) for p in pos]
    r = fold(m, 'drv_parse', handlers=HANDLERS, assume=facts)
    ck.analysed('drv_parse')
    for i, p in enumerate(pos):
        v = r.result(('arg', 'o'), 4 * i, 'i32')
        for lo, hi, base in cls:
            fs = facts + rng(ch('s', p), lo, hi)
            decided(ck, 'multiplier %d from a character in %c..%c' % (i, lo, hi), v, ch('s', p) - base - (5 if i else 0), fs, loc)
    refuse(ck, m, 'drv_parse', 'well-formed text is accepted', facts, False, loc)
    refuse(ck, m, 'drv_parse', 'text without separator is refused', [Not(eq(ch('s', 3), 46))], True, loc)
    for p in pos:
        for lo, hi in ((-128, 47), (58, 64), (91, 96), (123, 127)):
            refuse(ck, m, 'drv_parse', 'character %d in %d..%d is refused' % (p, lo, hi), rng(ch('s', p), lo, hi), True, loc)


def decided(ck, name, v, want, facts, loc):
    d = simplify(R(v) - want, facts)
    if d.is_zero():
        return ck.ok(name, True, loc)
    if all(atom_desc(a)[0] in ('arg', 'ld') for a in d.atoms()) and not contradictory(list(facts)):
        return ck.ok(name, False, loc, 'differs by %s' % d)
    ck.eq(name, facts, R(v), want, loc)


def refuse(ck, m, drv, name, facts, yes, loc, mem=None):
    """the call never returns (yes) / always returns (no) under the given facts"""
    try:
        f = fold(m, drv, handlers=HANDLERS, assume=facts, mem=mem)
    except Dead:
        return ck.ok(name, yes, loc, 'the input is refused')
    if yes:
        # some path returns: every such path's condition must contradict the facts
        ok = False if not f.deads else None
        alive = [x for x in f.deads]
        if alive and contradictory(list(facts) + [Not(Or(*[And(*p) for p in alive]))]):
            ok = True
        elif alive:
            ok = False
        return ck.ok(name, ok, loc, 'the input is accepted')
    for p in f.deads:
        if not contradictory(list(facts) + list(p)):
            return ck.ok(name, False, loc, 'refused when %s' % (str(p)[:300]))
    ck.ok(name, True, loc)


def resolve(ck):
    m = mod()
    ck.analysed('drv_resolve')
    loc = DIR + 'resolve_iers2010_doodson_string.cpp'
    for k in (0, 1, 3):
        c = [ch('s', k + i) for i in range(7)]
        mem = {('arg', 's'): {i: (R(32), 1) for i in range(k)}}
        dig = [x for i, y in enumerate(c) if i != 3 for x in rng(y, 48, 57)]
        facts = dig + [eq(c[3], 46)]
        r = fold(m, 'drv_resolve', mem=mem, handlers=HANDLERS, assume=facts)
        for i, p in enumerate((0, 1, 2, 4, 5, 6)):
            decided(ck, 'digit %d after %d blanks' % (i, k), r.result(('arg', 'o'), 4 * i, 'i32'), c[p] - 48 - (5 if i else 0), facts, loc)
        refuse(ck, m, 'drv_resolve', 'well-formed text after %d blanks is accepted' % k, facts, False, loc, mem)
        refuse(ck, m, 'drv_resolve', 'text without separator after %d blanks is refused' % k, dig + [Not(eq(c[3], 46))], True, loc, mem)
        for p in (0, 1, 2, 4, 5, 6):
            oth = [x for i, y in enumerate(c) if i not in (3, p) for x in rng(y, 48, 57)] + [eq(c[3], 46)]
            for lo, hi in ((-128, 31), (33, 47), (58, 127)):
                refuse(ck, m, 'drv_resolve', 'character %d in %d..%d after %d blanks is refused' % (p, lo, hi, k), oth + rng(c[p], lo, hi) + [Not(eq(c[p], 0))], True, loc, mem)


def rows(t):
    for r in spec('waves.txt'):
        if r[0] == t:
            yield r[1], [int(x) for x in r[2:8]], [Fr(x) for x in r[8:]]


def row(ck, nm, r, n, v, loc, name=None):
    for i in range(6):
        same(ck, '%s: multiplier %d' % (nm, i), r.result(('arg', 'o'), 4 * i, 'i32'), R(n[i]), loc)
    for i, w in enumerate(('phase factor', 'speed', 'height')):
        same(ck, '%s: %s' % (nm, w), r.result(('arg', 'p'), 8 * i), R(v[i]), loc, rel=1e-13)
    if name is not None:
        b = const(name)
        for i in range(len(b)):
            same(ck, '%s: name' % nm, r.result(('arg', 'nm'), i, 'i8'), b[i][0], loc)


def matches(name, ci):
    """condition on the characters of argument s"""
    cs = []
    for i, (v, _) in const(name).items():
        c = int(v.cval())
        l = c + 32 if 65 <= c <= 90 else c
        x = ch('s', i)
        cs.append(Or(eq(x, l), eq(x, l - 32)) if ci and 97 <= l <= 122 else eq(x, c))
    return And(*cs)


def atmospheric(ck):
    m = mod()
    ck.analysed('drv_wave')
    loc = HDR
    for name, n, v in rows('a'):
        try:
            r = fold(m, 'drv_wave', mem={('arg', 's'): const(name)}, handlers=HANDLERS)
        except Dead:
            ck.ok('atmospheric constituent %s is found' % name, False, DIR + 'tidal_wave_tables.cpp', 'no entry of that name')
            continue
        row(ck, 'atmospheric constituent %s' % name, r, n, v, loc, name)
    f = fold(m, 'drv_entry', handlers=HANDLERS)
    ck.analysed('drv_entry')
    formula(ck, 'exactly the listed names are atmospheric constituents', f.ret, Or(*[matches(x[0], False) for x in rows('a')]), [], DIR + 'tidal_wave_tables.cpp')
    facts = [Not(matches(x[0], False)) for x in rows('a')]
    refuse(ck, m, 'drv_wave', 'an unknown name is refused', facts, True, DIR + 'tidal_wave_tables.cpp')


def ocean(ck):
    m = mod()
    loc = HDR
    src = DIR + 'match_tadal_constituents.cpp'
    for name, n, v in rows('o'):
        for alt in (name, name.upper(), name.lower()):
            ck.analysed('drv_ocean')
            r = fold(m, 'drv_ocean', mem={('arg', 's'): const(alt)}, handlers=HANDLERS)
            if r.ret is not True:
                ck.ok('ocean constituent %s is found' % alt, False if r.ret is False else None, src, 'no entry of that name')
                continue
            row(ck, 'ocean constituent %s' % alt, r, n, v, loc, name)
        mem = {('arg', 'n'): {4 * i: (R(x), 4) for i, x in enumerate(n)}}
        r = fold(m, 'drv_oceann', args={'q': R(v[0])}, mem=mem, handlers=HANDLERS)
        ck.analysed('drv_oceann')
        if r.ret is not True:
            ck.ok('ocean constituent %s is found by number' % name, False if r.ret is False else None, src, 'no entry')
            continue
        row(ck, 'ocean constituent by number %s' % name, r, n, v, loc, name)
    f = fold(m, 'drv_ocean', handlers=HANDLERS)
    formula(ck, 'exactly the listed names are ocean constituents', f.ret, Or(*[matches(x[0], True) for x in rows('o')]), [], src)
    f = fold(m, 'drv_oceann', handlers=HANDLERS)
    formula(ck, 'exactly the listed numbers are ocean constituents', f.ret,
            Or(*[And(*[eq(x, k) for x, k in zip(ints('n'), n)], feq(A('arg', 'q'), R(v[0]))) for _, n, v in rows('o')]), [], src)


def wave(ck):
    m = mod()
    ck.analysed('drv_tw')
    n = ints('n')
    for k in (1, 5, 15, 16, 20):
        mem = {('arg', 's'): {i: (R(97 + i), 1) for i in range(k)}}
        mem[('arg', 's')][k] = (R(0), 1)
        r = fold(m, 'drv_tw', mem=mem, handlers=HANDLERS)
        for i in range(16):
            w = R(97 + i) if i < min(k, 15) else R(0)
            same(ck, 'name of %d characters is kept up to 15 and terminated' % k, r.result(('arg', 'nm'), i, 'i8'), w, HDR)
        for i in range(6):
            same(ck, 'wave multiplier', r.result(('arg', 'o'), 4 * i, 'i32'), n[i], HDR)
        same(ck, 'wave speed', r.result(('arg', 'q'), 0), A('arg', 'p'), HDR)
        same(ck, 'wave height', r.result(('arg', 'q'), 8), A('arg', 'h'), HDR)
