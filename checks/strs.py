"""C string functions on partly constant memory (for constant folding)."""
from engine.alg import R, A, Rat, atom_desc
from engine.logic import And, Or, Not, eq, ge, le
from engine.vf import P, isP, ite, AnalysisError
from engine.fold import Dead


def byte(f, p, i):
    v = f.load(P(p[1], p[2] + i), 'i8')
    if isinstance(v, Rat) and v.is_const():
        c = int(v.cval()) & 255
        return R(c - 256 if c > 127 else c)
    if not isinstance(v, Rat):
        raise AnalysisError('byte of unknown value')
    return v


def text(f, p, limit=4096):
    """constant string at p, or None"""
    out = []
    for i in range(limit):
        b = byte(f, p, i)
        if not b.is_const():
            return None
        if b.is_zero():
            return out
        out.append(int(b.cval()))
    return None


def lower(c):
    return c + 32 if 65 <= c <= 90 else c


def equal(f, p, q, n=None, fold=False):
    """formula: the strings at p and q are equal (up to n characters)"""
    conds = []
    i = 0
    while n is None or i < n:
        if i > 4096:
            raise AnalysisError('comparison of unterminated strings')
        a, b = byte(f, p, i), byte(f, q, i)
        if a.is_const() and b.is_const():
            x, y = int(a.cval()), int(b.cval())
            if (lower(x) if fold else x) != (lower(y) if fold else y):
                return False
            if x == 0:
                break
        elif a.is_const() or b.is_const():
            c, v = (int(a.cval()), b) if a.is_const() else (int(b.cval()), a)
            l = lower(c)
            conds.append(Or(eq(v, l), eq(v, l - 32)) if fold and 97 <= l <= 122 else eq(v, c))
            if c == 0:
                break
        else:
            if fold:
                raise AnalysisError('case-insensitive comparison of two unknown strings')
            conds.append(eq(a, b))
            if n is None:
                raise AnalysisError('comparison of two unknown strings')
        i += 1
    return And(*conds) if conds else True


def cmp(fold=False, bounded=False):
    def h(f, I, v):
        n = int(v[2].cval()) if bounded else None
        c = equal(f, v[0], v[1], n, fold)
        return R(0) if c is True else R(1) if c is False else ite(c, R(0), R(1))
    return h


def copy(f, I, v):
    i = 0
    while True:
        b = byte(f, v[1], i)
        f.store(P(v[0][1], v[0][2] + i), b, 1)
        if not b.is_const():
            raise AnalysisError('copy of a string of unknown length')
        if b.is_zero():
            return v[0]
        i += 1


def ncopy(f, I, v):
    n = int(v[2].cval())
    end = False
    for i in range(n):
        b = R(0) if end else byte(f, v[1], i)
        f.store(P(v[0][1], v[0][2] + i), b, 1)
        if not end and not b.is_const():
            # symbolic characters are taken as non-zero (callers say so)
            continue
        end = end or b.is_zero()
    return v[0]


def length(f, I, v):
    t = text(f, v[0])
    if t is None:
        raise AnalysisError('length of an unknown string')
    return R(len(t))


def printf(dst, fmt, size=None):
    def h(f, I, v):
        t = text(f, v[fmt])
        if t is None:
            raise AnalysisError('unknown format')
        args = v[fmt + 1:]
        out = []
        i = 0
        while i < len(t):
            c = t[i]
            if c == 37:
                i += 1
                prec, pad = None, None
                k = i
                while 48 <= t[i] <= 57:
                    i += 1
                if i > k:
                    pad = bytes(t[k:i]).decode()
                if t[i] == 46:
                    i += 1
                    if t[i] == 42:
                        prec, i = int(args.pop(0).cval()), i + 1
                    else:
                        k = i
                        while 48 <= t[i] <= 57:
                            i += 1
                        prec = int(bytes(t[k:i]) or b'0')
                if t[i] == 115:
                    src, k = args.pop(0), 0
                    while prec is None or prec < 0 or k < prec:
                        x = f.load(P(src[1], src[2] + k), 1)
                        if not (isinstance(x, Rat) and x.is_const()):
                            raise AnalysisError('%s of an unknown string')
                        if x.cval() == 0:
                            break
                        out.append(x)
                        k += 1
                elif prec is not None:
                    raise AnalysisError('conversion %%.%s is not modelled' % chr(t[i]))
                elif t[i] == 99:
                    out.append(args.pop(0))
                elif t[i] == 37:
                    out.append(R(37))
                elif t[i] in (100, 105) and isinstance(args[0], Rat) and args[0].is_const():
                    n = int(args.pop(0).cval())
                    n = (n + 2 ** 31) % 2 ** 32 - 2 ** 31
                    out += [R(ord(c)) for c in ('%' + (pad or '') + 'd') % n]
                    pad = None
                else:
                    raise AnalysisError('conversion %%%s is not modelled' % chr(t[i]))
                if pad:
                    raise AnalysisError('field width in a conversion is not modelled')
            else:
                out.append(R(c))
            i += 1
        n = len(out)
        room = int(v[size].cval()) if size is not None else n + 1
        for k, x in enumerate(out[:max(room - 1, 0)]):
            f.store(P(v[dst][1], v[dst][2] + k), x, 1)
        if room:
            f.store(P(v[dst][1], v[dst][2] + min(n, room - 1)), R(0), 1)
        return R(n)
    return h


def isdigit(f, I, v):
    c = And(ge(v[0], 48), le(v[0], 57))
    return R(int(c)) if isinstance(c, bool) else ite(c, R(1), R(0))


def tolower(f, I, v):
    c = And(ge(v[0], 65), le(v[0], 90))
    return (v[0] + 32 if c else v[0]) if isinstance(c, bool) else ite(c, v[0] + 32, v[0])


def toupper(f, I, v):
    c = And(ge(v[0], 97), le(v[0], 122))
    return (v[0] - 32 if c else v[0]) if isinstance(c, bool) else ite(c, v[0] - 32, v[0])


HANDLERS = {'strcmp': cmp(), 'strcasecmp': cmp(True), 'strncmp': cmp(bounded=True), 'strncasecmp': cmp(True, True), 'memcmp': cmp(bounded=True), 'bcmp': cmp(bounded=True),
            'strcpy': copy, 'strncpy': ncopy, 'strlen': length, 'sprintf': printf(0, 1), 'snprintf': printf(0, 2, 1), 'isdigit': isdigit, 'tolower': tolower, 'toupper': toupper,
            '__cxa_allocate_exception': lambda f, I, v: P(('new', 'exc', I.id, 0))}


def const(s):
    """initial memory: a constant string"""
    b = s.encode() + b'\0'
    return {i: (R(c - 256 if c > 127 else c), 1) for i, c in enumerate(b)}
