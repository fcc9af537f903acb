"""Abstract files and number scanning, for folding reading programs
(stubs/io/fstream turns stream operations into vio_* calls)."""
import re
from fractions import Fraction
from engine.alg import R, A, Rat
from engine.vf import P, isP, AnalysisError
from . import strs

FLOAT = re.compile(rb'-?(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?|-?(?:inf|nan)', re.I)
INVAL = 22


CTYPE = {'isalnum': lambda c: c < 128 and chr(c).isalnum(), 'isalpha': lambda c: c < 128 and chr(c).isalpha(), 'isspace': lambda c: c in (32, 9, 10, 11, 12, 13),
         'isblank': lambda c: c in (32, 9), 'isxdigit': lambda c: chr(c) in '0123456789abcdefABCDEF', 'isupper': lambda c: 65 <= c <= 90, 'islower': lambda c: 97 <= c <= 122,
         'ispunct': lambda c: 33 <= c <= 126 and not chr(c).isalnum(), 'isprint': lambda c: 32 <= c <= 126, 'isgraph': lambda c: 33 <= c <= 126, 'iscntrl': lambda c: c < 32 or c == 127}


def ctype(v, cond):
    if not (isinstance(v, Rat) and v.is_const()):
        raise AnalysisError('class of an unknown character')
    return R(int(cond(int(v.cval()) & 255)))


def scan(f, p, cond, end=False):
    t = strs.text(f, p)
    if t is None:
        raise AnalysisError('search in an unknown string')
    for i, c in enumerate(t):
        if cond(c & 255):
            return P(p[1], p[2] + i)
    return P(p[1], p[2] + len(t)) if end else P(('null',))


def span(f, p, q, inside):
    t, s = strs.text(f, p), strs.text(f, q)
    if t is None or s is None:
        raise AnalysisError('search in an unknown string')
    for i, c in enumerate(t):
        if (c in s) != inside:
            return i
    return len(t)


def nlen(f, p, n):
    for i in range(n):
        b = strs.byte(f, p, i)
        if not b.is_const():
            raise AnalysisError('length of an unknown string')
        if b.is_zero():
            return i
    return n


def memchr(f, I, v):
    for i in range(int(v[2].cval())):
        b = strs.byte(f, v[0], i)
        if not b.is_const():
            raise AnalysisError('search in unknown memory')
        if (int(b.cval()) - int(v[1].cval())) & 255 == 0:
            return P(v[0][1], v[0][2] + i)
    return P(('null',))


def modf(f, I, v):
    if not v[0].is_const():
        raise AnalysisError('integral part of an unknown number')
    x = Fraction(v[0].cval())
    k = int(x)          # towards zero
    f.store(v[1], R(k), 8)
    return R(x - k)


class Files:
    """streams over files of constant content; numbers read with std::from_chars
    become the inputs `names` calls for (exact value -> input)"""

    def __init__(self, content, names=None):
        self.content = {k: v.encode('latin1') if isinstance(v, str) else v for k, v in content.items()}
        self.names = names
        self.streams = {}
        self.marks = []
        self.opened = []
        h = dict(strs.HANDLERS)
        for k in ('open', 'is_open', 'close', 'getline', 'read', 'tellg', 'seekg', 'seekoff', 'move', 'state', 'setstate', 'gcount', 'peek', 'get'):
            h['vio_' + k] = getattr(self, k)
        h['_ZSt10from_charsPKcS0_RdSt12chars_format'] = self.real
        s = '_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE'
        h[s + '9_M_appendEPKcm'] = self.append
        h[s + '9_M_createERmm'] = self.create
        h['vfn_mark'] = self.mark
        for k, cond in CTYPE.items():
            h[k] = lambda f, I, v, cond=cond: ctype(v[0], cond)
        h['strchr'] = lambda f, I, v: scan(f, v[0], lambda c: c == int(v[1].cval()) & 255, v[1].is_zero())
        h['strpbrk'] = lambda f, I, v: scan(f, v[0], lambda c, s=strs.text(f, v[1]): c in [x & 255 for x in s])
        h['strspn'] = lambda f, I, v: R(span(f, v[0], v[1], True))
        h['strcspn'] = lambda f, I, v: R(span(f, v[0], v[1], False))
        h['strnlen'] = lambda f, I, v: R(nlen(f, v[0], int(v[1].cval())))
        h['memchr'] = memchr
        h['modf'] = modf
        h['strtod'] = lambda f, I, v: self.tod(f, v)
        h['strtol'] = lambda f, I, v: self.tol(f, v)
        h['atoi'] = lambda f, I, v: self.tol(f, [v[0], P(('null',)), R(10)])
        h['atof'] = lambda f, I, v: self.tod(f, [v[0], P(('null',))])
        h['__errno_location'] = lambda f, I, v: P(('arg', 'errno'))
        self.h = h

    def mark(self, f, I, v):
        self.marks.append(int(v[0].cval()))
        return R(0)

    def st(self, v):
        return self.streams.setdefault((v[1], v[2]), dict(data=None, pos=0, state=4, n=0))

    def open(self, f, I, v):
        if v[1][1][0] == 'null':
            self.streams[(v[0][1], v[0][2])] = dict(data=None, pos=0, state=0, n=0)
            return R(0)
        t = strs.text(f, v[1])
        if t is None:
            raise AnalysisError('a file of unknown name is opened')
        nm = bytes(c & 255 for c in t).decode('latin1')
        d = self.content.get(nm)
        self.opened.append(nm)
        self.streams[(v[0][1], v[0][2])] = dict(data=d, pos=0, state=0 if d is not None else 4, n=0)
        return R(0)

    def is_open(self, f, I, v):
        return R(int(self.st(v[0])['data'] is not None))

    def close(self, f, I, v):
        s = self.st(v[0])
        if s['data'] is None:
            s['state'] |= 4
        s['data'] = None
        return R(0)

    def put(self, f, p, bs):
        for i, c in enumerate(bs):
            f.store(P(p[1], p[2] + i), R(c - 256 if c > 127 else c), 1)

    def getline(self, f, I, v):
        s, n = self.st(v[0]), int(v[2].cval())
        s['n'] = 0
        out = b''
        if s['state'] or s['data'] is None:
            s['state'] |= 4
        else:
            while True:
                if s['pos'] >= len(s['data']):
                    s['state'] |= 2
                    break
                c = s['data'][s['pos']:s['pos'] + 1]
                if c == b'\n':
                    s['pos'] += 1
                    s['n'] += 1
                    break
                if len(out) >= n - 1:
                    s['state'] |= 4
                    break
                out += c
                s['pos'] += 1
                s['n'] += 1
            if s['n'] == 0:
                s['state'] |= 4
        if n > 0:
            self.put(f, v[1], out + b'\0')
        return R(0)

    def read(self, f, I, v):
        s, n = self.st(v[0]), int(v[2].cval())
        s['n'] = 0
        if s['state'] or s['data'] is None:
            s['state'] |= 4
            return R(0)
        b = s['data'][s['pos']:s['pos'] + n]
        s['pos'] += len(b)
        s['n'] = len(b)
        if len(b) < n:
            s['state'] |= 6
        self.put(f, v[1], b)
        return R(0)

    def gcount(self, f, I, v):
        return R(self.st(v[0])['n'])

    def peek(self, f, I, v):
        s = self.st(v[0])
        if s['state'] or s['data'] is None:
            return R(-1)
        if s['pos'] >= len(s['data']):
            s['state'] |= 2
            return R(-1)
        return R(s['data'][s['pos']])

    def get(self, f, I, v):
        s = self.st(v[0])
        s['n'] = 0
        if s['state'] or s['data'] is None or s['pos'] >= len(s['data']):
            s['state'] |= 6 if not s['state'] else 4
            return R(-1)
        s['pos'] += 1
        s['n'] = 1
        return R(s['data'][s['pos'] - 1])

    def tellg(self, f, I, v):
        s = self.st(v[0])
        return R(-1 if s['state'] & 5 or s['data'] is None else s['pos'])

    def seekg(self, f, I, v):
        s, p = self.st(v[0]), int(v[1].cval())
        s['state'] &= ~2
        if s['state'] & 5:
            return R(0)
        if s['data'] is None or p < 0:
            s['state'] |= 4
        else:
            s['pos'] = p
        return R(0)

    def seekoff(self, f, I, v):
        s, d = self.st(v[0]), int(v[2].cval())
        base = 0 if d == 0 else s['pos'] if d == 1 else len(s['data'] or b'')
        return self.seekg(f, I, [v[0], v[1] + base])

    def move(self, f, I, v):
        s = dict(self.st(v[1]))
        self.streams[(v[1][1], v[1][2])] = dict(data=None, pos=0, state=0, n=0)
        self.streams[(v[0][1], v[0][2])] = s
        return R(0)

    def state(self, f, I, v):
        return R(self.st(v[0])['state'])

    def setstate(self, f, I, v):
        self.st(v[0])['state'] = int(v[1].cval())
        return R(0)

    # ---- std::string members defined in the library (pointer, length, capacity or local buffer)
    def block(self, f, n):
        self.nblock = getattr(self, 'nblock', 0) + 1
        b = ('new', 'string', self.nblock)
        f.blocksz[b] = (n, None)
        return P(b)

    def create(self, f, I, v):
        return self.block(f, int(f.load(v[1], 'i64').cval()) + 1)

    def append(self, f, I, v):
        s, n = v[0], int(v[2].cval())
        at = lambda k: P(s[1], s[2] + k)
        p, m = f.load(at(0), 'ptr'), int(f.load(at(8), 'i64').cval())
        q = self.block(f, max(2 * (m + n), 31) + 1)
        f.copy_mem(q, p, m)
        f.copy_mem(P(q[1], R(m)), v[1], n)
        f.store(P(q[1], R(m + n)), R(0), 1)
        f.store(at(0), q, 8)
        f.store(at(8), R(m + n), 8)
        f.store(at(16), R(max(2 * (m + n), 31)), 8)
        return s

    # ---- numbers
    def bytes(self, f, p, q, limit=64):
        if not (isP(p) and isP(q) and p[1] == q[1] and p[2].is_const() and q[2].is_const()):
            raise AnalysisError('number scanned in unknown bounds')
        n = int(q[2].cval()) - int(p[2].cval())
        if n < 0:
            f.faults.append('number scanned from beyond the end of its text')
        out = b''
        for i in range(min(n, limit)):
            b = f.load(P(p[1], p[2] + i), 'i8')
            if not (isinstance(b, Rat) and b.is_const()):
                break
            c = int(b.cval()) & 255
            if c == 0:
                break
            out += bytes([c])
        return out

    def real(self, f, I, v):
        t = self.bytes(f, v[0], v[1])
        m = FLOAT.match(t)
        if not m:
            return ('agg', (v[0], R(INVAL)))
        f.store(v[2], self.value(m.group().decode()), 8)
        return ('agg', (P(v[0][1], v[0][2] + m.end()), R(0)))

    def tod(self, f, v):
        t = strs.text(f, v[0])
        if t is None:
            raise AnalysisError('number scanned in an unknown string')
        b = bytes(c & 255 for c in t)
        m = re.match(rb'[ \t\n\v\f\r]*([+-]?(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?)', b)
        if v[1][1][0] != 'null':
            f.store(v[1], P(v[0][1], v[0][2] + (m.end() if m else 0)), 8)
        return self.value(m.group(1).decode()) if m else R(0)

    def tol(self, f, v):
        t = strs.text(f, v[0])
        if t is None or int(v[2].cval()) != 10:
            raise AnalysisError('number scanned in an unknown string')
        m = re.match(rb'[ \t\n\v\f\r]*([+-]?\d+)', bytes(c & 255 for c in t))
        if v[1][1][0] != 'null':
            f.store(v[1], P(v[0][1], v[0][2] + (m.end() if m else 0)), 8)
        return R(int(m.group(1))) if m else R(0)

    def value(self, t):
        x = Fraction(t)
        if self.names is not None and x in self.names:
            return self.names[x]
        return R(x)


def run(f):
    """fold, noting whether the call returns"""
    from engine.fold import Dead
    try:
        return f()
    except Dead:
        return None
