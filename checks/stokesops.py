"""Operations of the Stokes-coefficient set shared by P04-P06."""
from engine import build
from engine.alg import R, A, atom_desc
from engine.logic import lt, le, ge, eq, And, Not
from engine.vf import ite, mm, isP, P, AnalysisError
from engine.cases import sform, decide_any, contradictory, simplify
from engine.mat import Shape, Op, rebase

HDR = 'include/stokes_coefficients.hpp'
LIB = 'src/lib/stokes_coefficients.cpp'


class NotAMember(AnalysisError):
    pass


class Stokes:
    """field offsets, learned from the accessors"""

    def __init__(self):
        self.m = build.driver('stokes.cpp')
        self.sh = Shape(build.driver('matrix.cpp'), 'LwTriangularColWise')
        m = self.m
        self.dC = self.ptr('drv_Cnm')
        self.dS = self.ptr('drv_Snm')
        self.f = {}
        for k, fn in (('deg', 'drv_maxdeg'), ('ord', 'drv_maxord'), ('GM', 'drv_GM'), ('Re', 'drv_Re'), ('norm', 'drv_norm')):
            r = m.fn(fn).retval()
            self.f[k] = None
            for a in r.atoms() if hasattr(r, 'atoms') else []:
                d = atom_desc(a)
                if d[0] == 'ld' and d[1] == ('arg', 'p'):
                    self.f[k] = (d[2], d[3])
            if k == 'norm' and self.f[k] is None:
                q = m.fn('drv_normr').retval()
                self.f[k] = (q[2], 'i8')
            if self.f[k] is None and hasattr(r, 'is_const') and r.is_const():
                raise NotAMember(fn[4:], r)
            if self.f[k] is None:
                raise AnalysisError('accessor %s not understood: %s' % (fn, r))

    def ptr(self, fn):
        r = self.m.fn(fn).retval()
        if not (isP(r) and r[1] == ('arg', 'p')):
            raise AnalysisError('%s does not return a member: %s' % (fn, r))
        return r[2]

    def pre(self, arg, k):
        off, ty = self.f[k]
        return A('ld', ('arg', arg), off, ty, None)

    def post(self, f, arg, k):
        off, ty = self.f[k]
        return f.final(P(('arg', arg), off), ty)

    def inv(self, arg):
        """class invariant of a dimensioned set"""
        n, o = self.pre(arg, 'deg'), self.pre(arg, 'ord')
        r = [ge(o, 0), le(o, n)]
        for d in (self.dC, self.dS):
            r.append(ge(self.sh.pre(arg, d).rows, n + 1))
        return r

    def op(self, fname, objs, pre=()):
        """objs: arg -> (entry, exit)"""
        O = {}
        for a, (en, ex) in objs.items():
            O[a + '.C'] = (self.sh, a, self.dC, en, ex)
            O[a + '.S'] = (self.sh, a, self.dS, en, ex)
        base = []
        for a, (en, ex) in objs.items():
            if en == 'live':
                base += self.inv(a)
        return Op(self.m, fname, O, list(pre) + base)


def loc_of(o, dflt=HDR):
    for e in o.f.events():
        if HDR in e.loc or LIB in e.loc:
            return e.loc
    return dflt


def element_dom(fs, views, r, c):
    """facts extended by the index-map lemma for every view in which (r,c) is stored"""
    dom = list(fs)
    for pv in views:
        if all(decide_any(dom, g) for g in pv.stored(r, c) if g is not True):
            dom = dom + [x for x in (sform(g, dom) for g in pv.lemma(r, c)) if x is not True]
    return dom
