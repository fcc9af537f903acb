"""P08: gravitational acceleration from spherical harmonics."""
from engine.alg import R
from .shops import SH, LOC, acc_spec, check_series


def run(ck):
    ck.rule('series', 'each acceleration component is GM/(2 Re^2) times a sum over C(n,m), S(n,m), n<=degree, m<=min(n,order), whose coefficients are the differentiation formulas of solid harmonics; no other term contributes')
    sh = SH()
    ck.analysed(sh.f.name)
    ck.eq('returns success for admissible arguments', sh.facts, sh.f.retval(), R(0), LOC)
    check_series(ck, sh, 'acceleration', {0: 0, 8: 1, 16: 2}, sh.GM / (2 * sh.Re * sh.Re), acc_spec)
