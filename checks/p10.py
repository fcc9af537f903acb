"""P10: gravity gradient from spherical harmonics."""
from engine.alg import R
from .shops import SH, LOC, grad_spec, check_series


def run(ck):
    ck.rule('series', 'each gradient component is GM/(4 Re^3) times a sum over C(n,m), S(n,m), n<=degree, m<=min(n,order), whose coefficients are the second-derivative formulas of solid harmonics; the matrix is symmetric and no other term contributes')
    sh = SH()
    ck.analysed(sh.f.name)
    offs = {24: 0, 32: 1, 40: 2, 48: 1, 56: 3, 64: 4, 72: 2, 80: 4, 88: 5}
    check_series(ck, sh, 'gradient', offs, sh.GM / (4 * sh.Re * sh.Re * sh.Re), grad_spec)
