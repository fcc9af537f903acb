"""P11: point-mass (third-body) perturbation."""
from engine import build
from engine.alg import R, A, fn, rsqrt
from engine.vf import P
from engine.cases import simplify
LOC = 'src/lib/gravity/point_mass_acceleration.cpp'


def run(ck):
    ck.rule('acceleration', 'both overloads return -GM ( s/|s|^3 + rcb/|rcb|^3 ), s = r - rcb')
    ck.rule('jacobian', 'J = -GM ( I/|s|^3 - 3 s s^T/|s|^5 )')
    m = build.driver('sh.cpp')
    r = [A('arg', k) for k in 'xyz']
    q = [A('arg', k) for k in 'abc']
    GM = A('arg', 'GM')
    s = [a - b for a, b in zip(r, q)]
    n2 = lambda v: v[0] * v[0] + v[1] * v[1] + v[2] * v[2]
    S, Q = rsqrt(n2(s)), rsqrt(n2(q))
    S3, Q3 = S * S * S, Q * Q * Q
    S5 = S3 * S * S
    for d in ('pm', 'pmj'):
        f = m.fn('drv_' + d)
        ck.analysed(f.name)
        o = lambda k: f.final(P(('arg', 'o'), R(8 * k)), 'double')
        for k in range(3):
            ck.eq('%s acceleration %s' % ('with partials:' if d == 'pmj' else 'plain:', 'xyz'[k]), [], o(k), -GM * (s[k] / S3 + q[k] / Q3), LOC)
        if d == 'pmj':
            for i in range(3):
                for j in range(3):
                    ck.eq('partial %s%s' % ('xyz'[i], 'xyz'[j]), [], o(3 + 3 * i + j), -GM * ((R(1) if i == j else R(0)) / S3 - 3 * s[i] * s[j] / S5), LOC)
    ck.assumptions += ['exact real arithmetic; r and rcb distinct, rcb nonzero']
