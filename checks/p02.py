"""P02: ownership, capacity and bounds of the coefficient-matrix buffers."""
from engine import build
from .matrixops import all_ops, loc_of, items


def run(ck):
    ck.rule('owner', 'per operation and per branch case: every buffer live on entry or allocated is, on exit, owned by exactly one live object or released exactly once; no access after release')
    ck.rule('capacity', 'inductive class invariant elements <= capacity <= allocation on every exit')
    ck.rule('bounds', 'every element access offset lies in [0, allocation)')
    m = build.driver('matrix.cpp')
    ck.par(lambda c, L: one(c, L, m), items(m))
    ck.assumptions += ['allocation does not fail (new would throw before any state change)', 'distinct live objects own distinct buffers on entry (the invariant re-established on exit)',
                       'operand shapes satisfy the asserted preconditions']


def one(ck, L, m):
    for m, L, sh, name, o, spec in all_ops([L[0]], m, [L[1]]):
        tag = '%s %s' % (L, name)
        loc = loc_of(o)
        ck.analysed(o.f.name)
        o.ownership(ck, tag, loc)
        o.bounds(ck, tag, loc)
