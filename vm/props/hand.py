"""hand-written structures: explicit C++ spelling + model builder"""
from .. import model as m
from ..engine import Case
from . import dump
from .common import rng_for


class P:
    """collects runtime values while a model is being built"""

    def __init__(self, rng):
        self.rng, self.values = rng, []

    def __call__(self, lo, hi):
        r = self.rng.random()
        v = lo if r < 0.1 else hi if r < 0.25 else self.rng.randint(lo, hi)
        return self.add(v)

    def add(self, v):
        self.values.append(v)
        return m.V(v, len(self.values) - 1)


def hand_cases(run, defs, n, **kw):
    """defs: [(cid, expr, builder)]"""
    out = []
    for cid, expr, builder in defs:
        r = rng_for(run, "hand" + cid)
        ps = []
        for _ in range(n):
            P_ = P(r)
            node = builder(P_)
            ps.append((P_.values, node))
        node0 = ps[0][1]
        body = dump.body(node0)
        if expr:
            body = body.replace(node0.expr(), expr, 1)
        else:
            expr = node0.expr()
        out.append(Case(cid, body, ps, lambda nd, evs: dump.check(nd, evs, **kw), desc=expr))
    return out
