"""helpers shared by the property modules"""
import random

from .. import gen, model as m
from ..engine import Case


def rng_for(run, what):
    return random.Random("%s/%s/%s" % (run.prop, what, run.seed))


def pathstr(idx, order=None):
    ks = order or list(idx)
    s = ",".join("%s%d" % (k, idx[k]) for k in ks if k in idx)
    return s or "-"


def expected_lengths(node, tree=None):
    """the L events the walk must produce: {(path, dim): len}"""
    out = {}

    def rec(t, idx):
        if t is None:
            return
        d = t[0]
        n = node.length(d, idx, {})
        out[(pathstr(idx), d)] = n
        for k in range(n):
            rec(t[3][k] if t[1] == 't' else t[3][0], dict(idx, **{d: k}))
    rec(tree if tree is not None else node.sig(), {})
    return out


def pick(run, core, extra, n_quick, n_thorough):
    """core shapes always, plus a seed-dependent subset of the extra pool"""
    n = n_quick if run.tier == "quick" else n_thorough
    r = rng_for(run, "pick")
    ex = list(extra)
    if n < len(ex):
        ex = r.sample(ex, n)
    return list(core) + ex
