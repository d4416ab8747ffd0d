"""Z-order merging: bijection, z-order, exactness for every box, at small and at huge lengths."""
import random

from .. import gen, model as m
from ..engine import Case
from ..gen import L, S, Shape
from . import dump
from .common import rng_for
MIN_EXEC = {"quick": 150, "thorough": 600}


def z(dims, d, maxlen, al):
    return L("zcurve", dims=list(dims), d=d, maxlen=maxlen, al=al)


def mult(al, hi):
    return [k for k in range(0, hi + 1, al)]


def core():
    out = []
    k = 0
    for dims, lst in (("ij", [(8, 1), (16, 1), (1024, 1), (16, 2), (16, 4), (8, 8), (16, 16), (2 ** 62, 1), (2 ** 63, 1), (2 ** 31, 2), (64, 32)]),
                      ("ijk", [(8, 1), (16, 2), (8, 4), (8, 8), (2 ** 40, 1), (2 ** 63, 1)]), ("ijkl", [(4, 1), (4, 2), (4, 4), (2 ** 20, 1)])):
        for maxlen, al in lst:
            hi = min(maxlen, {2: 20, 3: 9, 4: 5}[len(dims)])
            hi = max(hi, al)
            c = mult(al, hi)
            if maxlen == al:
                c = [1 << b for b in range(0, hi.bit_length()) if (1 << b) <= hi]
                c = [x for x in c if x % al == 0]
            layers = [L("vector", d=d, cands=c) for d in dims]
            order = list(dims)
            random.Random(k).shuffle(order)
            s = Shape("z%02d" % k, S("short"), layers + [z(order, "z", maxlen, al)], maxlen=hi, maxel=5000)
            k += 1
            s.instantiate(random.Random(k), True, 0.0)
            out.append(s)
    return out


def big():
    """huge boxes: sampled z indices only"""
    out = []
    k = 0
    for dims, maxlen, al in (("ij", 2 ** 31, 1), ("ij", 2 ** 20, 1), ("ij", 2 ** 20, 2 ** 10), ("ij", 2 ** 31, 2 ** 16), ("ij", 2 ** 28, 2 ** 28), ("ij", 2 ** 16, 2 ** 16),
                             ("ijk", 2 ** 20, 1), ("ijk", 2 ** 20, 2 ** 11), ("ijk", 2 ** 18, 2 ** 18), ("ijk", 2 ** 20, 4), ("ijkl", 2 ** 14, 1),
                             ("ijkl", 2 ** 14, 2 ** 8), ("ijkl", 2 ** 14, 2 ** 14), ("ijklm", 2 ** 11, 2 ** 5), ("ij", 2 ** 40, 1)):
        r = random.Random(k + 99)
        if al == maxlen:
            c = [al]
        else:
            c = sorted({al * r.randint(1, max(1, min(maxlen, 2 ** (60 // len(dims))) // al)) for _ in range(30)})
        layers = [L("vector", d=d, cands=c) for d in dims]
        s = Shape("zb%02d" % k, S("char"), layers + [z(dims, "z", maxlen, al)], maxel=None)
        k += 1
        s.instantiate(random.Random(k), True, 0.0)
        out.append(s)
    return out


def check(run):
    quick = run.tier == "quick"
    run.rule = "merge_zcurve over 2 to 5 dimensions with varied length bounds and alignments; non-trivial = at least one event beyond the size"
    pool = gen.pool("zc", 80, weights=dict(zcurve=4, into_blocks=2, slice=1, reverse=1, merge_blocks=1, rename=1, hoist=1), nlayers=(1, 3), ptuple=0.1,
                    basedims=(2, 4), maxlen=6, need=["zcurve"])
    n = 12 if quick else 80
    ps = pool if n >= len(pool) else rng_for(run, "p").sample(pool, n)
    run.run_cases(dump.cases(run, core(), 12 if quick else 60) + dump.cases(run, ps, 8 if quick else 30), per_tu=3)
    run.run_cases(dump.probe_cases(run, big(), 6 if quick else 40, nprobe=64), per_tu=3, sanity=False)
