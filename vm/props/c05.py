"""Blocking: into_blocks, into_blocks_dynamic, into_blocks_static, merge_blocks, strip_mine(_dynamic)."""
from .. import gen, model as m
from . import dump
from .common import rng_for
from .hand import hand_cases
MIN_EXEC = {"quick": 200, "thorough": 1000}
V1 = "noarr::scalar<int>() ^ noarr::vector<'i'>(p[0])"
V2 = V1 + " ^ noarr::vector<'j'>(p[1])"
W = dict(into_blocks=4, into_blocks_dynamic=3, into_blocks_static=3, merge_blocks=3)


def v1(n):
    return m.Vector(m.Scalar("int"), "i", n)


def h_ib(P):
    b, k = P.rng.randint(1, 6), P.rng.randint(0, 6)
    n = P.add(b * k)
    return m.IntoBlocks(v1(n), "i", "I", "x", P.add(b), None, "short")


def h_ibmaj(P):
    b, k = P.rng.randint(0, 6), P.rng.randint(1, 6)
    n = P.add(b * k)
    return m.IntoBlocks(v1(n), "i", "I", "x", None, P.add(k))


def h_unsized(P):
    """both block lengths set from outside determine the length of the underlying vector"""
    a, b = P(0, 6), P(1, 6)
    return m.IntoBlocks(v1(m.V(a.val * b.val)), "i", "I", "x", b, None, "short")


def h_merge(P):
    a, b = P(0, 5), P(1, 5)
    return m.MergeBlocks(m.Vector(m.Vector(m.Scalar("int"), "i", a), "j", b), "j", "i", "z")


def h_merge2(P):
    a, b = P(0, 5), P(1, 5)
    return m.MergeBlocks(m.Vector(m.Vector(m.Scalar("int"), "i", a), "j", b), "i", "j", "z")


def h_mergeminor(P):
    """merge_blocks with the minor length given: z split back by major = total / minor"""
    b, k = P.rng.randint(1, 6), P.rng.randint(0, 6)
    mn, tot = P.add(b), P.add(b * k)
    return m.MergeBlocks(m.Vector(m.Vector(m.Scalar("int"), "x", mn), "X", m.V(k)), "X", "x", "z")


def h_dyn(P):
    n, b = P(0, 17), P(1, 8)
    return m.IntoBlocksDyn(v1(n), "i", "I", "x", "e", b, None, "short")


def h_dynmaj(P):
    n, b = P(0, 17), P(1, 8)
    return m.IntoBlocksDyn(v1(n), "i", "I", "x", "e", None, b)


def h_stat(P):
    n, b = P(0, 17), P(1, 8)
    return m.IntoBlocksStatic(v1(n), "i", "b", "I", "x", b)


def h_roundtrip(P):
    b, k = P.rng.randint(1, 5), P.rng.randint(0, 5)
    n = P.add(b * k)
    return m.MergeBlocks(m.IntoBlocks(v1(n), "i", "I", "x", P.add(b), None, "short"), "I", "x", "z")


def h_tile(P):
    b, k = P.rng.randint(1, 3), P.rng.randint(0, 3)
    n = P.add(b * k)
    c, l = P.rng.randint(1, 3), P.rng.randint(0, 3)
    mm = P.add(c * l)
    base = m.Vector(v1(n), "j", mm)
    a = m.IntoBlocks(base, "i", "I", "x", P.add(b), None, "short")
    return m.Hoist(m.IntoBlocks(a, "j", "J", "y", P.add(c), None, "short"), ["J", "I", "y", "x"])


def h_strip(P):
    b, k = P.rng.randint(1, 3), P.rng.randint(0, 3)
    n = P.add(b * k)
    base = m.Vector(v1(n), "j", P(0, 3))
    return m.IntoBlocks(base, "i", "I", "x", P.add(b), None, "strip_mine")


def h_stripdyn(P):
    n = P(0, 11)
    base = m.Vector(v1(n), "j", P(0, 3))
    return m.IntoBlocksDyn(base, "i", "I", "x", "e", P(1, 5), None, "strip_mine")


DEFS = [
    ("ib", V1 + " ^ noarr::into_blocks<'i', 'I', 'x'>() ^ noarr::set_length<'x'>(p[1])", h_ib),
    ("ib_auto", V1 + " ^ noarr::into_blocks<'i', 'I', 'x'>(p[1])", h_ib),
    ("ib_major", V1 + " ^ noarr::into_blocks<'i', 'I', 'x'>() ^ noarr::set_length<'I'>(p[1])", h_ibmaj),
    ("ib_unsized", "noarr::scalar<int>() ^ noarr::vector<'i'>() ^ noarr::into_blocks<'i', 'I', 'x'>() ^ noarr::set_length<'I', 'x'>(p[0], p[1])", h_unsized),
    ("mb", V2 + " ^ noarr::merge_blocks<'j', 'i', 'z'>()", h_merge),
    ("mb2", V2 + " ^ noarr::merge_blocks<'i', 'j', 'z'>()", h_merge2),
    ("mb_len", "noarr::scalar<int>() ^ noarr::vector<'x'>(p[0]) ^ noarr::vector<'X'>() ^ noarr::merge_blocks<'X', 'x', 'z'>() ^ noarr::set_length<'z'>(p[1])", h_mergeminor),
    ("mb_len2", "noarr::scalar<int>() ^ noarr::vector<'x'>() ^ noarr::vector<'X'>() ^ noarr::merge_blocks<'X', 'x', 'z'>(p[0]) ^ noarr::set_length<'z'>(p[1])", h_mergeminor),
    ("dyn", V1 + " ^ noarr::into_blocks_dynamic<'i', 'I', 'x', 'e'>(p[1])", h_dyn),
    ("dyn_major", V1 + " ^ noarr::into_blocks_dynamic<'i', 'I', 'x', 'e'>() ^ noarr::set_length<'I'>(p[1])", h_dynmaj),
    ("stat", V1 + " ^ noarr::into_blocks_static<'i', 'b', 'I', 'x'>(p[1])", h_stat),
    ("rtrip", V1 + " ^ noarr::into_blocks<'i', 'I', 'x'>(p[1]) ^ noarr::merge_blocks<'I', 'x', 'z'>()", h_roundtrip),
    ("tile", V2 + " ^ noarr::into_blocks<'i', 'I', 'x'>(p[2]) ^ noarr::into_blocks<'j', 'J', 'y'>(p[3]) ^ noarr::hoist<'J', 'I', 'y', 'x'>()", h_tile),
    ("strip", V2 + " ^ noarr::strip_mine<'i', 'I', 'x'>(p[2])", h_strip),
    ("stripdyn", V2 + " ^ noarr::strip_mine_dynamic<'i', 'I', 'x', 'e'>(p[2])", h_stripdyn),
]


def check(run):
    quick = run.tier == "quick"
    run.rule = ("block views (divisible, with border, with presence dimension, merged) alone and stacked with ranges over base layouts; "
                "non-trivial = at least one event beyond the size")
    pool = gen.pool("blk", 240, weights=dict(W, slice=1, shift=1, reverse=1, rename=1, hoist=1, step=1), nlayers=(1, 4), ptuple=0.2,
                    basedims=(1, 3), maxlen=9, need=list(W))
    single = []
    for k in W:
        single += gen.pool("one" + k, 6, weights={k: 1}, nlayers=(1, 1), ptuple=0, basedims=(1, 2), maxlen=17)
        single += gen.pool("two" + k, 3, weights={k: 1, "into_blocks": 1}, nlayers=(2, 2), ptuple=0.3, basedims=(1, 3), maxlen=12)
    n = 30 if quick else 240
    ps = pool if n >= len(pool) else rng_for(run, "p").sample(pool, n)
    run.run_cases(dump.cases(run, single + ps, 8 if quick else 40), per_tu=5)
    big = gen.pool("bigb", 40, weights=dict(into_blocks=3, merge_blocks=2, slice=1), nlayers=(1, 2), ptuple=0, basedims=(1, 2), minlen=8,
                   maxlen=60000, pstatic=0.2, maxel=None, need=["into_blocks", "merge_blocks"])
    cs = dump.probe_cases(run, big[:12] if quick else big, 6 if quick else 20)
    cs += hand_cases(run, DEFS, 16 if quick else 60)
    run.run_cases(cs, per_tu=5, sanity=False)
