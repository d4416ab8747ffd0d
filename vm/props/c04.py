"""Dimension views: rename, hoist, reorder, join, fix, broadcast, set_length."""
from .. import gen, model as m
from . import dump
from .common import rng_for
from .hand import hand_cases
MIN_EXEC = {"quick": 200, "thorough": 1000}
B = "noarr::scalar<int>() ^ noarr::vector<'i'>(p[0]) ^ noarr::vector<'j'>(p[1]) ^ noarr::vector<'k'>(p[2])"


def base(P, lo=0, hi=4):
    s = m.Scalar("int")
    return m.Vector(m.Vector(m.Vector(s, "i", P(lo, hi)), "j", P(lo, hi)), "k", P(lo, hi))


def square(P, t="int"):
    n = P(0, 5)
    return m.Vector(m.Vector(m.Vector(m.Scalar(t), "i", n), "j", n), "k", P(0, 4))


SQ = "noarr::scalar<int>() ^ noarr::vector<'i'>(p[0]) ^ noarr::vector<'j'>(p[0]) ^ noarr::vector<'k'>(p[1])"
UN = "noarr::scalar<int>() ^ noarr::vector<'i'>() ^ noarr::vector<'j'>() ^ noarr::vector<'k'>(p[1])"

DEFS = [
    ("ren3", B + " ^ noarr::rename<'i', 'j', 'j', 'k', 'k', 'i'>()", lambda P: m.Rename(base(P), [("i", "j"), ("j", "k"), ("k", "i")])),
    ("ren3b", B + " ^ noarr::rename<'k', 'i', 'i', 'k'>() ^ noarr::rename<'i', 'x', 'k', 'i'>()",
     lambda P: m.Rename(m.Rename(base(P), [("k", "i"), ("i", "k")]), [("i", "x"), ("k", "i")])),
    ("hoist3", B + " ^ noarr::hoist<'i', 'k', 'j'>()", lambda P: m.Hoist(base(P), ["i", "k", "j"])),
    ("reord3", B + " ^ noarr::reorder<'j', 'i', 'k'>()", lambda P: m.Reorder(base(P), ["j", "i", "k"])),
    ("join_a", SQ + " ^ noarr::join<'i', 'j'>()", lambda P: m.Join(square(P), "i", "j", "i")),
    ("join_b", SQ + " ^ noarr::join<'j', 'i'>()", lambda P: m.Join(square(P), "j", "i", "j")),
    ("join_n", SQ + " ^ noarr::join<'i', 'j', 'd'>()", lambda P: m.Join(square(P), "i", "j", "d")),
    ("join_nest", SQ + " ^ noarr::hoist<'j'>() ^ noarr::join<'i', 'j', 'd'>() ^ noarr::hoist<'k'>()",
     lambda P: m.Hoist(m.Join(m.Hoist(square(P), ["j"]), "i", "j", "d"), ["k"])),
    ("join_len", UN + " ^ noarr::join<'i', 'j', 'd'>() ^ noarr::set_length<'d'>(p[0])", lambda P: m.Join(square(P), "i", "j", "d")),
    ("setlen2", "noarr::scalar<int>() ^ noarr::vector<'i'>() ^ noarr::vector<'j'>() ^ noarr::set_length<'i', 'j'>(p[0], p[1])",
     lambda P: m.Vector(m.Vector(m.Scalar("int"), "i", P(0, 5)), "j", P(0, 5))),
    ("setlenst", "noarr::scalar<int>() ^ noarr::vector<'i'>() ^ noarr::vector<'j'>() ^ noarr::set_length(noarr::empty_state.with<noarr::length_in<'j'>, noarr::length_in<'i'>>(p[1], p[0]))",
     lambda P: m.Vector(m.Vector(m.Scalar("int"), "i", P(0, 5)), "j", P(0, 5))),
    ("vectors2", "noarr::scalar<int>() ^ noarr::vectors<'i', 'j'>(p[0], p[1])",
     lambda P: m.Vector(m.Vector(m.Scalar("int"), "j", m.V(0, 1)), "i", m.V(0, 0)) if False else _vectors2(P)),
    ("bcast2", "noarr::scalar<int>() ^ noarr::vector<'i'>(p[0]) ^ noarr::bcast<'j', 'k'>(p[1], p[2])", lambda P: _bcast2(P)),
    ("ren_len", "noarr::scalar<int>() ^ noarr::vector<'i'>() ^ noarr::vector<'j'>(p[1]) ^ noarr::rename<'i', 'j', 'j', 'i'>() ^ noarr::set_length<'j'>(p[0])",
     lambda P: m.Rename(m.Vector(m.Vector(m.Scalar("int"), "i", P(0, 5)), "j", P(0, 5)), [("i", "j"), ("j", "i")])),
]


def _vectors2(P):
    a, b = P(0, 5), P(0, 5)
    return m.Vector(m.Vector(m.Scalar("int"), VEC2[0], a if VEC2[0] == "i" else b), VEC2[1], b if VEC2[1] == "j" else a)


VEC2 = ("i", "j")     # vectors<'i','j'> = vector<'i'> ^ vector<'j'>


def _bcast2(P):
    v = m.Vector(m.Scalar("int"), "i", P(0, 5))
    b, c = P(0, 4), P(0, 4)
    return m.Bcast(m.Bcast(v, "j", b), "k", c)


def check(run):
    quick = run.tier == "quick"
    run.rule = "chains of renaming, hoisting, reordering, joining, fixing and broadcasting over base layouts; non-trivial = at least one event beyond the size"
    w = dict(rename=4, hoist=3, reorder=3, join=3, fix=2, bcast=1)
    pool = gen.pool("dim", 240, weights=w, nlayers=(1, 4), ptuple=0.3, basedims=(2, 4), maxlen=4)
    single = []
    for k in w:
        single += gen.pool("one" + k, 4, weights={k: 1}, nlayers=(1, 2), ptuple=0.2, basedims=(2, 3), maxlen=5)
    n = 40 if quick else 240
    ps = pool if n >= len(pool) else rng_for(run, "p").sample(pool, n)
    run.run_cases(dump.cases(run, single + ps, 8 if quick else 30), per_tu=5)
    run.run_cases(hand_cases(run, DEFS, 12 if quick else 40), per_tu=4, sanity=False)
