"""Index-range views: shift, slice, span, step, reverse (alone, stacked, under tuples, at huge lengths)."""
from .. import gen, model as m
from . import dump
from .common import rng_for
from .hand import hand_cases
MIN_EXEC = {"quick": 200, "thorough": 1000}
B = "noarr::scalar<int>() ^ noarr::vector<'i'>(p[0]) ^ noarr::vector<'j'>(p[1])"


def base(P, lo=0, hi=7):
    s = m.Scalar("int")
    return m.Vector(m.Vector(s, "i", P(lo, hi)), "j", P(lo, hi))


def L(n, d):
    return n.length(d, {}, {})


def h_shift2(P):
    n = base(P)
    a, b = P(0, L(n, "i")), P(0, L(n, "j"))
    return m.Shift(m.Shift(n, "i", a), "j", b)


def h_rev2(P):
    return m.Reverse(m.Reverse(base(P), "i"), "j")


def h_fix2(P):
    n = base(P, 1)
    a, b = P(0, L(n, "i") - 1), P(0, L(n, "j") - 1)
    return m.Fix(m.Fix(n, "i", a), "j", b)


def h_setlen_shift(P):
    """the length of a shifted unsized vector, set from outside: the vector gets start + length"""
    n0 = P(0, 6)
    st = P(0, 4)
    full = m.V(n0.val + st.val)
    return m.Shift(m.Vector(m.Scalar("int"), "i", full), "i", st)


def h_setlen_rev(P):
    n0 = P(0, 6)
    return m.Reverse(m.Vector(m.Scalar("short"), "i", n0), "i")


def h_symspan(P):
    n = m.Vector(m.Vector(m.Scalar("int"), "i", P(2, 9)), "j", P(2, 9))
    k = P(0, min(L(n, "i"), L(n, "j")) // 2)
    return m.Span(n, "i", k, m.V(L(n, "i") - k.val))


DEFS = [
    ("shift2", B + " ^ noarr::shift<'i', 'j'>(p[2], p[3])", h_shift2),
    ("rev2", B + " ^ noarr::reverse<'i', 'j'>()", h_rev2),
    ("fix2", B + " ^ noarr::fix<'i', 'j'>(p[2], p[3])", h_fix2),
    ("fixst", B + " ^ noarr::fix(noarr::idx<'i', 'j'>(p[2], p[3]))", h_fix2),
    ("setlen_shift", "noarr::scalar<int>() ^ noarr::vector<'i'>() ^ noarr::shift<'i'>(p[1]) ^ noarr::set_length<'i'>(p[0])", h_setlen_shift),
    ("setlen_rev", "noarr::scalar<short>() ^ noarr::vector<'i'>() ^ noarr::reverse<'i'>() ^ noarr::set_length<'i'>(p[0])", h_setlen_rev),
]


def htup(P, mixed=True):
    """a tuple of differently shaped members of one alignment"""
    a = m.Scalar("int")
    b = m.Vector(m.Scalar("float"), "x", P(0, 4))
    c = m.Vector(m.Vector(m.Scalar("u"), "y", P(1, 3)), "x", P(0, 3))
    d = m.Scalar("float")
    return m.Tuple([a, b, c, d], "t")


def V(n):
    return m.V(n)


def tuple_defs():
    """every index-range view on a tuple dimension (static parameters)"""
    out = []

    def add(mk):
        out.append(("tup%02d" % len(out), None, mk))
    for s in range(0, 4):
        add(lambda P, s=s: m.Shift(htup(P), "t", V(s)))
    for s, n in ((0, 2), (1, 2), (2, 2), (1, 3), (2, 1)):
        add(lambda P, s=s, n=n: m.Slice(htup(P), "t", V(s), V(n)))
        add(lambda P, s=s, n=n: m.Span(htup(P), "t", V(s), V(s + n)))
    add(lambda P: m.Slice(htup(P), "t", None, V(3)))
    for s, k in ((0, 2), (1, 2), (0, 3), (2, 3), (1, 4)):
        add(lambda P, s=s, k=k: m.Step(htup(P), "t", V(s), V(k)))
    add(lambda P: m.Reverse(htup(P), "t"))
    add(lambda P: m.Shift(m.Reverse(htup(P), "t"), "t", V(1)))
    add(lambda P: m.Reverse(m.Shift(htup(P), "t", V(1)), "t"))
    add(lambda P: m.Step(m.Reverse(htup(P), "t"), "t", V(1), V(2)))
    add(lambda P: m.Slice(m.Step(htup(P), "t", V(1), V(2)), "t", V(1), V(1)))
    add(lambda P: m.Reverse(m.Span(htup(P), "t", V(1), V(4)), "t"))
    # a vector of tuples, and a tuple dimension below another one
    add(lambda P: m.Reverse(m.Vector(htup(P), "v", P(0, 3)), "t"))
    add(lambda P: m.Shift(m.Vector(htup(P), "v", P(0, 3)), "t", V(2)))
    return out


def check(run):
    quick = run.tier == "quick"
    run.rule = "stacks of index-range views over base layouts with sampled runtime bounds (including empty and full ranges); non-trivial = at least one event beyond the size"
    w = dict(slice=3, shift=3, span=3, step=3, reverse=3)
    pool = gen.pool("rng", 200, weights=w, nlayers=(1, 3), ptuple=0.2, maxlen=9)
    single = []
    for k in w:
        single += gen.pool("one" + k, 5, weights={k: 1}, nlayers=(1, 1), ptuple=0, basedims=(1, 2), maxlen=13)
        single += gen.pool("two" + k, 3, weights={k: 1}, nlayers=(2, 2), ptuple=0.2, basedims=(1, 2), maxlen=13)
    n = 30 if quick else 200
    ps = pool if n >= len(pool) else rng_for(run, "p").sample(pool, n)
    run.run_cases(dump.cases(run, single + ps, 10 if quick else 40), per_tu=5)
    big = gen.pool("bigr", 40, weights=w, nlayers=(1, 3), ptuple=0, basedims=(1, 2), minlen=8, maxlen=3000000, pstatic=0.2, maxel=None)
    cs = dump.probe_cases(run, big[:14] if quick else big, 6 if quick else 20)
    cs += hand_cases(run, DEFS, 12 if quick else 40)
    cs += hand_cases(run, tuple_defs(), 4 if quick else 20)
    run.run_cases(cs, per_tu=5, sanity=False)
