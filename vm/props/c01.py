"""Base layouts: scalars, vectors, arrays, tuples, broadcast: sizes, offsets, non-overlap."""
from .. import gen, model as m
from ..engine import Case
from ..gen import L, S, Shape
from . import dump
from .common import rng_for

MIN_EXEC = {"quick": 200, "thorough": 1000}


def V(d, **k):
    return L("vector", d=d, **k)


def tup(d, *subs, **k):
    return dict({"k": "tuple", "d": d, "subs": [dict(base=b, layers=list(l)) for b, l in subs]}, **k)


def core():
    out = []

    def add(base, *layers, **k):
        out.append(Shape("lay%02d" % len(out), base, list(layers), **k))
    for t in ("char", "short", "int", "double", "b3", "b12", "q16"):
        add(S(t))
        add(S(t), V("i"))
        add(S(t), V("i", spell="array"), V("j"))
        add(S(t), V("i"), V("j", spell="set"), V("k", spell="array"))
    add(S("float"), V("i"), V("j"), V("k"), V("l"), maxlen=4)
    add(S("int"), V("i", hi=40), V("j", hi=9))
    add(S("int"), V("i", spell="array"), V("j", spell="array"), V("k", spell="array"), maxlen=4)
    def tup(d, *subs, **k):       # packed tuples whose array stride need not be a multiple of the alignment
        return dict({"k": "tuple", "d": d, "mixed_ok": True, "subs": [dict(base=b, layers=list(l)) for b, l in subs]}, **k)
    # tuples: array of structures, structure of arrays, nested, ragged
    add(tup("t", (S("double"), []), (S("float"), []), (S("short"), []), (S("char"), [])), V("i"))
    add(tup("t", (S("int"), [V("i")]), (S("int"), [V("i")])))
    add(tup("t", (S("int"), [V("i")]), (S("int"), [V("j")]), (S("int"), [])))
    add(tup("t", (S("b12"), [V("i")]), (S("float"), [V("j"), V("k")]), (S("int"), [])), V("l"), maxlen=4)
    add(tup("t", (tup("a", (S("double"), []), (S("float"), [])), [V("i", spell="array")]), (S("float"), [V("j")])), V("k"), maxlen=4)
    add(tup("t", (tup("a", (S("int"), [V("x")]), (S("int"), [V("y")])), []), (tup("a", (S("int"), []), (S("int"), [])), [V("z")]), (S("int"), [])))
    add(tup("t", (S("char"), [V("i")]), (S("char"), [V("i"), V("j")]), (S("b3"), [V("j"), V("i")])))
    add(tup("t", (S("ll"), [V("i")])), V("j"))
    add(tup("t", (tup("u", (tup("v", (S("int"), []), (S("float"), [V("i")])), []), (S("int"), [V("j")])), []), (S("float"), [V("k")])), V("l"), maxlen=3)
    add(tup("t", (S("int"), []), (S("int"), []), (S("int"), []), (S("int"), []), (S("int"), []), (S("int"), [V("i")])))
    # broadcast dimensions take no room
    add(S("int"), V("i"), L("bcast", d="b"))
    add(S("int"), L("bcast", d="b", spell="set"), V("i"))
    add(tup("t", (S("int"), [L("bcast", d="b")]), (S("int"), [V("i")])), V("j"))
    # partially applied
    add(S("int"), V("i"), V("j"), V("k"), L("fix", d="j"))
    add(tup("t", (S("int"), [V("i")]), (S("int"), [V("i"), V("j")])), V("k"), L("fix", d="t", tup=True))
    add(S("short"), V("i"), V("j"), L("fix", d="i"), L("fix", d="j"))
    import random
    r = random.Random(7)
    good = []
    for s in out:
        s.instantiate(r, True, 0.35)
        if s.instantiate(r) is not None:
            good.append(s)
    assert len(good) == len(out), len(good)
    return out


def mixed_shapes():
    """tuples whose elements need different alignment in ascending order"""
    sub = [
        ("mix0", tup("t", (S("char"), []), (S("int"), []), mixed_ok=True), []),
        ("mix1", tup("t", (S("char"), []), (S("int"), []), (S("char"), []), (S("double"), []), mixed_ok=True), [V("i")]),
        ("mix2", tup("t", (S("char"), [V("i")]), (S("double"), [V("i")]), mixed_ok=True), []),
        ("mix3", tup("t", (S("b3"), [V("i")]), (S("short"), [V("j")]), (S("int"), [V("i"), V("j")]), mixed_ok=True), [V("k")]),
        ("mix4", tup("t", (tup("a", (S("char"), []), (S("short"), []), mixed_ok=True), []), (S("double"), []), mixed_ok=True), [V("i")]),
    ]
    import random
    r = random.Random(3)
    out = []
    for n, b, l in sub:
        s = Shape(n, b, list(l))
        s.instantiate(r, True, 0.3)
        out.append(s)
    return out


def finding_cases(run):
    """a tuple adds no padding: size = sum of the element sizes (documented)"""
    r = rng_for(run, "mixed")
    out = []
    s = mixed_shapes()[0]
    node, vals = s.instantiate(r)
    out.append(Case("tuple_padding", """
	const auto s = %s;
	vm::ev("S %%zu", vm::num(s | noarr::get_size()));
""" % node.expr(), [(vals, node)], lambda n, e: [] if int(e[0].split()[1]) == n.size({}) else [
        "size of pack(char, int) ^ tuple is %s, documented (no padding) %d" % (e[0].split()[1], n.size({}))],
        desc=node.expr(), key="tuple_padding", group="finding"))
    return out


def check(run):
    quick = run.tier == "quick"
    run.rule = ("compositions of scalars, vectors, arrays, (nested, ragged) tuples, broadcasts and fixed dimensions, each executed "
                "with several runtime length sets; non-trivial = at least one element recorded")
    c = core()
    pool = gen.pool("lay", 160, weights=dict(vector=4, bcast=1, fix=1), nlayers=(0, 2), ptuple=0.6, basedims=(1, 3))
    n = 25 if quick else 160
    shapes = c + (rng_for(run, "p").sample(pool, n) if n < len(pool) else pool)
    run.run_cases(dump.cases(run, shapes, 8 if quick else 40), per_tu=5)
    cs = dump.cases(run, mixed_shapes(), 10 if quick else 40, exact=False, inject=True)
    big = gen.pool("big", 40, weights=dict(vector=3, bcast=1, fix=1), nlayers=(0, 1), ptuple=0, basedims=(2, 3), minlen=1,
                   maxlen=70000, pstatic=0.25, maxel=None)
    cs += dump.probe_cases(run, big[:12] if quick else big, 6 if quick else 20)
    cs += finding_cases(run)
    run.run_cases(cs, per_tu=5, sanity=False)
