"""Mangling: the text of a structure is C++ source that denotes the same structure (type, and parameters with mangle_expr)."""
import random

from .. import gen, model as m
from ..engine import Case
from .common import rng_for
MIN_EXEC = {"quick": 100, "thorough": 600}
INC = ('"mangle.hpp"',)
SCAL = ("char", "short", "int", "float", "double", "ll", "uchar", "u", "u16", "u64")
EXACT = {"short", "int", "float", "double", "uchar", "u", "u16", "u64"}     # others are spelled as a fixed-width type of the same size

HAND = [
    ("big_static", "noarr::scalar<int>() ^ noarr::vector<'i'>() ^ noarr::set_length<'i'>(noarr::lit<5000000000>)", [[]]),
    ("big_static2", "noarr::scalar<int>() ^ noarr::array<'i', 2147483648>() ^ noarr::vector<'j'>(noarr::lit<18446744073709551615u>)", [[]]),
    ("big_dyn", "noarr::scalar<float>() ^ noarr::vector<'i'>(p[0]) ^ noarr::vector<'j'>(p[1])",
     [[(1 << 64) - 1, 0], [1 << 63, (1 << 63) - 1], [10**19, 9999999999], [10, 100], [9, 99], [1 << 32, (1 << 32) - 1]]),
    ("lens", "noarr::scalar<float>() ^ noarr::vector<'i'>() ^ noarr::slice<'i'>(p[0], p[1]) ^ noarr::vector<'j'>() ^ noarr::step<'j'>(p[0], p[2])", [[3, 1000, 20], [0, 1, 1]]),
    ("zlevels", "noarr::scalar<int>() ^ noarr::vector<'i'>() ^ noarr::vector<'j'>() ^ noarr::merge_zcurve<'i', 'j', 'k'>::maxlen_alignment<1024, 4>() ^ noarr::vector<'l'>(p[0])", [[3]]),
    ("longdouble", "noarr::scalar<long double>() ^ noarr::vector<'i'>(p[0])", [[3], [30]]),
]


INTS = [("std::int8_t", 8, True), ("short", 16, True), ("int", 32, True), ("long", 64, True),
        ("std::uint8_t", 8, False), ("std::uint16_t", 16, False), ("unsigned", 32, False), ("std::size_t", 64, False)]


def ints(r, n):
    """plain integers, as contained in structures"""
    out = []
    for t, w, sg in INTS:
        vals = [0, 9, 10, 99, 100, (1 << w) - 1, (1 << w) - 5, (1 << w) - 10, 1 << w - 1, (1 << w - 1) - 1, (1 << w - 1) + 1]
        vals = [v % (1 << w) for v in vals] + [r.randrange(1 << r.randint(1, w)) for _ in range(n)]
        ps = []
        for v in sorted(set(vals)):
            x = v - (1 << w) if sg and v >> w - 1 else v
            ps.append(([v], "%sint%d_t{%d}" % ("" if sg else "u", w, x)))
        out.append(Case("int_" + t.replace(":", ""), "\n\tvm::ev(\"B %%s\", noarr::mangle_expr<std::string>((%s)p[0]).c_str());\n\tvm::ev(\"B %%s\", noarr::mangle_expr<vm::sink>((%s)p[0]).s.c_str());\n" % (t, t), ps,
                        lambda want, evs: ["integer mangled as %s, expected %s" % (e[2:], want) for e in evs if e[2:] != want][:1], desc="mangle_expr of " + t))
    return out


def first(evs):
    a = {e[2:] for e in evs if e[0] == "A"}
    b = {e[2:] for e in evs if e[0] == "B"}
    if len(a) != 1 or len(b) != 1:
        return ["the forms of the mangled name differ: %s" % sorted(a | b)]
    if not b.pop().startswith(a.pop() + "{"):
        return ["mangle_expr does not start with the mangled type"]
    return []


def stage1(items):
    """items: (cid, expr, psets, ctx) -> Cases that also remember the texts"""
    texts = {}
    out = []
    for cid, e, vals, _ in items:
        def chk(ctx, evs, cid=cid):
            bad = first(evs)
            if not bad:
                texts[(cid, ctx)] = (evs[0][2:], [e for e in evs if e[0] == "B"][0][2:])
            return bad
        out.append(Case(cid, "\n\tconst auto s = %s;\n\tvm::names(s);\n" % e, [(v, k) for k, v in enumerate(vals)], chk, desc=e, key="1 " + cid))
    return out, texts


def stage2(items, texts):
    out = []
    for cid, e, vals, (exact, geo) in items:
        ks = [k for k in range(len(vals)) if (cid, k) in texts]
        if not ks:
            continue
        b = []
        for k in ks:
            ty, ex = texts[(cid, k)]
            b.append("""	if (p[0] == %d) {
		const std::size_t p[] = {%s};
		const auto s = %s;
		using namespace noarr;
		using namespace std;
		using type = %s;
		const auto t = %s;
		vm::same<%s, type>(s, t);
	}""" % (k, ", ".join("%du" % v for v in vals[k] + [0]), e, ty, ex, "true" if geo else "false"))

        def chk(ctx, evs, cid=cid, exact=exact, geo=geo):
            bad = []
            for x in evs:
                f = x.split()
                if f[0] == "T" and (f[2] != "1" or (exact and f[1] != "1")):
                    bad.append("the mangled text does not denote the type of the structure: %s" % texts[(cid, ctx)][0])
                elif f[0] == "E" and x[2:] != texts[(cid, ctx)][1]:
                    bad.append("the mangled text read back mangles to %s, not to %s" % (x[2:], texts[(cid, ctx)][1]))
                elif f[0] == "Z" and f[1] != f[2]:
                    bad.append("the structure denoted by the mangled text has size %s, not %s: %s" % (f[2], f[1], texts[(cid, ctx)][1]))
                elif f[0] == "G" and (f[1] != f[2] or f[3] != "1"):
                    bad.append("the structure denoted by the mangled text has other elements: %s" % texts[(cid, ctx)][1])
            return bad
        out.append(Case(cid, "\n" + "\n".join(b), [([k], k) for k in ks], chk, desc="text of " + e, key="2 " + cid))
    return out


def check(run):
    run.spell = ("ints",)       # only dimensions that are characters can be mangled
    quick = run.tier == "quick"
    run.rule = "random structures of all kinds and extreme parameters; their mangled texts are compiled again and compared in type, size and all offsets; non-trivial = at least two events"
    pool = gen.pool("mang", 200, nlayers=(0, 4), basedims=(1, 3), ptuple=0.35, maxel=100, scalars=SCAL)
    n = 36 if quick else 200
    ps = pool if n >= len(pool) else rng_for(run, "p").sample(pool, n)
    r = rng_for(run, "params")
    items = [(c, e, v, (True, False)) for c, e, v in HAND]
    for sh in ps:
        q = gen.paramsets(sh, r, 3 if quick else 8)
        if q:
            e = q[0][0].expr()
            items.append((sh.sid, e, [v for _, v in q], ("scalar<char>" not in e and "scalar<long long>" not in e, True)))
    cs, texts = stage1(items)
    run.run_cases(cs + ints(r, 8 if quick else 60), per_tu=8, includes=INC)
    run.run_cases(stage2(items, texts), per_tu=4, includes=INC)
