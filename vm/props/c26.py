"""Structures, traversers and contain are plain data: layout, copying by bytes, evaluation at compile time."""
import random
import re

from .. import gen, model as m
from ..engine import Case
from .c25 import blocks, expected
from .common import rng_for
from .trav import P, decl, diff, mkcases, seq, shapes
MIN_EXEC = {"quick": 150, "thorough": 1000}
INC = ('"plain.hpp"',)


def nparams(text):
    return len(re.findall(r"\bp\[", text))


def distinct(text):
    """no constant occurs twice: two empty subobjects of one type may not share an address, which costs padding"""
    c = re.findall(r"lit<(\d+)>", text) + re.findall(r"array<'.', (\d+)>", text)
    return len(set(c)) == len(c)


def make(sh, node, rng):
    t = m.cpp_tree(node.sig())
    e = node.expr()
    b = """
	auto s = %s;
	traits("s", s);
	const carried c(s);
	const auto s1 = c.get();
	auto s2(s1);
	auto s3(std::move(s2));
	const auto s4 = [](auto x) { auto y = x; return y; }(s3);
	tell<%s>("one", s1);
	tell<%s>("two", s4);
	tell<%s>("old", s);
""" % (e, t, t, t)
    n = nparams(e)

    def check(nd, evs):
        w = "Q s 1111 %d %d" % (n == 0, 8 * n if n else 1)
        e0 = evs[0]
        if n and not distinct(e):
            e0, w = e0.rsplit(" ", 1)[0], w.rsplit(" ", 1)[0]
        bad = [] if e0 == w else ["properties of the structure (standard layout, trivially copyable, destructible, copy and move constructible; empty; size) are %s, expected %s" % (evs[0], w)]
        for g, x in zip(blocks(evs[1:]), [expected(k, nd) for k in ("one", "two", "old")]):
            if g != x:
                bad.append("copy %s: %s, expected %s" % (g[0], ([e for e in g[1] if e not in x[1]][:2], g[2]), ([e for e in x[1] if e not in g[1]][:2], x[2])))
        return bad
    return b, check


def const_cases(run, shs, per):
    """the same parameters as constants: everything the structure says is a constant expression"""
    r = rng_for(run, "const")
    out = []
    for sh in shs:
        for k, (node, vals) in enumerate(gen.paramsets(sh, r, per)):
            t = m.cpp_tree(node.sig())
            K = "K_%s_%d" % (sh.sid, k)
            pre = """
struct %s {
	static constexpr std::size_t p[] = {%s};
	static constexpr auto make() { return %s; }
};
""" % (K, ", ".join(str(v) for v in vals) or "0", node.expr())
            b = """
	constexpr auto s = %s::make();
	constexpr std::size_t n = ccount<%s>(s);
	constexpr auto a = coffsets<%s, n>(s);
	for (std::size_t x : a)
		vm::ev("A %%zu", x);
""" % (K, t, t)

            def check(nd, evs):
                w = ["A %d" % nd.offset(i, {}) for i in m.elements(nd)] + ["A %d" % nd.size({})]
                return diff(evs, w, "offsets computed by the compiler")
            out.append(Case("%s_%d" % (sh.sid, k), b, [(vals, node)], check, prelude=pre, desc=node.expr() + " (constants)"))
    return out


def make_trav(sh, node, rng):
    b = "\t" + decl(node, "t", how=rng.randint(0, 2)) + """
	traits("t", t);
	const carried c(t);
	c.get().for_each([&](auto st) { vm::ev("V %%s", %s); });
""" % P(node, "st")

    def check(n, evs):
        bad = [] if evs[0].startswith("Q t 1111 ") else ["the traverser is not plain data: " + evs[0]]
        return bad + diff([e[2:] for e in evs[1:]], seq(n), "traversal of the copy")
    return b, check


# ---- contain

TYPES = [("char", 1), ("short", 2), ("int", 4), ("float", 4), ("double", 8), ("std::size_t", 8), ("vm::bytes<3>", 3)]


def item(rng, vals, depth=0):
    """(type, maker expression with p[], number of leaves, list of read-outs given an expression, non-empty subtype or None)"""
    r = rng.random()
    if depth < 2 and r < 0.18:
        k = rng.randint(0, 3)
        it = [item(rng, vals, depth + 1) for _ in range(k)]
        ty = "noarr::strict_contain<%s>" % ", ".join(x[0] for x in it)
        mk = "%s{%s}" % (ty, ", ".join(x[1] for x in it))
        reads = [("%%s.template get<%d>()" % i, rd) for i, x in enumerate(it) for rd in [x[2]]]
        ne = [x[3] for x in it if x[3]]
        return ty, mk, reads, ("noarr::strict_contain<%s>" % ", ".join(ne) if ne else None)
    if r < 0.5:
        k = rng.randint(0, 2)
        ty = rng.choice(["nil<%d>" % k, "nil<%d>" % k, "std::integral_constant<std::size_t, %d>" % k, "noarr::scalar<int>", "noarr::state<>"])
        return ty, ty + "()", "empty", None
    ty, sz = rng.choice(TYPES)
    s = len(vals)
    vals.append(sz)
    return ty, "vm::mk<%s>(p[%d])" % (ty, s), ("leaf", s, ty), ty


def walkreads(expr, rd, out):
    if rd == "empty":
        return
    if isinstance(rd, tuple):
        out.append((expr, rd[1], rd[2]))
        return
    for form, r in rd:
        walkreads(form % expr, r, out)


def contain_cases(run, n):
    rng = random.Random("contain/%s" % run.seed)
    out = []
    for k in range(n):
        sz = []
        its = [item(rng, sz) for _ in range(rng.choice([0, 1, 2, 3, 3, 4, 5, 6, 7]))]
        ty = "noarr::strict_contain<%s>" % ", ".join(x[0] for x in its)
        ne = [x[3] for x in its if x[3]]
        reads = []
        for i, x in enumerate(its):
            walkreads("c.template get<%d>()" % i, x[2], reads)
        cut = rng.randint(0, len(its))
        a, b2 = its[:cut], its[cut:]
        mid = rng.randint(0, len(b2))
        parts = [a, b2[:mid], b2[mid:]]
        body = ["\tconst %s c0{%s};" % (ty, ", ".join(x[1] for x in its)) if its else "\tconst %s c0;" % ty,
                "\ttraits(\"c\", std::remove_cvref_t<decltype(c0)>(c0));",
                "\tvm::ev(\"N %%d %%d\", int(sizeof(%s) == sizeof(noarr::strict_contain<%s>)), int(std::tuple_size<%s>::value));" % (ty, ", ".join(ne), ty)]
        for tag, code in [("own", "c0"), ("car", "carried(c0).get()"),
                          ("cat", "noarr::contain_cat(%s)" % ", ".join("noarr::helpers::contain<%s>{%s}" % (", ".join(x[0] for x in q), ", ".join(x[1] for x in q)) for q in parts)),
                          ("cat2", "noarr::contain_cat(%s, noarr::strict_contain<>())" % "c0")]:
            body.append("\t{ const auto c = %s; (void)c;" % code)
            if tag != "own":
                body.append("\tvm::ev(\"Y %%d\", int(std::is_same_v<std::remove_cvref_t<decltype(c)>, %s>));" % ty)
            for e, s, t in reads:
                body.append("\tvm::ev(\"G %d %%d\", int(%s == vm::mk<%s>(p[%d])));" % (s, e, t, s))
            body.append("\t}")
        if its:
            names = ["x%d" % i for i in range(len(its))]
            body.append("\t{ const auto &[%s] = c0; (void)(%s);" % (", ".join(names), "0, " + ", ".join("(void)%s" % x for x in names)))
            for i, x in enumerate(its):
                r2 = []
                walkreads("x%d" % i, x[2], r2)
                for e, s, t in r2:
                    body.append("\tvm::ev(\"G %d %%d\", int(%s == vm::mk<%s>(p[%d])));" % (s, e, t, s))
            body.append("\t}")
        names = re.findall(r"nil<\d>|integral_constant<std::size_t, \d>|noarr::scalar<int>|noarr::state<>", ty)
        if ty.count("strict_contain") > 1 and len(set(names)) < len(names):
            body[2] = body[2].replace("int(sizeof(%s) ==" % ty, "int(sizeof(%s) >=" % ty)
        want = ["N 1 %d" % len(its)]
        g = ["G %d 1" % s for _, s, _ in reads]
        want += g + (["Y 1"] + g) * 3 + (g if its else [])
        empty = not ne

        def check(ctx, evs, want=want, empty=empty):
            bad = [] if evs[0].startswith("Q c 1111 %d " % empty) else ["contain is not plain data: %s" % evs[0]]
            return bad + diff(evs[1:], want, "contents")
        sets = [([rng.randint(1, 2**40) for _ in sz], None) for _ in range(3)]
        out.append(Case("con%03d" % k, "\n".join(body), sets, check, desc=ty))
    return out


def check(run):
    quick = run.tier == "quick"
    run.rule = "random compositions, traversers and contains; non-trivial = at least two events"
    pool = gen.pool("plain", 260, nlayers=(0, 4), basedims=(1, 3), ptuple=0.2, maxel=80)
    n = 40 if quick else 260
    ps = pool if n >= len(pool) else rng_for(run, "p").sample(pool, n)
    run.run_cases(mkcases(run, ps, 4 if quick else 10, make), per_tu=5, includes=INC)
    run.run_cases(const_cases(run, ps[:25] if quick else ps, 1 if quick else 2), per_tu=5, includes=INC)
    run.run_cases(mkcases(run, shapes(run, "plaint", 160, 20 if quick else 160, trav=(0, 3)), 3 if quick else 8, make_trav), per_tu=5, includes=INC)
    run.run_cases(contain_cases(run, 40 if quick else 400), per_tu=10, includes=INC)
