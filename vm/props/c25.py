"""Composition: protos composed first and applied later, stored, reused, applied to packs, with neutral protos in between."""
import copy
import random

from .. import gen, model as m
from ..engine import Case
from .common import expected_lengths, pathstr, rng_for
from .c09 import T
from .trav import P, TW, diff, mkcases, seq, shapes, split
MIN_EXEC = {"quick": 110, "thorough": 800}
INC = ('"vmon.hpp"', '"protomon.hpp"', "<noarr/structures/extra/shortcuts.hpp>")
NEUTRAL = ["noarr::neutral_proto()", "noarr::fix<>()", "noarr::set_length<>()", "noarr::bcast<>()", "noarr::fix(noarr::empty_state)",
           "noarr::set_length(noarr::empty_state)", "noarr::make_proto([](auto s) { return s; })",
           "noarr::make_proto<true>([](auto s) { return s; })"]


def flat(node):
    """root expression (a structure or a pack), list of protos"""
    if node.sub is None:
        if isinstance(node, m.Tuple):
            return "noarr::pack(%s)" % ", ".join(s.expr() for s in node.subs), ["noarr::tuple<%s>()" % m.q(node.d)]
        return node.expr(), []
    r, ps = flat(node.sub)
    return r, ps + [node.proto()]


def rebase(node, f):
    """the same layers over f(root)"""
    if node.sub is None:
        return f(node)
    n = copy.copy(node)
    n.sub = rebase(node.sub, f)
    return n


def bracket(rng, ps, neutral=0.0):
    """a random parenthesisation of the composition of ps"""
    if rng.random() < neutral and not ps[0].startswith("noarr::tuple"):      # a neutral proto takes one structure, not a pack
        x = "(%s)" % rng.choice(NEUTRAL)
        a = bracket(rng, ps, 0)
        return "(%s ^ %s)" % ((x, a) if rng.random() < 0.5 else (a, x))
    if len(ps) == 1:
        return "(%s)" % ps[0]
    k = rng.randint(1, len(ps) - 1)
    return "(%s ^ %s)" % (bracket(rng, ps[:k], neutral), bracket(rng, ps[k:], neutral))


def expected(tag, node, el=True):
    lens = expected_lengths(node)
    out = ["L %s %s %d" % (p, d, n) for (p, d), n in lens.items()]
    dims = m.tree_dims(node.sig())
    for i in m.elements(node):
        out.append("O %s %d %s" % (pathstr(i), node.offset(i, {}), node.scalar(i).key))
    return tag, sorted(out), "S %d" % node.size({})


def blocks(evs):
    out, cur = [], None
    for e in evs:
        if e.startswith("B "):
            cur = (e[2:], [], [])
            out.append(cur)
        elif e[0] in "TP":
            out.append(e)
        elif e[0] == "S":
            cur[2].append(e)
        else:
            cur[1].append(e)
    return [(t, sorted(l), s[0] if s else None) if not isinstance(x, str) else x for x in out for t, l, s in [x if not isinstance(x, str) else ("", [], [])]]


def make(sh, node, rng):
    root, ps = flat(node)
    if not ps:
        return None
    tree = m.cpp_tree(node.sig())
    b, want = [], []

    def say(tag, code, f=lambda n: n, t=None):
        b.append("\t{ const auto r = %s; tell<%s>(\"%s\", r); same(\"%s\", s, r); }" % (code, t or tree, tag, tag))
        want.append((tag, f))
    b.append("\tconst auto s = %s ^ %s;\n\ttell<%s>(\"seq\", s);" % (root, " ^ ".join(ps), tree))
    say("br", "%s ^ %s" % (root, bracket(rng, ps)))
    if len(ps) > 1:
        say("all", "%s ^ (%s)" % (root, " ^ ".join(ps)))
        k = rng.randint(1, len(ps) - 1)
        b.append("\tlayout(%s, %s);" % (bracket(rng, ps[:k]), bracket(rng, ps[k:])))
        want.append("P 1")
        # stored parts, reused, as lvalues
        b.append("\tconst auto pa = %s; auto pb = %s; auto root = %s; const auto mid = root ^ pa;" % (bracket(rng, ps[:k]), bracket(rng, ps[k:]), root))
        say("st1", "mid ^ pb")
        say("st2", "root ^ (pa ^ pb)")
        say("st3", "root ^ pa ^ std::move(pb)")
        say("st4", "std::move(root) ^ pa ^ decltype(pb)(pb)")
    b.append("\tconst auto all = %s;" % bracket(rng, ps))
    say("neu", "%s ^ %s" % (root, bracket(rng, ps, 0.5)))
    say("neu2", "%s ^ %s" % ("(%s ^ %s)" % (root, rng.choice(NEUTRAL)) if "pack" not in root else root, bracket(rng, ps, 0.3)))
    if "pack" not in root:
        say("mp", "%s ^ noarr::make_proto([=](auto x) { return x ^ all; })" % root)
    if isinstance(node.chain()[0], m.Scalar):
        # the same stored proto over another root, and over every structure in a pack
        al = m.SCALARS[node.chain()[0].key][2]      # no padding between the items
        others = [rng.choice([x for x in ("char", "short", "int", "float", "double", "b3", "b12", "q16") if m.SCALARS[x][2] == al]) for _ in range(2)]
        fs = [lambda n, t=t: rebase(n, lambda _: m.Scalar(t)) for t in others]
        roots = ["noarr::scalar<%s>()" % m.SCALARS[t][0] for t in others]
        b.append("\t{ const auto r = %s ^ all; tell<%s>(\"oth\", r); }" % (roots[0], tree))
        want.append(("oth", fs[0]))
        if "#" not in m.tree_dims(node.sig()):
            tup = lambda n: m.Tuple([n, fs[0](n), fs[1](n)], "#")
            ttree = "vm::T<'#', %s, %s, %s>" % (tree, tree, tree)
            pk = "noarr::pack(%s, %s, %s)" % (node.chain()[0].expr(), roots[0], roots[1])

            def pack(tag, code, f=tup, t=ttree):
                b.append("\t{ const auto r = %s; tell<%s>(\"%s\", r); }" % (code, t, tag))
                want.append((tag, f))
            pack("ea1", "%s ^ noarr::to_each(all) ^ noarr::tuple<'#'>()" % pk)
            e = "%s ^ %s ^ noarr::tuple<'#'>()" % (pk, " ^ ".join("noarr::to_each(%s)" % x for x in ps))
            pack("ea2", e)
            # pack of protos over one structure
            j = rng.randint(0, len(ps) - 1)
            prefix = node
            for _ in range(len(ps) - j):
                prefix = prefix.sub
            t2 = m.cpp_tree(prefix.sig())

            def two(n, j=j):
                x = n
                for _ in range(len(ps) - j):
                    x = x.sub
                return m.Tuple([n, x], "#")
            first = ps[:j]
            rest = bracket(rng, ps[j:])
            r0 = root + "".join(" ^ (%s)" % x for x in first)
            pack("pp1", "%s ^ noarr::pack(%s, noarr::neutral_proto()) ^ noarr::tuple<'#'>()" % (r0, rest), two, "vm::T<'#', %s, %s>" % (tree, t2))
            pack("pp2", "%s ^ (noarr::pack(%s, noarr::fix<>()) ^ noarr::tuple<'#'>())" % (r0, rest), two, "vm::T<'#', %s, %s>" % (tree, t2))

    def check(n, evs):
        got = blocks(evs)
        w = [("seq",) + expected("seq", n)[1:]]
        for x in want:
            if isinstance(x, str):
                w.append(x)
                continue
            w.append(expected(x[0], x[1](n)))
            if x[0] not in ("oth", "ea1", "ea2", "pp1", "pp2"):
                w.append("T %s 1" % x[0])
        # constructions with a function in between need not give the same type
        bad = []
        if len(got) != len(w):
            return ["%d blocks of events, expected %d" % (len(got), len(w))]
        for g, x in zip(got, w):
            if g == x or (isinstance(g, str) and g.startswith("T mp")):
                continue
            if isinstance(x, str) or isinstance(g, str):
                bad.append("composition: %s, expected %s" % (g if isinstance(g, str) else g[0], x if isinstance(x, str) else x[0]))
            elif g[2] != x[2]:
                bad.append("%s: size %s, expected %s" % (g[0], g[2], x[2]))
            else:
                d = [e for e in g[1] if e not in set(x[1])][:2], [e for e in x[1] if e not in set(g[1])][:2]
                bad.append("%s: %s, expected %s" % (g[0], d[0], d[1]))
        return bad
    return "\n".join(b), check


def make_trav(sh, node, rng):
    u, ls = split(node)
    if not ls:
        return None
    ps = [l.proto() for l in ls]
    t = "noarr::traverser(%s)" % ", ".join("s%d" % k for k in range(len(u.subs)))
    b = ["\tconst auto s%d = %s;" % (k, s.expr()) for k, s in enumerate(u.subs)]
    forms = [t + " ^ " + bracket(rng, ps), t + ".order(%s)" % bracket(rng, ps, 0.4), t + " ^ " + bracket(rng, ps, 0.5),
             t]
    for p in ps:
        forms[-1] = "(%s ^ (%s))" % (forms[-1], p) if rng.random() < 0.5 else "%s.order(%s)" % (forms[-1], p)
    for k, f in enumerate(forms):
        b.append("\t(%s).for_each([&](auto st) { vm::ev(\"V%d %%s\", %s); });" % (f, k, P(node, "st")))

    def check(n, evs):
        w = seq(n)
        out = []
        for k in range(len(forms)):
            out += diff([e.partition(" ")[2] for e in evs if e.startswith("V%d " % k)], w, "form %d" % k)
        return out
    return "\n".join(b), check


PRES = ["noarr::fix<'a'>(1)", "noarr::reverse<'b'>()", "noarr::rename<'c', 'C'>()", "noarr::hoist<'d'>()", "noarr::bcast<'B'>(2)", "noarr::shift<'e'>(1)",
        "noarr::slice<'f'>(1, 2)", "noarr::span<'g'>(0, 2)", "noarr::step<'h'>(0, 2)", "noarr::into_blocks<'i', 'I'>(2)", "noarr::neutral_proto()", "noarr::fix<>()",
        "noarr::merge_blocks<'j', 'k', 'm'>()", "noarr::into_blocks_dynamic<'l', 'L', 'l', 'p'>(2)", "noarr::strip_mine<'o', 'O'>(2)",
        "noarr::fix<'q', 'r'>(0, 1)", "noarr::join<'s', 't', 'S'>()"]
NONP = ["noarr::vector<'0'>(2)", "noarr::array<'1', 3>()", "noarr::vectors<'2', '3'>(2, 3)", "noarr::vector<'4'>()", "noarr::vector_like<'5'>(noarr::scalar<int>() ^ noarr::vector<'5'>(2))",
        "(noarr::vector<'6'>(2) ^ noarr::fix<'6'>(1))"]
LDIMS = "abcdefghijkloqrstu"


def layouts(k):
    """which compositions may be applied to a bag (whose data they must not rearrange)"""
    r = random.Random("layout/%d" % k)
    b, want = ["\tstd::vector<int> data(12);\n\tconst auto bag = noarr::make_bag(noarr::scalar<int>() ^ noarr::vectors<%s>(%s), (void *)data.data());" % (T(LDIMS), ", ".join("2" for _ in LDIMS))], []
    for j in range(7):
        n = r.randint(1, 4)
        ps = r.sample(PRES, n)
        ok = j % 3 == 0
        if not ok:
            for i in r.sample(range(n), r.choice([1, 1, 1, min(2, n)])):
                ps[i] = r.choice(NONP)
        e = bracket(r, ps)
        b.append("\taccepts(bag, %s);" % e)
        want.append("P %d %d" % (ok, ok))
    for j in range(2):                             # a composition that starts with several structures
        ps = r.sample(PRES, 3)
        bad = r.choice([None, 0, 1, 2])
        if bad is not None:
            ps[bad] = r.choice(NONP)
        b.append("\ttrait(noarr::pack(%s, %s) ^ (%s));" % tuple(ps))
        want.append("P %d" % (bad is None))

    def check(_, evs):
        if len(evs) != len(want):
            return ["%d events, expected %d" % (len(evs), len(want))]
        return ["composition %s: [preserves the layout, accepted by a bag] is %s, expected %s" % (b[1 + j].strip(), g[2:], w[2:])
                for j, (g, w) in enumerate(zip(evs, want)) if g[:len(w)] != w]
    return Case("layout%03d" % k, "\n".join(b), [([], None)], check, desc="layout of compositions")


def check(run):
    quick = run.tier == "quick"
    run.rule = "random compositions in several parenthesisations; non-trivial = at least two events"
    pool = gen.pool("alg", 260, nlayers=(1, 5), basedims=(1, 2), ptuple=0.25, maxel=60)
    n = 34 if quick else 260
    ps = pool if n >= len(pool) else rng_for(run, "p").sample(pool, n)
    cs = mkcases(run, ps, 3 if quick else 8, make)
    cs += [layouts(k) for k in (range(12) if quick else range(80))]
    run.run_cases(cs, per_tu=2, includes=INC + ("<noarr/structures/interop/bag.hpp>",))
    shs = shapes(run, "algt", 160, 30 if quick else 160, trav=(2, 4))
    run.run_cases(mkcases(run, shs, 3 if quick else 8, make_trav), per_tu=5, includes=INC)
