"""Whole traversals: every element exactly once, in the documented order, with states of the original structure."""
from .. import model as m
from .trav import *
MIN_EXEC = {"quick": 150, "thorough": 1000}


def make(sh, node, rng):
    how = rng.randrange(3)
    bags = rng.random() < 0.4
    u = split(node)[0]
    b = ["\t" + decl(node, how=how, bags=bags)]
    full0 = True
    b.append('\tt.for_each([&](auto st) { vm::ev("V %%s", %s); });' % P(node, "st"))
    b.append('\tt.for_each([&](auto st) { vm::ev("O %zu", vm::num(s0 | noarr::offset(st))); });')
    b.append('\tt | [&](auto st) { vm::ev("W %%s", %s); };' % P(node, "st"))
    b.append('\tt | noarr::for_each([&](auto st) { vm::ev("Z %%s", %s); });' % P(node, "st"))
    # a copy, and a traverser obtained by an empty for_dims, behave the same
    nocopy = hastuple(node)
    if not nocopy:
        b.append('\t{ const auto t2 = t; t2.template for_dims<>([&](auto u) { u.for_each([&](auto st) { vm::ev("C %%s", %s); }); }); }' % P(node, "st"))
    if bags:
        for k in range(len(u.subs)):
            b.append("\tt.for_each([&](auto st) { auto &r = bag%d[st]; r = r; vm::ev(\"A%d %%zu\", (std::size_t)((char *)&r - mem%d.data())); });" % (k, k, k))

    def check(n, evs):
        g = groups(evs)
        want = seq(n)
        bad = []
        for k, w in (("V", "for_each"), ("W", "traverser | lambda"), ("Z", "traverser | for_each"), ("C", "copied traverser")):
            if k == "C" and nocopy:
                continue
            bad += diff(g.get(k, []), want, w)
        un = split(n)[0]
        els = list(iterate(n, n.sig(), {}))
        offs = [str(n.offset(i, {})) for i in els]
        bad += diff(g.get("O", []), offs, "offsets during for_each")
        if bags:
            for k, s in enumerate(un.subs):
                sd = m.tree_dims(s.sig())
                w = [str(s.offset({a: v for a, v in m.orig(n, i).items() if a in sd}, {})) for i in els]
                bad += diff(g.get("A%d" % k, []), w, "bag %d accessed during for_each" % k)
        return bad
    return "\n".join(b), check


def check(run):
    quick = run.tier == "quick"
    run.rule = ("traversers over one to three structures (including tuples and blocked structures) with random order() chains; "
                "non-trivial = at least two events")
    run.run_cases(mkcases(run, shapes(run, "tv", 300, 50 if quick else 300), 8 if quick else 30, make), per_tu=3)
