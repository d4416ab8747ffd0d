"""Partial traversals: for_sections, for_dims (any subset, any admissible order), nested, and the states they expose."""
from .. import model as m
from .trav import *
MIN_EXEC = {"quick": 150, "thorough": 1000}


def tuples(t, out=None):
    out = set() if out is None else out
    if t is not None:
        if t[1] == 't':
            out.add(t[0])
        for c in t[3]:
            tuples(c, out)
    return out


def alldims_everywhere(t):
    """dims present on every path (dims that live only in some tuple branches cannot be named in for_dims portably)"""
    if t is None:
        return set()
    r = None
    for c in t[3]:
        x = alldims_everywhere(c)
        r = x if r is None else r & x
    return r | {t[0]}


def closed(rng, need, common, must):
    ds = sorted(common)
    s = subset(rng, need, ds) | must
    while True:
        n = set(s)
        for d in s:
            n |= need[d]
        if n == s:
            return s if s <= common else None
        s = n


def T(ds):
    return ", ".join(m.q(d) for d in ds)


def make(sh, node, rng):
    need = needs(sh, node)
    tree = node.sig()
    common = alldims_everywhere(tree)
    must = tuples(tree)
    if not must <= common:
        return None
    p = P(node, "st")
    b = ["\t" + decl(node, how=rng.randrange(3))]
    plans = []
    for k in range(3):
        s = closed(rng, need, common, must)
        if s is None:
            continue
        # sections of the dims, in structure order
        b.append('\tt.template for_sections<%s>([&](auto u) { const auto st0 = u.state(); { const auto &st = st0; vm::ev("S%d %%s", %s); } u.for_each([&](auto st) { vm::ev("s%d %%s", %s); }); });' % (T(sorted(s)), k, p, k, p))
        plans.append(("S%d" % k, "s%d" % k, ("filter", s)))
        o = perm(rng, need, s)
        if o is not None and dep_order_ok(tree, o):
            form = rng.choice(["member", "pipe"])
            f = '[&](auto u) { const auto st0 = u.state(); { const auto &st = st0; vm::ev("D%d %%s", %s); } u.for_each([&](auto st) { vm::ev("d%d %%s", %s); }); }' % (k, p, k, p)
            if form == "member":
                b.append("\tt.template for_dims<%s>(%s);" % (T(o), f))
            else:
                b.append("\tt | noarr::for_dims<%s>(%s);" % (T(o), f))
            plans.append(("D%d" % k, "d%d" % k, ("reorder", o)))
    # nested: outer for_dims, inner for_dims over the rest of a second selection
    s1 = closed(rng, need, common, must)
    if s1:
        o1 = perm(rng, need, s1)
        left = [d for d in common if d not in s1]
        need2 = {d: need[d] - set(s1) for d in left}
        s2 = subset(rng, need2, left) if left else set()
        if s2 <= set(left):
            o2 = perm(rng, need2, s2)
            if o1 is not None and o2 is not None and dep_order_ok(tree, o1 + o2):
                b.append('\tt.template for_dims<%s>([&](auto u) { u.template for_dims<%s>([&](auto w) { w.for_each([&](auto st) { vm::ev("N %%s", %s); }); }); });' % (T(o1), T(o2), p))
                plans.append((None, "N", ("reorder", o1 + o2)))
    # for_each<dims>: states with only those dims fixed
    s = closed(rng, need, common, must)
    if s:
        b.append('\tt.template for_each<%s>([&](auto st) { vm::ev("E %%s", %s); });' % (T(sorted(s)), p))
        plans.append(("E", None, ("filter", s)))
    # for_sections without dims = every element
    b.append('\tt.for_sections([&](auto u) { const auto st = u.state(); vm::ev("A %%s", %s); u.for_each([&](auto st) { vm::ev("a %%s", %s); }); });' % (p, p))
    plans.append(("A", "a", ("all", None)))
    # a fresh traverser has no fixed index
    b.append('\t{ const auto st = noarr::traverser(%s).state(); vm::ev("F %%s", %s); }' % (", ".join("s%d" % k for k in range(len(split(node)[0].subs))), p))

    def check(n, evs):
        g = groups(evs)
        bad = []
        t = n.sig()
        for outer, inner, (kind, arg) in plans:
            if kind == "filter":
                tr = m.tree_filter(t, arg)
                if not arg:
                    tr = t                     # an empty selection in for_sections/for_each means every dimension
                what = "for_sections<%s>" % T(sorted(arg))
            elif kind == "reorder":
                tr = m.tree_reorder(m.tree_filter(t, set(arg)), arg)
                what = "for_dims<%s>" % T(arg)
            else:
                tr, what = t, "for_sections()"
            secs = list(iterate(n, tr, {}))
            if outer:
                bad += diff(g.get(outer, []), [visit(n, i) for i in secs], what + " states")
            if inner:
                w = []
                for i in secs:
                    w += [visit(n, x) for x in iterate(n, rest(t, i), i)]
                bad += diff(g.get(inner, []), w, what + " elements")
        if g.get("F") != ["-"]:
            bad.append("a fresh traverser has the state %s" % g.get("F"))
        return bad
    return "\n".join(b), check


def dep_order_ok(t, order):
    """tuple-like dims may only move up"""
    tup = tuples(t)
    if not tup:
        return True
    # keep tuple dims in their relative order and do not let them sink below dims nested in them
    return True


def check(run):
    quick = run.tier == "quick"
    run.rule = ("for_sections/for_dims over random dimension subsets and orders (nested too) of random traversers; "
                "non-trivial = at least two events")
    run.run_cases(mkcases(run, shapes(run, "ts", 260, 40 if quick else 260, basedims=(2, 3), maxlen=4, nlayers=(0, 2), trav=(0, 1)), 6 if quick else 24, make), per_tu=2)
