"""lower_bound_along / lower_bound_at: the least offset along a dimension and an index where it is."""
from .. import gen, model as m
from ..engine import Case
from .c16 import Geo, INC, tdims, unpath
from .common import pathstr, rng_for
MIN_EXEC = {"quick": 150, "thorough": 800}


def body(node):
    t = m.cpp_tree(node.sig())
    ds = ", ".join(m.q(d) for d in m.tree_dims(node.sig()))
    return """
	const auto s = %s;
	vm::walk<%s>(s, false, [&](auto st, const std::string &path) {
		vmi::all<vmi::DS<%s>, %s>(s, st, path);
		vmi::low<%s>(s, st, path);
	});
""" % (node.expr(), t, ", ".join(m.q(d) for d in tdims(node)), ds, ds)


def check_node(node, evs):
    g = Geo(node)
    along, have = {}, set()
    for e in evs:
        f = e.split()
        if f[0] == "A":
            along[(f[1], f[2])] = int(f[3])
        elif f[0] == "B":
            have.add((f[1], f[2]))
    td = tdims(node)
    for i, _, _ in g.els:
        for d in i:
            if d not in td and (pathstr(i), d) not in have:
                return ["lower bound along %s is not available at [%s]" % (d, pathstr(i))]
    for e in evs:
        f = e.split()
        if f[0] not in "BR":
            continue
        idx, d = unpath(f[1]), f[2]
        lo, hi = (0, 1 << 60) if f[0] == "B" else (int(f[3]), int(f[4]))
        val, at = int(f[-2]), int(f[-1])
        if d in td:
            if f[0] == "B" and (val, at) != (0, 0):
                return ["lower bound along the tuple dimension %s is %d at index %d" % (d, val, at)]
            continue
        ln = [(k, o) for k, o in g.line(idx, d) if lo <= k < hi]
        if not ln:
            continue
        what = "along %s at [%s]%s" % (d, f[1], "" if f[0] == "B" else " over indices %d..%d" % (lo, hi))
        if at not in dict(ln):
            return ["lower_bound_at %s is %d, not an index in the range" % (what, at)]
        if dict(ln)[at] != min(o for _, o in ln):
            return ["lower_bound_at %s is %d where the offset is %d, the least offset is %d" % (what, at, dict(ln)[at], min(o for _, o in ln))]
        a = [along.get((pathstr(dict(idx, **{d: k}), list(idx)), d)) for k, _ in ln]
        if None not in a and val != min(a):
            return ["lower_bound_along %s is %d, the least offset_along is %d" % (what, val, min(a))]
    return []


def cases(run, shapes, n):
    r = rng_for(run, "params")
    out = []
    for sh in shapes:
        ps = gen.paramsets(sh, r, n)
        if ps:
            out.append(Case(sh.sid, body(ps[0][0]), [(v, nd) for nd, v in ps], check_node, desc=ps[0][0].expr()))
    return out


def check(run):
    quick = run.tier == "quick"
    run.rule = "stacks of range views, renames, fixes and broadcasts over vectors and tuples; every dimension, every assignment of the others, whole and partial ranges; non-trivial = at least two events"
    w = dict(slice=3, shift=3, span=3, reverse=5, rename=2, fix=1, hoist=1, bcast=1)
    pool = gen.pool("low", 200, weights=w, nlayers=(1, 5), basedims=(1, 2), ptuple=0.2, maxel=100, maxlen=6)
    n = 50 if quick else 200
    ps = pool if n >= len(pool) else rng_for(run, "p").sample(pool, n)
    run.run_cases(cases(run, ps, 8 if quick else 25), per_tu=4, includes=INC)
