"""Introspection: strides, offsets along a dimension, contiguity, against the geometry."""
from .. import gen, model as m
from ..engine import Case
from .common import pathstr, rng_for
from . import dump
MIN_EXEC = {"quick": 150, "thorough": 800}
INC = ('"intro.hpp"',)


def unpath(p):
    return {} if p == "-" else {x[0]: int(x[1:]) for x in p.split(",")}


class Geo:
    """all elements of a node: index assignment -> offset"""

    def __init__(self, node):
        self.node = node
        self.els = [(i, node.offset(i, {}), node.scalar(i).sz) for i in m.elements(node)]
        self.off = {frozenset(i.items()): o for i, o, _ in self.els}
        self.by = {}

    def line(self, idx, d):
        """[(k, offset)] over the valid values of d with the other indices as in idx"""
        key = (d, frozenset((a, b) for a, b in idx.items() if a != d))
        if key not in self.by:
            out = []
            rest = dict(key[1])
            for k in range(self.maxlen(d)):
                o = self.off.get(frozenset(dict(rest, **{d: k}).items()))
                if o is not None:
                    out.append((k, o))
            self.by[key] = out
        return self.by[key]

    def maxlen(self, d):
        if ("m", d) not in self.by:
            self.by[("m", d)] = max([i[d] + 1 for i, _, _ in self.els if d in i], default=0)
        return self.by[("m", d)]

    def separable(self, d):
        """does moving along d change the offset independently of the other indices?"""
        if ("s", d) not in self.by:
            seen = {}
            ok = True
            for i, _, _ in self.els:
                if d not in i:
                    continue
                ln = self.line(i, d)
                for (k, o), (k2, o2) in zip(ln, ln[1:]):
                    if seen.setdefault((k, k2), o2 - o) != o2 - o:
                        ok = False
                        break
            self.by[("s", d)] = ok
        return self.by[("s", d)]


def kinds(node):
    out = set()

    def rec(n):
        if isinstance(n, m.Node):
            out.add(type(n).__name__)
            for v in vars(n).values():
                rec(v)
        elif isinstance(n, (list, tuple)):
            for v in n:
                rec(v)
    rec(node)
    return out


# structures that keep all elements of the structure below
WHOLE = {"Scalar", "Vector", "Tuple", "SetLength", "Rename", "Hoist", "Reorder", "Reverse", "IntoBlocks", "IntoBlocksDyn", "Bcast"}
LINEAR = {"Scalar", "Vector", "SetLength", "Bcast", "Rename", "Hoist", "Shift", "Slice", "Span", "Step", "Reverse", "Fix", "Join"}
NOSUM = {"Fix", "IntoBlocks", "IntoBlocksDyn", "IntoBlocksStatic"}


def tdims(node):
    out = []

    def rec(t):
        if t is None:
            return
        if t[1] == 't' and t[0] not in out:
            out.append(t[0])
        for c in t[3]:
            rec(c)
    rec(node.sig())
    return out


def body(node):
    t = m.cpp_tree(node.sig())
    ds = ", ".join(m.q(d) for d in m.tree_dims(node.sig()))
    return """
	const auto s = %s;
	%s
	vm::walk<%s>(s, false, [&](auto st, const std::string &path) {
		vmi::all<vmi::DS<%s>, %s>(s, st, path);
		%s
	});
	%s
""" % (node.expr(), "" if "IntoBlocksStatic" in kinds(node) else "vmi::top<%s>(s);" % ds, t, ", ".join(m.q(d) for d in tdims(node)), ds,
       "" if kinds(node) & {"Fix"} else "vmi::none<%s>(s, st, path);" % ", ".join(m.q(d) for d in dump.consumed(node) + ["@"]),
       'vmi::cont(s, noarr::empty_state, "-");' if kinds(node) <= WHOLE else "")


def check_node(node, evs):
    g = Geo(node)
    bad = []
    along = {}
    td = tdims(node)
    for e in evs:
        f = e.split()
        if f[0] in ("S", "S0"):
            idx, d, s = unpath(f[1]), f[2], int(f[3])
            for i in ([idx] if f[0] == "S" else [x[0] for x in g.els if d in x[0]]):
                ln = g.line(i, d)
                for (k, o), (k2, o2) in zip(ln, ln[1:]):
                    if k2 == k + 1 and o2 - o != s:
                        bad.append("stride along %s at [%s] is %d, but the offset goes from %d to %d between indices %d and %d" % (
                            d, f[1], s, o, o2, k, k2))
                        return bad
        elif f[0] == "!N":
            bad.append("introspection along %s, which the structure does not have, is available at [%s]" % (f[2], f[1]))
            return bad
        elif f[0] == "U":
            if kinds(node) <= LINEAR and f[3:] != ["1", "0"]:
                bad.append("uniform along %s at [%s] without and with an index of it: %s, expected 1 and 0" % (f[2], f[1], f[3:]))
                return bad
        elif f[0] == "C" and int(f[2]):
            idx = unpath(f[1])
            iv = sorted({(o, sz) for i, o, sz in g.els if all(i.get(a) == b for a, b in idx.items())})
            end = None
            for o, sz in iv:
                if end is not None and o > end:
                    bad.append("is_contiguous holds at [%s], but bytes %d..%d between elements are not used" % (f[1], end, o))
                    return bad
                end = max(end or 0, o + sz)
        elif f[0] == "A":
            along[(f[1], f[2])] = int(f[3])
    if kinds(node) <= LINEAR:
        have = {tuple(e.split()[1:3]) for e in evs if e.startswith("S ")}
        for i, o, _ in g.els:
            for d in i:
                if (pathstr(i), d) not in have or (pathstr(i), d) not in along:
                    return ["stride or offset along %s of a linear structure is not available at [%s]" % (d, pathstr(i))]
    for i, o, _ in g.els:
        p = pathstr(i)
        for d in i:
            a = along.get((p, d))
            if a is None or d in td or not g.separable(d):
                continue
            ln = g.line(i, d)
            k0, o0 = ln[0]
            a0 = along.get((pathstr(dict(i, **{d: k0}), list(i)), d))
            if a0 is None:
                continue
            if a - a0 != o - o0:
                bad.append("offset along %s at [%s] is %d, at index %d it is %d: the difference should be %d" % (d, p, a, k0, a0, o - o0))
                return bad
        if not (kinds(node) & NOSUM) and all((p, d) in along for d in i):
            s = sum(along[(p, d)] for d in i)
            if s != o:
                bad.append("the offsets along all dimensions at [%s] add up to %d, the offset is %d" % (p, s, o))
                return bad
    return bad


def step_alone(node):
    """no stepped structure with other dimensions (the finding step_other)"""
    out = [True]

    def rec(n):
        if isinstance(n, m.Node):
            if isinstance(n, m.Step) and len(set(m.tree_dims(n.sub.sig()))) > 1:
                out[0] = False
            for v in vars(n).values():
                rec(v)
        elif isinstance(n, (list, tuple)):
            for v in n:
                rec(v)
    rec(node)
    return out[0]


def cases(run, shapes, n):
    r = rng_for(run, "params")
    out = []
    for sh in shapes:
        ps = gen.paramsets(sh, r, n)
        if ps and step_alone(ps[0][0]):
            out.append(Case(sh.sid, body(ps[0][0]), [(v, nd) for nd, v in ps], check_node, desc=ps[0][0].expr()))
    return out


HAND = [("cont_slice", "noarr::scalar<int>() ^ noarr::vector<'i'>(5) ^ noarr::vector<'j'>(3) ^ noarr::slice<'i'>(1, 2)"),
        ("cont_fix", "noarr::scalar<int>() ^ noarr::vector<'i'>(5) ^ noarr::vector<'j'>(3) ^ noarr::fix<'i'>(1)"),
        ("cont_join", "noarr::scalar<int>() ^ noarr::vector<'i'>(3) ^ noarr::vector<'j'>(3) ^ noarr::join<'i', 'j', 'k'>()"),
        ("cont_shift", "noarr::scalar<int>() ^ noarr::vector<'i'>(5) ^ noarr::vector<'j'>(3) ^ noarr::shift<'i'>(2)"),
        ("cont_span", "noarr::scalar<int>() ^ noarr::vector<'i'>(5) ^ noarr::vector<'j'>(3) ^ noarr::span<'i'>(2, 4)")]

STEP = "noarr::scalar<int>() ^ noarr::vector<'i'>(5) ^ noarr::vector<'j'>(8) ^ noarr::step<'j'>(1, 3)"


def hand():
    out = []
    for cid, e in HAND:
        b = """
	const auto s = %s;
	vm::ev("C %%d", (int)noarr::is_contiguous(s, noarr::empty_state));
	noarr::traverser(s).for_each([&](auto st) { vm::ev("O %%zu", vm::num(s | noarr::offset(st))); });
""" % e

        def chk(_, evs):
            offs = sorted(int(x.split()[1]) for x in evs if x[0] == "O")
            if evs[0] == "C 1" and any(b > a + 4 for a, b in zip(offs, offs[1:])):
                return ["is_contiguous claims that a structure with gaps between its elements is contiguous"]
            return []
        out.append(Case(cid, b, [([], None)], chk, desc=e))
    b = """
	const auto s = %s;
	const auto d = (long long)(s | noarr::offset<'i', 'j'>(1, 0)) - (long long)(s | noarr::offset<'i', 'j'>(0, 0));
	vm::ev("D %%lld %%lld", (long long)noarr::stride_along<'i'>(s, noarr::empty_state), d);
""" % STEP
    out.append(Case("step_other", b, [([], None)], lambda _, evs: [
        "stride along i of a structure stepped along j is %s, the offsets are %s apart" % tuple(e.split()[1:]) for e in evs
        if e.split()[1] != e.split()[2]], desc=STEP))
    return out


def check(run):
    quick = run.tier == "quick"
    run.rule = "random structures queried for stride, offset along every dimension at every element, with all other indices fixed and with none; non-trivial = at least two events"
    w = dict(slice=3, shift=3, span=3, reverse=3, rename=3, fix=2, hoist=2, join=3, bcast=2, into_blocks=4,
             into_blocks_dynamic=3, into_blocks_static=3, merge_blocks=3, zcurve=1)
    pool = gen.pool("intro", 250, weights=w, nlayers=(1, 4), basedims=(1, 3), ptuple=0.25, maxel=150, maxlen=5)
    n = 52 if quick else 250
    ps = pool if n >= len(pool) else rng_for(run, "p").sample(pool, n)
    # stepped structures with one dimension only: with more, see the finding step_other
    pool = gen.pool("introstep", 40, weights=dict(slice=2, shift=2, span=2, step=6, reverse=2, rename=1), nlayers=(1, 4), basedims=(1, 1),
                    maxel=150, maxlen=12, need=("step",))
    n = 8 if quick else 40
    ps = ps + (pool if n >= len(pool) else rng_for(run, "p2").sample(pool, n))
    run.run_cases(hand() + cases(run, ps, 6 if quick else 20), per_tu=4, includes=INC)
