"""Signatures and structure traits describe the structure."""
from .. import gen, model as m
from ..engine import Case
from .c16 import kinds
from .common import expected_lengths, pathstr, rng_for
from .trav import decl, mkcases, shapes, split
MIN_EXEC = {"quick": 130, "thorough": 1000}
INC = ('"sigmon.hpp"',)


def parse(text):
    """-> tree like the model's: None+type for scalars: ('S', type) | (d, 'f', n|None, (c,)) | (d, 't', n, cs)"""
    tok = text.split()
    pos = 0

    def rec():
        nonlocal pos
        k = tok[pos]
        if k == "S":
            pos += 2
            return ("S", "scalar", tok[pos - 1])
        d, n = tok[pos + 1], tok[pos + 2]
        pos += 3
        if k == "F":
            return (d, "f", None if n == "?" else int(n), (rec(),))
        return (d, "t", int(n), tuple(rec() for _ in range(int(n))))
    t = rec()
    return t


def shape_diff(got, want, where="-"):
    """compare dimension structure, ignoring static lengths"""
    if got[1] == "scalar":
        return [] if want is None else ["signature ends at [%s], expected dimension %s" % (where, want[0])]
    if want is None:
        return ["signature has dimension %s at [%s], expected none" % (got[0], where)]
    if got[:2] != want[:2] or len(got[3]) != len(want[3]):
        return ["signature has %s at [%s], expected %s" % (got[:3], where, want[:3])]
    for k, (a, b) in enumerate(zip(got[3], want[3])):
        r = shape_diff(a, b, where + "," + got[0] + (str(k) if got[1] == "t" else "*"))
        if r:
            return r
    return []


KEEP = {"Scalar", "Vector", "Tuple", "SetLength", "Rename", "Hoist", "Reorder", "Bcast", "Fix", "Reverse"}


def known(got, want, where="-"):
    """views that do not change a length keep what is known about it"""
    if want is None or got[1] == "scalar":
        return []
    if want[1] == "f" and want[2] is not None and got[2] != want[2]:
        return ["signature does not tell the length %s of %s at [%s]" % (want[2], want[0], where)]
    return [r for k, (a, b) in enumerate(zip(got[3], want[3])) for r in known(a, b, where + "," + got[0] + (str(k) if got[1] == "t" else "*"))][:1]


def any_all(t, d):
    if t is None:
        return False, False
    if t[0] == d:
        return True, True
    r = [any_all(c, d) for c in t[3]]
    return any(x for x, _ in r), all(y for _, y in r)


def check_sig(text, node, evs):
    """static lengths against the lengths the structure really has"""
    g = parse(text)
    r = shape_diff(g, node.sig())
    if r:
        return r
    lens = expected_lengths(node)
    for e in evs:
        f = e.split()
        if f[0] != "L":
            continue
        n = int(f[3])
        if lens.get((f[1], f[2])) != n:
            return ["length of %s at [%s] is %d, expected %s" % (f[2], f[1], n, lens.get((f[1], f[2])))]
        t = g
        for x in ([] if f[1] == "-" else f[1].split(",")):
            t = t[3][int(x[1:])] if t[1] == "t" else t[3][0]
        if t[2] is not None and t[2] != n:
            return ["signature says the length of %s is %d, it is %d at [%s]" % (f[2], t[2], n, f[1])]
    return []


def relabel(t, d):
    if t[1] == "scalar":
        return t
    if t[0] == d:
        return ("~",) + t[1:]
    return t[:3] + (tuple(relabel(c, d) for c in t[3]),)


def body(node):
    t = node.sig()
    ds = [m.q(d) for d in m.tree_dims(t)]
    return "\n\tconst auto s = %s;\n\tvm::sigs<%s>(s);\n" % (node.expr(), ", ".join([m.cpp_tree(t)] + ds))


def check_node(node, evs):
    want = node.sig()
    ds = m.tree_dims(want)
    g, bad = None, []
    els = {}
    for i in m.elements(node):
        els[pathstr(i)] = node.scalar(i).key
    seen = {}
    for e in evs:
        f = e.split()
        if f[0] == "G":
            bad += check_sig(e[2:], node, evs)
            g = parse(e[2:])
            if not bad and kinds(node) <= KEEP:
                bad += known(g, want)
        elif f[0] == "P":
            cube = not hast(want)
            exp = [int(want is None), int(cube), int(want is None), int(cube)]
            if [int(x) for x in f[1:]] != exp:
                bad.append("is_point, is_cube (structure, signature): %s, expected %s" % (f[1:], exp))
        elif f[0] == "T":
            a, b = any_all(want, f[1])
            if [int(x) for x in f[2:]] != [int(a), int(b), int(a)]:
                bad.append("any_accept, all_accept, HasDims of %s: %s, expected %s" % (f[1], f[2:], [a, b, a]))
        elif f[0] == "R":
            if parse(e.split(" ", 2)[2]) != relabel(g, f[1]):
                bad.append("replacing dimension %s gives %s" % (f[1], e))
        elif f[0] == "H":
            if f[1] != "1":
                bad.append("HasDims of all dimensions is false")
        elif f[0] == "E":
            seen[f[1]] = f[2]
            if f[2] != f[3] or els.get(f[1]) != f[2]:
                bad.append("scalar type at [%s] is %s/%s, expected %s" % (f[1], f[2], f[3], els.get(f[1])))
    if set(seen) != set(els):
        bad.append("%d elements seen, %d expected" % (len(seen), len(els)))
    return bad


def hast(t):
    return t is not None and (t[1] == "t" or any(hast(c) for c in t[3]))


def make_trav(sh, node, rng):
    """the signature of a traverser is the one of what it traverses"""
    t = node.sig()
    b = "\t%s\n\tvm::ev(\"G %%s\", vm::sigtext<typename decltype(t)::signature>::get().c_str());\n\tvm::walk<%s>(t.top_struct(), true, [](auto, const std::string &) {});" % (
        decl(node, how=rng.randrange(3)), m.cpp_tree(t))

    def check(n, evs):
        return check_sig(evs[0][2:], n, evs)
    return b, check


def cases(run, shs, n):
    r = rng_for(run, "params")
    out = []
    for sh in shs:
        ps = gen.paramsets(sh, r, n)
        if ps:
            out.append(Case(sh.sid, body(ps[0][0]), [(v, nd) for nd, v in ps], check_node, desc=ps[0][0].expr()))
    return out


def check(run):
    quick = run.tier == "quick"
    run.rule = "random compositions with static and dynamic parameters; the signature and the traits of each are compared with the lengths and types seen at every index; non-trivial = at least two events"
    pool = gen.pool("sig", 260, nlayers=(0, 5), basedims=(1, 3), ptuple=0.3, maxel=120, pstatic=0.65)
    w = dict(span=4, slice=3, step=4, shift=3, reverse=2, join=3, into_blocks_static=2, merge_blocks=2, zcurve=2, into_blocks=1, fix=1, hoist=1, bcast=2)
    st = gen.pool("sigs", 140, weights=w, nlayers=(1, 4), basedims=(1, 2), ptuple=0.25, maxel=120, pstatic=0.95)
    full = []
    full += gen.pool("sigk", 60, weights=dict(hoist=4, reorder=3, rename=3, reverse=3, bcast=3, fix=1), nlayers=(1, 4), basedims=(2, 4), ptuple=0.2, maxel=120, pstatic=0.8)
    # everything known at compile time, in any nesting order
    for k, (need, nl) in enumerate([("merge_blocks", (1, 3)), ("into_blocks_static", (1, 3)), ("into_blocks", (2, 4)), ("zcurve", (1, 3)), ("join", (1, 3)), ("into_blocks_dynamic", (1, 3))]):
        full += gen.pool("sigf%d" % k, 40, weights=dict(w, hoist=3, reorder=1, rename=1, into_blocks_dynamic=2, **({"into_blocks": 4} if need == "into_blocks" else {})), nlayers=nl, basedims=(2, 3), ptuple=0.1, maxel=120, pstatic=1.0, need=(need,))
    pick = lambda p, k: p if k >= len(p) else rng_for(run, "p").sample(p, k)
    cs = cases(run, pick(pool, 40 if quick else 260), 4 if quick else 12) + cases(run, pick(st, 40 if quick else 140), 4 if quick else 8)
    cs += cases(run, pick(full, 48 if quick else 240), 2 if quick else 4)
    cs += mkcases(run, shapes(run, "sigt", 80, 15 if quick else 80), 3 if quick else 8, make_trav)
    run.run_cases(cs, per_tu=6, includes=INC)
