"""shared by the traverser properties: programs and expected visit sequences"""
import random

from .. import gen, model as m
from ..engine import Case
from .common import pathstr, rng_for

TW = dict(slice=3, shift=2, span=2, step=3, reverse=3, fix=3, rename=2, hoist=4, reorder=3, join=1, into_blocks=4, into_blocks_dynamic=3,
          into_blocks_static=3, merge_blocks=3, zcurve=2, bcast=1)


def split(node):
    """(union base, order layers)"""
    c = node.chain()
    return c[0], c[1:]


def decl(node, var="t", how=0, bags=False):
    """C++ that declares the structures s0.. and the traverser"""
    u, ls = split(node)
    out = []
    names = []
    for k, s in enumerate(u.subs):
        out.append("const auto s%d = %s;" % (k, s.expr()))
        if bags:
            out.append("std::vector<char> mem%d(vm::num(s%d | noarr::get_size()) + 1);" % (k, k))
            out.append("const auto bag%d = noarr::make_bag(s%d, (void *)mem%d.data());" % (k, k, k))
            names.append("bag%d" % k)
        else:
            names.append("s%d" % k)
    e = "noarr::traverser(%s)" % ", ".join(names)
    ps = [l.proto() for l in ls]
    if ps:
        if how == 0:
            e += ".order(%s)" % " ^ ".join(ps)
        elif how == 1:
            e += "".join(".order(%s)" % p for p in ps)
        else:
            e += "".join(" ^ (%s)" % p for p in ps)
    out.append("const auto %s = %s;" % (var, e))
    return "\n\t".join(out)


def odims(node):
    u, _ = split(node)
    return m.tree_dims(u.sig())


def P(node, var):
    """C++: path of a state in the dimensions of the original structures"""
    ds = odims(node)
    return "vm::path<%s>(%s).c_str()" % (", ".join(m.q(d) for d in ds) or "'?'", var)


def visit(node, idx):
    return pathstr(m.orig(node, idx), odims(node))


def seq(node, tree="sig", idx=None):
    """expected sequence of visited states (paths over the original dimensions)"""
    return [visit(node, i) for i in iterate(node, node.sig() if tree == "sig" else tree, idx or {})]


def iterate(node, t, idx):
    """all index assignments of the loops in tree t, starting with idx fixed"""
    if t is None:
        yield dict(idx)
        return
    n = node.length(t[0], idx, {})
    for k in range(n):
        yield from iterate(node, t[3][k] if t[1] == 't' else t[3][0], dict(idx, **{t[0]: k}))


def rest(t, idx):
    """loops left when the dims in idx are fixed"""
    for d, k in idx.items():
        t = m.tree_replace(t, d, lambda n: n[3][k] if n[1] == 't' else n[3][0])
    return t


def hastuple(node):
    def rec(t):
        return t is not None and (t[1] == 't' or any(rec(c) for c in t[3]))
    return rec(node.sig())


def needs(shape, node):
    """dim -> dims that must be iterated outside of it"""
    out = {}

    def rec(t, above):
        if t is None:
            return
        out.setdefault(t[0], set()).update(above)
        for c in t[3]:
            rec(c, above | ({t[0]} if t[1] == 't' else set()))
    rec(node.sig(), set())
    for d, v in shape.dims.items():
        if d in out:
            out[d] |= {x for x in v["deps"] if x in out}
    return out


def subset(rng, need, dims, size=None):
    """a random set of dims closed under need"""
    s = set(rng.sample(dims, rng.randint(0, len(dims)) if size is None else min(size, len(dims))))
    while True:
        n = set(s)
        for d in s:
            n |= need[d]
        if n == s:
            return s
        s = n


def perm(rng, need, ds):
    """a random order of ds in which every dim comes after those it needs"""
    left, out = list(ds), []
    while left:
        c = [d for d in left if not (need[d] & set(left) - {d})]
        if not c:
            return None
        d = rng.choice(c)
        out.append(d)
        left.remove(d)
    return out


def diff(got, want, what):
    if got == want:
        return []
    k = next((j for j, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
    extra = ""
    sg, sw = sorted(got), sorted(want)
    if sg != sw:
        mis = [x for x in want if x not in set(got)]
        dup = [x for x in set(got) if got.count(x) > want.count(x)]
        extra = "; missing %s, extra or repeated %s" % (mis[:3], dup[:3])
    return ["%s: step %d is %s, expected %s (%d steps, %d expected)%s" % (
        what, k, got[k:k + 1], want[k:k + 1], len(got), len(want), extra)]


def groups(evs):
    """events 'K rest' -> {K: [rest]}"""
    out = {}
    for e in evs:
        k, _, r = e.partition(" ")
        out.setdefault(k, []).append(r)
    return out


def shapes(run, name, total, n, **kw):
    kw.setdefault("weights", TW)
    kw.setdefault("trav", (0, 2))
    kw.setdefault("nlayers", (0, 3))
    kw.setdefault("maxel", 220)
    pool = gen.pool(name, total, **kw)
    if n >= len(pool):
        return pool
    return rng_for(run, "pick" + name).sample(pool, n)


def mkcases(run, shs, npsets, make):
    """make(shape, node0, rng) -> (body, check(node, evs)) ; rng is fixed per shape"""
    r = rng_for(run, "params")
    out = []
    for sh in shs:
        ps = gen.paramsets(sh, r, npsets)
        if not ps:
            continue
        fixed = random.Random("shape/" + sh.sid)
        res = make(sh, ps[0][0], fixed)
        if res is None:
            continue
        b, chk = res
        out.append(Case(sh.sid, b, [(v, n) for n, v in ps], chk, desc=ps[0][0].expr()))
    return out
