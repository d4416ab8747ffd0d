"""CUDA traversals: cuda_threads binds dimensions to blocks and threads; cuda_step splits a dimension among a group of threads."""
import random

from .. import model as m
from ..engine import Case
from .c09 import T, alldims_everywhere, dep_order_ok, tuples
from .trav import *
MIN_EXEC = {"quick": 110, "thorough": 900}
INC = ('"cudatrav.hpp"',)
XYZ = "xyz"


def root_const(node):
    """dims present on every path outside of tuple-like ones, whose length is known from the start"""
    tup = tuples(node.sig())
    under = set()

    def rec(t, u):
        if t is None:
            return
        if u:
            under.add(t[0])
        for c in t[3]:
            rec(c, u or t[1] == 't')
    rec(node.sig(), False)
    out = []
    for d in m.tree_dims(node.sig()):
        if d in tup or d in under:
            continue
        try:
            n = node.length(d, {}, {})
        except KeyError:
            n = None
        if n is not None:
            out.append(d)
    return out


def make_threads(sh, node, rng):
    need = needs(sh, node)
    free = [d for d in root_const(node) if not need[d]]
    k = [x for x in (2, 2, 4, 4, 6) if x <= len(free)]
    if not k:
        return None
    ds = rng.sample(free, rng.choice(k))
    p = P(node, "st")
    tree = node.sig()
    common = alldims_everywhere(tree)
    b = ["\t" + decl(node, how=rng.randrange(3))]
    b.append("\tconst auto c = noarr::cuda_threads<%s>(t);" % T(ds))
    b.append('\tconst dim3 g = c.grid_dim(), bl = c.block_dim();\n\tvm::ev("Z %d %u %u %u %u %u %u", int(bool(c)), g.x, g.y, g.z, bl.x, bl.y, bl.z);')
    b.append("\tif (!c) return;\n\tconst auto u = c.inner();")
    b.append("\tvm::launch(g, bl, [&] {\n\t\tconst std::string w = vm::where();")
    b.append('\t\tu.for_each([&](auto st) { vm::ev("V %%s %%s", w.c_str(), %s); });' % p)
    left = [d for d in common if d not in ds]
    need2 = {d: need[d] - set(ds) for d in left}
    o = None
    must = tuples(tree)
    if left and must <= common:
        s = subset(rng, need2, left) | must
        if s <= set(left) and all(need2[d] <= s for d in s):
            o = perm(rng, need2, s)
            if o is not None and not dep_order_ok(tree, ds + o):
                o = None
    if o is not None:
        b.append('\t\tu.template for_dims<%s>([&](auto v) { v.for_each([&](auto st) { vm::ev("D %%s %%s", w.c_str(), %s); }); });' % (T(o), p))
    # views applied after the binding
    h = None
    if not must:
        hs = [d for d in left if not need2[d] and d in root_const(node)]
        if hs:
            h = rng.choice(hs)
            b.append('\t\t(u ^ noarr::hoist<%s>()).for_each([&](auto st) { vm::ev("H %%s %%s", w.c_str(), %s); });' % (m.q(h), p))
    b.append("\t});")

    def check(n, evs):
        tree = n.sig()
        L = [n.length(d, {}, {}) for d in ds]
        g, bl = [1, 1, 1], [1, 1, 1]
        for j in range(0, len(ds), 2):
            g[j // 2], bl[j // 2] = L[j], L[j + 1]
        z = evs[0].split() if evs else []
        on = int(all(L))
        if [int(x) for x in z[1:]] != [on] + g + bl:
            return ["launch shape of cuda_threads<%s>: %s, expected bool %d grid %s block %s" % (", ".join(ds), z[1:], on, g, bl)]
        got = groups(evs[1:])
        if not on:
            return []
        bad = []
        exp = {"V": [], "D": [], "H": []}

        def threads():
            for bz in range(g[2]):
                for by in range(g[1]):
                    for bx in range(g[0]):
                        for tz in range(bl[2]):
                            for ty in range(bl[1]):
                                for tx in range(bl[0]):
                                    yield (bx, by, bz), (tx, ty, tz)
        for B, t in threads():
            w = "%d,%d,%d/%d,%d,%d " % (B + t)
            idx = {}
            for j, d in enumerate(ds):
                idx[d] = (B, t)[j % 2][j // 2]
            rt = m.tree_filter(tree, set(m.tree_dims(tree)) - set(ds))
            exp["V"] += [w + visit(n, i) for i in iterate(n, rt, idx)]
            if o is not None:
                sel = m.tree_filter(rt, set(o))
                for i in iterate(n, m.tree_reorder(sel, o) if o else None, idx):
                    exp["D"] += [w + visit(n, x) for x in iterate(n, rest(rt, {d: i[d] for d in o}), i)]
            if h is not None:
                exp["H"] += [w + visit(n, i) for i in iterate(n, m.tree_hoist(rt, h), idx)]
        what = {"V": "for_each", "D": "for_dims<%s>" % ", ".join(o or []), "H": "hoist<%s>" % h}
        for k in "VDH":
            bad += diff(got.get(k, []), exp[k], "cuda_threads<%s> inner %s" % (", ".join(ds), what[k]))
        # all threads together: every element once
        a = sorted(x.split(" ")[1] for x in got.get("V", []))
        if a != sorted(seq(n)):
            bad += diff(a, sorted(seq(n)), "cuda_threads<%s> all threads together" % ", ".join(ds))
        return bad
    return "\n".join(b), check


def make_step(sh, node, rng):
    ds = [d for d, v in sh.dims.items() if v["kind"] == "f" and v["ops"] and d in m.tree_dims(node.sig())]
    tree = node.sig()
    top = tree[0] if tree and tree[1] == 'f' and tree[0] in ds else None
    if not ds:
        return None
    d = rng.choice(ds)
    p = P(node, "st")
    b = ["\t" + decl(node, how=rng.randrange(3))]
    acts = []
    forms = [("cg", d, "noarr::cuda_step<%s>(cg)" % m.q(d)), ("blk", d, "noarr::cuda_step_block<%s>()" % m.q(d)), ("grid", d, "noarr::cuda_step_grid<%s>()" % m.q(d)),
             ("CG", d, "noarr::cuda_step<%s, cooperative_groups::grid_group>()" % m.q(d)), ("obj", d, "noarr::cuda_step<%s>(cooperative_groups::thread_block())" % m.q(d))]
    if top:
        forms += [("tcg", top, "noarr::cuda_step(cg)"), ("tblk", top, "noarr::cuda_step_block()"), ("tgrid", top, "noarr::cuda_step_grid()"),
                  ("tCG", top, "noarr::cuda_step<cooperative_groups::thread_block>()")]
    forms = rng.sample(forms, min(4, len(forms)))
    b.append("\tconst dim3 g{unsigned(p[np]), unsigned(p[np + 1]), 1}, bl{unsigned(p[np + 2]), unsigned(p[np + 3]), 1};")
    b.append("\tvm::launch(g, bl, [&] {\n\t\tconst std::string w = vm::where();\n\t\tconst vm::group cg{p[np + 4], p[np + 5]};")
    for nm, dd, e in forms:
        how = rng.choice(["t.order(%s)", "(t ^ %s)"])
        b.append('\t\t%s.for_each([&](auto st) { vm::ev("%s %%s %%s", w.c_str(), %s); });' % (how % e, nm, p))
        acts.append((nm, dd))
    b.append("\t});")

    def check(ctx, evs):
        n, (gx, gy, bx, by, r, c) = ctx
        got = groups(evs)
        bad = []
        for nm, dd in acts:
            exp = []
            for j in range(gy):
                for i in range(gx):
                    for y in range(by):
                        for x in range(bx):
                            br, bc = y * bx + x, bx * by
                            rank, cnt = ((r, c) if "cg" in nm else (br, bc) if nm in ("blk", "obj", "tblk", "tCG") else ((j * gx + i) * bc + br, gx * gy * bc))
                            s = m.Step(n, dd, m.V(rank), m.V(cnt))
                            exp += ["%d,%d,0/%d,%d,0 %s" % (i, j, x, y, v) for v in seq(s)]
            bad += diff(got.get(nm, []), exp, "cuda_step %s along %s" % (nm, dd))
            if "cg" not in nm:
                # the group as a whole: every element exactly once per group
                by_group = {}
                for e in got.get(nm, []):
                    w, v = e.split(" ")
                    by_group.setdefault("" if "rid" in nm or nm == "CG" else w.split("/")[0], []).append(v)
                for k, vs in by_group.items():
                    if sorted(vs) != sorted(seq(n)):
                        bad += diff(sorted(vs), sorted(seq(n)), "cuda_step %s, group %s as a whole" % (nm, k))
        return bad
    return "\n".join(b), check


def step_cases(run, shs, npsets):
    out = []
    r = rng_for(run, "group")
    for c in mkcases(run, shs, npsets, make_step):
        c.cid = "s" + c.cid
        c.body = "\tconstexpr std::size_t np = %d;\n%s" % (len(c.psets[0][0]), c.body)
        ps = []
        for v, n in c.psets:
            n_el = len(seq(n))
            g = [r.choice([1, 1, 2]), r.choice([1, 1, 2]), r.choice([1, 2, 3]), r.choice([1, 1, 2])] if n_el < 80 else [1, r.choice([1, 2]), r.choice([1, 2]), 1]
            cnt = r.randint(1, 7)
            g += [r.randrange(cnt), cnt]
            ps.append((list(v) + g, (n, g)))
        c.psets = ps
        out.append(c)
    return out


MATMUL = """
	const std::size_t ni = p[0], nj = p[1], nk = p[2], bs = p[3];
	std::vector<float> am(ni * nj), bm(nj * nk), cm(ni * nk, -1.f), ref(ni * nk);
	for (std::size_t i = 0; i < am.size(); i++) am[i] = float((i * 7 + 3) %% 11);
	for (std::size_t i = 0; i < bm.size(); i++) bm[i] = float((i * 5 + 1) %% 13);
	const auto a = noarr::make_bag(noarr::scalar<float>() ^ %s, am.data());
	const auto b = noarr::make_bag(noarr::scalar<float>() ^ %s, bm.data());
	const auto c = noarr::make_bag(noarr::scalar<float>() ^ %s, cm.data());
	for (std::size_t i = 0; i < ni; i++)
		for (std::size_t k = 0; k < nk; k++) {
			float r = 0;
			for (std::size_t j = 0; j < nj; j++)
				r += a[noarr::idx<'i', 'j'>(i, j)] * b[noarr::idx<'j', 'k'>(j, k)];
			ref[(c.structure() | noarr::offset<'i', 'k'>(i, k)) / sizeof(float)] = r;
		}
	const auto order = %s;
	const auto cu = noarr::cuda_threads<%s>(noarr::traverser(a, b, c).order(order));
	std::size_t writes = 0;
	const auto g = cu.grid_dim(), bl = cu.block_dim();
	vm::ev("M %%d %%u %%u %%u %%u %%u %%u", int(bool(cu)), g.x, g.y, g.z, bl.x, bl.y, bl.z);
	if (cu)
		vm::launch(g, bl, [&, trav = cu.inner()] {
			%s
		});
	std::size_t bad = 0;
	for (std::size_t i = 0; i < ref.size(); i++)
		bad += cm[i] != ref[i];
	vm::ev("R %%zu %%zu %%zu", ref.size(), bad, writes);
"""
ONE = """float result = 0;
			%s.for_each([&result, &a, &b](auto state) { result += a[state] * b[state]; });
			c[%s] = result; writes++;"""
ONE = ONE.replace("(auto state)", "(auto st)").replace("[state]", "[st]")


def check_mat(dyn):
    def check(ctx, evs):
        ni, nj, nk, bs, grid, blk = ctx
        f = evs[0].split()
        on = int(all(grid + blk))
        if [int(x) for x in f[1:]] != [on] + grid + blk:
            return ["matmul launch shape %s, expected %s" % (f[1:], [on] + grid + blk)]
        f = evs[1].split()
        want = [ni * nk, 0, ni * nk]
        if [int(x) for x in f[1:]] != want:
            return ["matmul: size/wrong/written %s, expected %s" % (f[1:], want)]
        return []
    return check


def hand(run, r):
    """the documented kernels: matrix multiplication with blocks that divide the lengths, and dynamic ones that do not"""
    out = []
    q = run.tier == "quick"

    def arr(ds):
        ds = list(ds)
        r.shuffle(ds)
        return " ^ ".join("noarr::vector<'%s'>(n%s)" % (d, d) for d in ds)
    cd = lambda a, b: -(-a // b)
    for v in range(3 if q else 8):
        ps = []
        for _ in range(4 if q else 12):
            bs = r.randint(1, 4)
            i, k = r.randint(1, 4) * bs, r.randint(1, 4) * bs
            ps.append(([i, r.randint(1, 6), k, bs], (i, 0, k, bs, [i // bs, k // bs, 1], [bs, bs, 1])))
        body = MATMUL % (arr("ij"), arr("jk"), arr("ik"), "noarr::into_blocks<'i', 'I', 'i'>(bs) ^ noarr::into_blocks<'k', 'K', 'k'>(bs)", "'I', 'i', 'K', 'k'",
                         ONE % ("trav", "trav"))
        out.append(Case("mat%d" % v, body, ps, check_mat(0), desc="blocked matrix multiplication kernel"))
        ps = []
        for _ in range(4 if q else 12):
            bs = r.randint(1, 5)
            i, k = r.randint(1, 11), r.randint(1, 11)
            ps.append(([i, r.randint(1, 6), k, bs], (i, 0, k, bs, [cd(i, bs), cd(k, bs), 1], [bs, bs, 1])))
        dims = "'r', 's'" if v % 2 == 0 else "'s', 'r'"
        body = MATMUL % (arr("ij"), arr("jk"), arr("ik"), "noarr::into_blocks_dynamic<'i', 'I', 'i', 'r'>(bs) ^ noarr::into_blocks_dynamic<'k', 'K', 'k', 's'>(bs)", "'I', 'i', 'K', 'k'",
                         "trav.template for_dims<%s>([&](auto tr) { %s });" % (dims, ONE % ("tr", "tr")))
        out.append(Case("mad%d" % v, body, ps, check_mat(1), desc="dynamically blocked matrix multiplication kernel"))
    return out


def check(run):
    quick = run.tier == "quick"
    run.rule = "cuda_threads with 2, 4 or 6 bound dimensions and cuda_step with several groups, over random traversers, every block and thread emulated in turn; the documented matrix multiplication kernels; non-trivial = at least two events"
    run.assumptions = ["device code runs as host code, one emulated thread after another: the mapping from threads to elements is judged, not the GPU memory model"]
    r = rng_for(run, "hand")
    cs = hand(run, r)
    a = shapes(run, "cut", 160, 34 if quick else 160, basedims=(2, 4), nlayers=(0, 4), ptuple=0.1, maxel=200)
    cs += mkcases(run, a, 4 if quick else 10, make_threads)
    b = shapes(run, "cus", 100, 15 if quick else 100, basedims=(1, 3), maxel=120)
    cs += step_cases(run, b, 4 if quick else 10)
    run.run_cases(cs, per_tu=3, includes=INC)
