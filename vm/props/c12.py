"""Parallel reduction: every element accumulated once, into the right output element, without conflicts."""
import os

from .. import model as m
from ..engine import HARNESS, SAN, TSAN
from .trav import *
MIN_EXEC = {"quick": 60, "thorough": 400}
M64 = 1 << 64
MODES, COPIES, FORMS = set(), set(), set()
OPS = {"sum": ("to += w", lambda a, b: (a + b) % M64), "xor": ("to ^= w", lambda a, b: a ^ b), "max": ("to = to < w ? w : to", max)}

PRE = """
struct redlog {
	struct rec { char k; const void *a, *b; std::size_t slot, thread; };
	std::vector<rec> v;
	std::atomic<std::size_t> n{0};
	std::atomic<bool> open{true};
	std::atomic<std::size_t> late{0};
	explicit redlog(std::size_t cap) : v(cap) {}
	void operator()(char k, const void *a, const void *b, std::size_t slot) {
		if (!open.load(std::memory_order_relaxed)) late.fetch_add(1, std::memory_order_relaxed);
		const std::size_t i = n.fetch_add(1, std::memory_order_relaxed);
		if (i < v.size()) v[i] = rec{k, a, b, slot, vmp::tid()};
	}
	void emit(const void *out) {
		open.store(false);
		std::map<const void *, std::size_t> ids;
		ids[nullptr] = 1;
		ids[out] = 0;
		auto id = [&](const void *x) { return ids.emplace(x, ids.size()).first->second; };
		vm::ev("N %zu %zu", n.load(), late.load());
		for (std::size_t i = 0; i < std::min(n.load(), v.size()); i++)
			vm::ev("%c %zu %zu %zu %zu", v[i].k, id(v[i].a), id(v[i].b), v[i].slot, v[i].thread);
	}
};
"""


def flat_dims(t):
    """dims that are plain on every path and not below/within tuple-dependent parts"""
    out = []
    while t is not None and t[1] == 'f':
        out.append(t[0])
        t = t[3][0]
    return out


def make(sh, node, rng):
    tree = node.sig()
    if tree is None or tree[1] == 't':
        return None
    u, _ = split(node)
    need = needs(sh, node)
    base = [d for d in flat_dims(u.sig()) if not sh.dims.get(d, {}).get("deps")]
    # the output: one array, or (below common dimensions) a tuple of two indexed by different subsets
    pick = lambda: rng.sample(base, rng.randint(0, len(base)))
    common = pick()
    brs = [[]]
    if base and rng.random() < 0.4:
        common = [d for d in common if rng.random() < 0.4]
        brs = [[d for d in pick() if d not in common] for _ in range(2)]
        top = tree[0]
        if top in base and top not in common and rng.random() < 0.7:      # in one, or in both
            one = rng.random() < 0.7
            brs = [[d for d in br if d != top] for br in brs]
            brs[0].insert(rng.randint(0, len(brs[0])), top)
            if not one:
                brs[1].insert(rng.randint(0, len(brs[1])), top)
            rng.shuffle(brs)
    ds = common + sum(brs, [])        # one length parameter for each occurrence
    revs = {}

    def arrays(dims, k0):
        vec = ""
        for k, d in enumerate(dims):
            vec += " ^ noarr::vector<%s>(p[np + %d])" % (m.q(d), 3 + k0 + k)
        for k, d in enumerate(dims):
            revs[k0 + k] = rng.random() < 0.25
            if revs[k0 + k]:
                vec += " ^ noarr::reverse<%s>()" % m.q(d)
        return vec
    cvec = arrays(common, 0)
    leaf = "noarr::scalar<std::uint64_t>()"
    if len(brs) == 1:
        osexpr = leaf + cvec
    else:
        v0 = arrays(brs[0], len(common))
        v1 = arrays(brs[1], len(common) + len(brs[0]))
        osexpr = "noarr::pack(%s%s, %s%s) ^ noarr::tuple<'@'>()%s" % (leaf, v0, leaf, v1, cvec)
    op = rng.choice(sorted(OPS))
    raw = rng.random() < 0.4
    b = ["\t" + decl(node, how=rng.randrange(3))]
    b.append("\tvmp::setup(p[np], p[np + 1]);")
    b.append("\tconst auto os = %s;" % osexpr)
    b.append("""	const std::size_t sz = os | noarr::get_size(), cnt = sz / 8;
	std::unique_ptr<std::uint64_t[]> mem(new std::uint64_t[cnt]);
	for (std::size_t k = 0; k < cnt; k++) mem[k] = p[np + 2] ? k * 1000003 + p[np + 2] : 0;
	redlog lg(%d * (cnt + 8) + 8192);
	const auto W = [&](auto st) { return (std::uint64_t)(vm::num(s0 | noarr::offset(st)) * 2654435761u + 12345); };
""" % 40)
    acc = lambda at, base_: "".join(
        "{ auto &to = %s; const auto w = W(st) + %d; vmp::delay(); %s; lg('A', %s, nullptr, &to - (std::uint64_t *)%s); } " % (
            at % ("st" if len(brs) == 1 else "st & noarr::idx<'@'>(noarr::lit<%d>)" % k), k, OPS[op][0], base_, base_) for k in range(len(brs)))
    if raw:
        b.append("""	noarr::tbb_reduce(t,
		[&](auto st, void *o) { auto &to = os | noarr::get_at(o, st); to = 0; lg('Z', o, nullptr, &to - (std::uint64_t *)o); },
		[&](auto st, void *o) { %s},
		[&](auto st, void *l, const void *r) { auto &to = os | noarr::get_at(l, st); const std::uint64_t w = os | noarr::get_at(r, st); %s; lg('J', l, r, &to - (std::uint64_t *)l); },
		os, mem.get());""" % (acc("os | noarr::get_at(o, %s)", "o"), OPS[op][0]))
    else:
        b.append("""	noarr::tbb_reduce(t,
		[&](auto st, auto &o) { auto &to = o[st]; to = 0; lg('Z', o.data(), nullptr, &to - (std::uint64_t *)o.data()); },
		[&](auto st, auto &o) { %s},
		[&](auto st, auto &l, const auto &r) { auto &to = l[st]; const std::uint64_t w = r[st]; %s; lg('J', l.data(), r.data(), &to - (std::uint64_t *)l.data()); },
		noarr::make_bag(os, (void *)mem.get()));""" % (acc("o[%s]", "o.data()"), OPS[op][0]))
    b.append('\tlg.emit(mem.get());')
    b.append('\tfor (std::size_t k = 0; k < cnt; k++) vm::ev("R %llu", (unsigned long long)mem[k]);')

    def lens(n):
        mx = {d: 0 for d in ds}
        for i in iterate(n, n.sig(), {}):
            o = m.orig(n, i)
            for d in ds:
                mx[d] = max(mx[d], o[d] + 1)
        return [mx[d] for d in ds]

    def linear(dims, k0, o, ls):
        pos, st = 0, 1
        for k, d in enumerate(dims):
            x, l = o[d], ls[k0 + k]
            pos += st * (l - 1 - x if revs[k0 + k] else x)
            st *= l
        return pos, st

    def slots(o, ls):
        """the element of each branch that belongs to the indices o"""
        out, base_, k0 = [], 0, len(common)
        for br in brs:
            p, s_ = linear(br, k0, o, ls)
            out.append(base_ + p)
            base_ += s_
            k0 += len(br)
        p, s_ = linear(common, 0, o, ls)
        return [p * base_ + x for x in out], base_ * s_

    def expect(n, ls, init):
        if all(ls):
            N = slots({d: 0 for d in ds}, ls)[1]
        else:
            N = 1
            for l in ls[:len(common)]:
                N *= l
            per, k0 = 0, len(common)
            for br in brs:
                q = 1
                for l in ls[k0:k0 + len(br)]:
                    q *= l
                per += q
                k0 += len(br)
            N *= per
        res = [k * 1000003 + init if init else 0 for k in range(N)]
        acc = [0] * N
        s0 = split(n)[0].subs[0]
        sd = m.tree_dims(s0.sig())
        sect = {}
        clash = False
        top = n.sig()[0]
        for i in iterate(n, n.sig(), {}):
            o = m.orig(n, i)
            w = (s0.offset({a: v for a, v in o.items() if a in sd}, {}) * 2654435761 + 12345) % M64
            for k, pos in enumerate(slots(o, ls)[0]):
                res[pos] = OPS[op][1](res[pos], (w + k) % M64)
                acc[pos] += 1
                if sect.setdefault(pos, i[top]) != i[top]:
                    clash = True
        # the library shares the output when every element of it depends on a dim named like the outermost
        named = top in common or all(top in br for br in brs)
        FORMS.add((len(brs), top in common, sum(top in br for br in brs)))
        return res, acc, clash and named

    def check(ctx, evs):
        n, ls, init = ctx
        res, acc, clash = expect(n, ls, init)
        g = groups(evs)
        bad = diff(g.get("R", []), [str(x) for x in res], "reduction result (%s)" % op)
        total, late = map(int, g["N"][0].split())
        if late:
            bad.append("calls after tbb_reduce returned")
        got = [0] * len(res)
        bufs, neut, join = {}, {}, {}
        for e in evs:
            f = e.split(" ")
            if f[0] not in "ZAJ":
                continue
            a, b_, slot, th = map(int, f[1:])
            if slot >= len(res):
                bad.append("output offset out of range")
                continue
            if f[0] == "A":
                got[slot] += 1
                bufs.setdefault(a, set()).add(th)
                if a and neut.get((a, slot)) != 1:
                    bad.append("accumulated into a private element that was neutralised %s times" % neut.get((a, slot), 0))
                if (a, slot) in join:
                    bad.append("accumulated into a private copy after it was joined")
            elif f[0] == "Z":
                neut[(a, slot)] = neut.get((a, slot), 0) + 1
                if a == 0:
                    bad.append("the output itself was neutralised")
            else:
                join[(b_, slot)] = join.get((b_, slot), 0) + 1
                if a != 0 or b_ == 0:
                    bad.append("joined %d into %d" % (b_, a))
        if got != acc:
            bad.append("accumulations per output element %s, expected %s" % (got[:10], acc[:10]))
        for a in bufs:
            if a == 0:
                continue
            for s in range(len(res)):
                if join.get((a, s)) != 1:
                    bad.append("element %d of a private copy joined %s times" % (s, join.get((a, s), 0)))
                    break
            if len(bufs[a]) > 1:
                bad.append("a private copy used by two threads")
        MODES.add("shared" if 0 in bufs else "private")
        COPIES.add(len([a for a in bufs if a]))
        return bad[:4]
    return "\n".join(b), (lens, expect, check)


def cases(run, name, shs, npsets, cap):
    r = rng_for(run, "sched" + name)
    out = []
    skipped = 0
    for c in mkcases(run, shs, npsets, make):
        lens, expect, chk = c.check
        ps = []
        for v, n in c.psets:
            ls = lens(n)
            init = r.choice([0, 7])
            _, _, clash = expect(n, ls, init)
            if clash:
                skipped += 1          # the strategy decision goes wrong here: known finding, see the cases below
                continue
            ps.append((list(v) + [r.randrange(1, 100000), r.choice([2, 3, 4, 4, 6]), init] + ls, (n, ls, init)))
        if not ps:
            continue
        c.body = "\tconstexpr std::size_t np = %d;\n%s" % (len(c.psets[0][0]), c.body)
        c.psets, c.check, c.prelude = ps, chk, PRE
        out.append(c)
        if len(out) == cap:
            break
    return out


def conflict_cases():
    """the decision to share the output is taken by the name of the outermost dimension only"""
    from ..engine import Case
    out = []
    for cid, s, order, o in [
            ("share_merge", "noarr::scalar<int>() ^ noarr::vector<'j'>(3) ^ noarr::vector<'i'>(4)", "noarr::merge_blocks<'i', 'j', 'i'>()", "noarr::scalar<int>() ^ noarr::vector<'i'>(4)"),
            ("share_rename", "noarr::scalar<int>() ^ noarr::vector<'j'>(3) ^ noarr::vector<'i'>(4)", "noarr::rename<'i', 'j', 'j', 'i'>()", "noarr::scalar<int>() ^ noarr::vector<'j'>(3)"),
            ("share_bcast", "noarr::scalar<int>() ^ noarr::vector<'j'>(3) ^ noarr::vector<'i'>(4)", "noarr::neutral_proto()", "noarr::scalar<int>() ^ noarr::vector<'j'>(3) ^ noarr::bcast<'i'>(4)")]:
        body = """	vmp::setup(1, 1);
	vmtbb::always_split = true;
	const auto s = %s;
	const auto os = %s;
	const auto t = noarr::traverser(s).order(%s);
	std::vector<int> mem(64);
	std::map<const void *, std::size_t> who;
	std::size_t clash = 0, acc = 0;
	noarr::tbb_reduce(t, [&](auto st, auto &o) { o[st] = 0; },
		[&](auto st, auto &o) { acc++; auto &x = o[st]; x += 1; auto r = who.emplace(&x, vmtbb::task); if (&x >= mem.data() && &x < mem.data() + 64 && r.first->second != vmtbb::task) clash++; },
		[&](auto st, auto &l, const auto &r) { l[st] += r[st]; }, noarr::make_bag(os, (void *)mem.data()));
	vmtbb::always_split = false;
	vm::ev("A %%zu", acc); vm::ev("C %%zu", clash);
""" % (s, o, order)

        def chk(_, evs):
            g = groups(evs)
            bad = []
            if g["A"] != ["12"]:
                bad.append("12 elements, %s accumulations" % g["A"])
            if g["C"] != ["0"]:
                bad.append("concurrent tasks share one element of the output without synchronisation")
            return bad
        out.append(Case(cid, body, [([], None)], chk, desc="tbb_reduce over %s ordered by %s into %s" % (s, order, o)))
    return out


def check(run):
    quick = run.tier == "quick"
    run.rule = ("tbb_reduce over random traversers into outputs indexed by random subsets of the dimensions, raw and bag interface, under TSan (stand-in TBB) and "
                "ASan+LSan (real TBB); non-trivial = at least two events")
    run.assumptions = ["the combining operation is associative and commutative", "f_acc accesses the output only at the state it was given"]
    kw = dict(basedims=(1, 3), maxlen=6, nlayers=(0, 2), trav=(0, 2), ptuple=0.05, maxel=60)
    shs = shapes(run, "tr", 240, 34 if quick else 240, **kw)
    inc = ('"par.hpp"',)
    stubf = ["-DVM_STUB", "-fopenmp", "-I" + os.path.join(HARNESS, "tbbstub")]
    run.run_cases(cases(run, "s", shs, 6 if quick else 24, 24 if quick else 999), per_tu=2, includes=inc, flags=TSAN + stubf)
    run.run_cases(conflict_cases(), per_tu=3, includes=inc, flags=SAN + stubf, sanity=False)
    run.run_cases(cases(run, "r", shs, 6 if quick else 24, 8 if quick else 999), per_tu=2, includes=inc, flags=SAN + ["-fopenmp"], libs=["-ltbb"], sanity=False)
    run.notes.update(strategies_seen=sorted(MODES), private_copies_seen=sorted(COPIES), output_forms=["%d branches, outermost dim common %s, in %d branches" % f for f in sorted(FORMS)])
