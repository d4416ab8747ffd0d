"""Traverser ranges and iterators behave as random-access views of the section sequence."""
from .. import model as m
from .trav import *
from .c09 import alldims_everywhere, tuples
MIN_EXEC = {"quick": 150, "thorough": 1000}


def make(sh, node, rng):
    tree = node.sig()
    if tree is None or tree[1] == 't':
        return None
    top = tree[0]
    need = needs(sh, node)
    nslots = 0
    p = P(node, "st")
    cand = [d for d in sorted(alldims_everywhere(tree)) if not need[d] and d not in tuples(tree)]
    # a dim others depend on (dynamic blocks) is fine: its index gets fixed
    d2 = rng.choice(cand)
    Q = "p[np + %d]"
    show = 'auto show = [&](const char *k, auto u) { const auto st0 = u.state(); { const auto &st = st0; vm::ev("%%s %%s", k, %s); } u.for_each([&](auto st) { vm::ev("%%s. %%s", k, %s); }); };' % (p, p)
    b = ["\t" + decl(node, how=rng.randrange(3)), "\tconst std::size_t np = %d;" % NPMARK, "\t" + show]
    b.append('\tfor (auto u : t) show("a", u);')
    b.append('\tvm::ev("len %td", t.end() - t.begin());')
    b.append("\tconst auto r = t.range();")
    b.append('\tvm::ev("size %zu %d %d", r.size(), (int)r.empty(), (int)r.is_divisible());')
    b.append('\tfor (auto it = r.begin(); it != r.end(); ++it) show("b", *it);')
    b.append('\tfor (auto it = r.cend(); it > r.cbegin();) { --it; show("c", *it); }')
    b.append('\tfor (std::size_t k = 0; k < r.size(); k++) show("d", r[k]);')
    b.append("\tr.for_each([&](auto st) { vm::ev(\"e %%s\", %s); });" % p)
    # random access arithmetic
    b.append("""	{
		const auto n = (std::ptrdiff_t)r.size();
		if (n > 0) {
			const std::ptrdiff_t i = (std::ptrdiff_t)(p[np] % n), j = (std::ptrdiff_t)(p[np + 1] % n);
			const auto bi = r.begin();
			show("f", *(bi + i)); show("f", *(i + bi)); show("f", bi[i]); show("f", *(r.end() - (n - i))); show("f", (bi + j)[i - j]);
			auto x = bi; x += j; x -= j - i; show("f", *x);
			auto y = x++; show("f", *y); --x; show("f", *x); auto z = x--; show("f", *z); ++x; show("f", *x);
			const auto I = bi + i, J = bi + j;
			vm::ev("cmp %td %td %d %d %d %d %d %d", I - J, J - I, (int)(I < J), (int)(I <= J), (int)(I > J), (int)(I >= J), (int)(I == J), (int)(I != J));
			vm::ev("dist %td", std::distance(I, r.end()));
		}
	}""")
    # another dimension than the top one
    b.append("\t{ const auto q = t.template range<%s>(); vm::ev(\"qsize %%zu\", q.size()); for (auto u : q) show(\"g\", u); }" % m.q(d2))
    # sub-ranges
    opts = []
    others = [d for d in cand if d != top]
    opts.append("noarr::reverse<%s>()" % m.q(top))
    how = rng.randrange(3)
    sub = "noarr::reverse<%s>()" % m.q(top) if how else "noarr::shift<%s>(noarr::lit<0>)" % m.q(top)
    b.append("""	{
		auto s = t.range();
		const std::size_t n = s.size(), lo = p[np] %% (n + 1), hi = lo + p[np + 1] %% (n - lo + 1);
		s.begin_idx = lo; s.end_idx = hi;
		vm::ev("sub %%zu %%d %%d", s.size(), (int)s.empty(), (int)s.is_divisible());
		s.for_each([&](auto st) { vm::ev("h %%s", %s); });
		s.as_traverser().for_each([&](auto st) { vm::ev("i %%s", %s); });
		s.order(%s).for_each([&](auto st) { vm::ev("j %%s", %s); });
		for (auto u : s) show("k", u);
		for (std::size_t k = 0; k < s.size(); k++) show("l", s[k]);
	}""" % (p, p, sub, p))
    body = "\n".join(b)

    def check(n, evs):
        ctx, v = n
        n = ctx
        i0, j0 = v
        g = groups(evs)
        bad = []
        t = n.sig()
        N = n.length(top, {}, {})

        def section(d, k):
            return visit(n, {d: k}), [visit(n, x) for x in iterate(n, rest(t, {d: k}), {d: k})]

        def ex(key, d, ks, what):
            hs, es = [], []
            for k in ks:
                h, e = section(d, k)
                hs.append(h)
                es += e
            return diff(g.get(key, []), hs, what) + diff(g.get(key + ".", []), es, what + " (elements)")
        bad += ex("a", top, range(N), "range-based for")
        bad += ex("b", top, range(N), "range() iteration")
        bad += ex("c", top, range(N - 1, -1, -1), "backward iteration")
        bad += ex("d", top, range(N), "range()[k]")
        full = [visit(n, x) for x in iterate(n, t, {})]
        bad += diff(g.get("e", []), full, "range().for_each")
        if g.get("len") != [str(N)]:
            bad.append("end() - begin() is %s, expected %d" % (g.get("len"), N))
        w = ["%d %d %d" % (N, N == 0, N > 1)]
        bad += diff(g.get("size", []), w, "range size/empty/is_divisible")
        if N > 0:
            i, j = i0 % N, j0 % N
            bad += ex("f", top, [i] * 10, "iterator arithmetic")
            bad += diff(g.get("cmp", []), ["%d %d %d %d %d %d %d %d" % (i - j, j - i, i < j, i <= j, i > j, i >= j, i == j, i != j)], "iterator comparison")
            bad += diff(g.get("dist", []), ["%d" % (N - i)], "iterator distance")
        M = n.length(d2, {}, {})
        bad += diff(g.get("qsize", []), [str(M)], "range<%s>().size()" % d2)
        bad += ex("g", d2, range(M), "range<%s>()" % d2)
        lo = i0 % (N + 1)
        hi = lo + j0 % (N - lo + 1)
        bad += diff(g.get("sub", []), ["%d %d %d" % (hi - lo, hi == lo, hi - lo > 1)], "sub-range size/empty/is_divisible")
        part = [x for x in iterate(n, t, {}) if lo <= x[top] < hi]
        bad += diff(g.get("h", []), [visit(n, x) for x in part], "sub-range for_each")
        bad += diff(g.get("i", []), [visit(n, x) for x in part], "sub-range as_traverser")
        rev = []
        for k in (range(hi - 1, lo - 1, -1) if how else range(lo, hi)):
            rev += section(top, k)[1]
        bad += diff(g.get("j", []), rev, "sub-range order")
        bad += ex("k", top, range(lo, hi), "sub-range iteration")
        bad += ex("l", top, range(lo, hi), "sub-range[k]")
        return bad
    return body, check


NPMARK = 0


def cases(run, shs, npsets):
    r = rng_for(run, "extra")
    out = []
    for c in mkcases(run, shs, npsets, make):
        ps = []
        for v, n in c.psets:
            ij = (r.randrange(1000), r.randrange(1000))
            ps.append((list(v) + list(ij), (n, ij)))
        c.body = c.body.replace("const std::size_t np = 0;", "const std::size_t np = %d;" % len(c.psets[0][0]))
        c.psets = ps
        out.append(c)
    return out


def check(run):
    quick = run.tier == "quick"
    run.rule = "ranges, sub-ranges and iterators of random traversers; non-trivial = at least two events"
    run.run_cases(cases(run, shapes(run, "ti", 260, 60 if quick else 260, basedims=(1, 3), maxlen=5, nlayers=(0, 3), trav=(0, 1), ptuple=0.12), 6 if quick else 24), per_tu=2)
