"""Planners: nested plans call every registered function for exactly its sections / elements."""
from .. import model as m
from .trav import *
from .c09 import T, alldims_everywhere, tuples
MIN_EXEC = {"quick": 150, "thorough": 1000}


class Ambiguous(Exception):
    pass


def run_plan(n, tree, idx, ends, udims, out, static=None):
    """ends: list of (name, set of original dims); appends (name, visit)"""
    have = {d for d, v in m.orig(n, idx).items() if v is not None}
    act = [e for e in ends if e[1] <= have]
    if len(act) > 1:
        raise Ambiguous
    if tree is None and [e for e in ends if e[0] != "E"]:
        raise Ambiguous
    if tree is None:
        out.append(("E", visit(n, idx), dict(idx)))
        return
    if act and act[0][0] != "E":
        name, ds = act[0]
        out.append((name, visit(n, idx), dict(idx)))
        run_plan(n, tree, idx, [e for e in ends if e is not act[0]], udims, out)
        return
    if tree is None:
        raise Ambiguous
    d = tree[0]
    N = n.length(d, idx, {})
    for k in range(N):
        run_plan(n, tree[3][k] if tree[1] == 't' else tree[3][0], dict(idx, **{d: k}), ends, udims, out)


def static_ok(n, tree, idx, ends, presence):
    """same recursion over the types only: every branch once"""
    have = {d for d, v in m.orig(n, idx).items() if v is not None}
    act = [e for e in ends if e[1] <= have]
    if len(act) > 1:
        raise Ambiguous
    if tree is None:
        if len(ends) != 1 or act != ends:
            raise Ambiguous
        return
    if act and act[0][0] != "E":
        # a section of which some parts may turn out absent (dynamic blocks) is called all the same: finding F5
        left = m.tree_dims(tree)
        for d in left if presence else []:
            x = dict(idx, **{e: 0 for e in left if e != d})
            if {k for k, v in m.orig(n, x).items() if v is not None} >= set(m.tree_dims(split(n)[0].sig())):
                raise Ambiguous
        return static_ok(n, tree, idx, [e for e in ends if e is not act[0]], presence)
    for k, c in enumerate(tree[3]):
        static_ok(n, c, dict(idx, **{tree[0]: k if tree[1] == 't' else 0}), ends, presence)


def make(sh, node, rng):
    u, ls = split(node)
    tree = node.sig()
    ut = u.sig()
    udims = set(m.tree_dims(ut))
    common = alldims_everywhere(ut)
    must = tuples(ut)
    if not must <= common or not udims:
        return None
    if udims != common:
        elem_dims = None
    p = P(node, "st")
    # the sections of the plan
    plans = []
    need0 = {}

    def rec(t, above):
        if t is not None:
            need0.setdefault(t[0], set()).update(above)
            for c in t[3]:
                rec(c, above | ({t[0]} if t[1] == 't' else set()))
    rec(ut, set())
    names = {}
    for _ in range(12):
        secs = []
        for k in range(rng.randint(0, 3)):
            s = set(rng.sample(sorted(common), rng.randint(1, len(common)))) | must
            if s not in [x for _, x in secs] and s != udims:
                secs.append(("S%d" % k, s))
        ends = [("E", udims)] + secs
        try:
            static_ok(node, tree, {}, ends, any(isinstance(l, m.IntoBlocksDyn) for l in ls))
        except (Ambiguous, KeyError, TypeError, AssertionError, ZeroDivisionError):
            continue
        plans.append((secs, ends))
        if len(plans) == 2:
            break
    if not plans:
        return None
    if udims != common:
        return None
    b = ["\t" + decl(node, how=0, bags=True)]
    nb = len(u.subs)
    bags = ", ".join("bag%d" % k for k in range(nb))
    order = [l.proto() for l in ls]
    addr = " ".join('vm::ev("%%s@%d %%zu", k, (std::size_t)((char *)&e%d - mem%d.data())); e%d = e%d;' % (k, k, k, k, k) for k in range(nb))
    els = ", ".join("auto &e%d" % k for k in range(nb))
    elem1 = "[&](auto st, %s) { const char *k = KNAME; vm::ev(\"%%s %%s\", k, %s); %s }" % (els, p, addr)
    elem2 = "[&](%s) { const char *k = KNAME; vm::ev(\"%%s ?\", k); %s }" % (els, addr)
    each = "[](auto st) { vm::ev(\"%%s %%s\", KNAME, %s); }" % p
    spec = []
    for j, (secs, ends) in enumerate(plans):
        form = rng.choice(["elem1", "elem1", "elem2", "each"])
        f = {"elem1": elem1, "elem2": elem2, "each": each}[form].replace("KNAME", '"E%d"' % j)
        fn = "for_each" if form == "each" else "for_each_elem"
        late = rng.random() < 0.5          # add the orders before or after the functions
        pipe = rng.random() < 0.5
        e = "noarr::planner(%s)" % bags

        def orders():
            return "".join((" ^ (%s)" % o) if pipe else ".order(%s)" % o for o in order)

        def wrap(x):
            return "(%s)" % x if pipe else x
        if not late:
            e = wrap(e + orders())
        e = wrap(e + (" ^ noarr::%s(%s)" % (fn, f) if pipe else ".%s(%s)" % (fn, f)))
        for nm, ds in secs:
            ds = perm(rng, need0, sorted(ds))    # tuple dimensions before those within
            g = rng.choice(['[]', '[kk = 1]']) + '(auto in) { const auto st = in.state(); vm::ev("%s_%d %%s", %s); in%s }' % (nm, j, p, rng.choice(["();", ".execute();", " | noarr::planner_execute();"]))
            e = wrap(e + (" ^ noarr::for_sections<%s>(%s)" % (T(ds), g) if pipe else ".template for_sections<%s>(%s)" % (T(ds), g)))
        if late:
            e = wrap(e + orders())
        b.append("\tconst auto pl%d = %s;" % (j, e))
        b.append("\t" + rng.choice(["pl%d();" % j, "pl%d.execute();" % j, "pl%d | noarr::planner_execute();" % j, "{ const auto copy = pl%d; copy(); }" % j]))
        spec.append((form, secs, ends))
    # executing each inner planner of the range gives the same
    top = tree[0]
    rangeable = tree[1] == 'f'
    if rangeable:
        b.append('\tvm::ev("-- 1");\n\tfor (auto in : pl0) in.execute();')
        b.append('\tvm::ev("-- 2");\n\t{ const auto r = noarr::range(pl0); vm::ev("size %zu %d %d", r.size(), (int)r.empty(), (int)r.is_divisible()); for (std::size_t k = 0; k < r.size(); k++) r[k](); }')
        b.append("""\t{ auto r = noarr::range<%s>(pl0); const std::size_t n = r.size(), lo = p[np] %% (n + 1); const std::size_t hi = lo + p[np + 1] %% (n - lo + 1); r.begin_idx = lo; r.end_idx = hi;
		vm::ev("-- 3"); r.as_planner()(); vm::ev("-- 4"); for (auto it = r.end(); it > r.begin();) { --it; (*it)(); }
		vm::ev("-- 5"); r.order(noarr::reverse<%s>())(); }""" % (m.q(top), m.q(top)))
        # random access arithmetic
        b.append("""\t{ const auto r = noarr::range(pl0); const auto n = (std::ptrdiff_t)r.size();
		vm::ev("-- 7");
		if (n > 0) {
			const std::ptrdiff_t i = (std::ptrdiff_t)(p[np] % n), j = (std::ptrdiff_t)(p[np + 1] % n);
			const auto bi = r.begin(); const auto ei = noarr::end(pl0);
			(*(bi + i))(); (*(i + bi))(); bi[i](); (*(r.cend() - (n - i)))(); (bi + j)[i - j](); (*(noarr::begin(pl0) + i))(); ei[i - n]();
			auto x = bi; x += j; x -= j - i; (*x)();
			auto y = x++; (*y)(); --x; (*x)(); auto z = x--; (*z)(); ++x; (*x)(); auto w = ++x; (void)w; (*--x)();
			const auto I = bi + i, J = r.cbegin() + j;
			vm::ev("cmp %td %td %d %d %d %d %d %d", I - J, J - I, (int)(I < J), (int)(I <= J), (int)(I > J), (int)(I >= J), (int)(I == J), (int)(I != J));
			vm::ev("cmp %td %td %td %zu", std::distance(I, r.end()), ei - bi, (bi + n) - r.cend(), (std::size_t)(r.cend() - r.cbegin()) - r.size());
			auto s = r; s.begin_idx = (std::size_t)i; vm::ev("-- 8"); for (std::size_t k = 0; k < s.size(); k++) s[k](); vm::ev("-- 9"); for (auto q : s) q.execute();
		}
	}""")
    # a plan made of a section whose function builds the inner plan
    dd = sorted(common)
    sel = set(rng.sample(dd, rng.randint(1, len(dd)))) | must
    dimsok = not ls and all(True for _ in [0])
    need = needs(sh, node)
    for d in list(sel):
        sel |= need.get(d, set()) & common
    o = perm(rng, need, sel) if dimsok else None
    if must:
        o = None                           # for_dims of a planner hoists the dims one by one, which tuples do not allow
    if o is not None:
        b.append('\tvm::ev("-- 6");\n\tnoarr::planner(%s) ^ noarr::for_dims<%s>([](auto in) { const auto st = in.state(); vm::ev("D %%s", %s); (in ^ noarr::for_each([](auto st) { vm::ev("G %%s", %s); })) | noarr::planner_execute(); }) | noarr::planner_execute();' % (bags, T(o), p, p))

    def check(ctx, evs):
        n, (lo0, hi0) = ctx
        t = n.sig()
        parts, cur = {0: []}, 0
        g, cmp = [], []
        for e in evs:
            k, _, r = e.partition(" ")
            if k == "--":
                cur = int(r)
                parts[cur] = []
            elif k == "size":
                g.append(r)
            elif k == "cmp":
                cmp.append(r)
            else:
                parts[cur].append(e)
        bad = []

        def expected(j, starts, tr):
            form, secs, ends = spec[j]
            out = []
            for st, sub in starts:
                run_plan(n, sub, st, ends, None, out)
            ev = []
            for name, v, idx in out:
                if name == "E":
                    ev.append("E%d %s" % (j, "?" if form == "elem2" else v))
                    if form != "each":
                        o_ = m.orig(n, idx)
                        for k, s in enumerate(u_of(n).subs):
                            sd = m.tree_dims(s.sig())
                            ev.append("E%d@%d %d" % (j, k, s.offset({a: x for a, x in o_.items() if a in sd}, {})))
                else:
                    ev.append("%s_%d %s" % (name, j, v))
            return ev

        def u_of(n):
            return split(n)[0]
        want = []
        for j in range(len(spec)):
            want += expected(j, [({}, t)], t)
        bad += diff(parts[0], want, "plan")
        if rangeable:
            N = n.length(top, {}, {})
            st = [({top: k}, rest(t, {top: k})) for k in range(N)]
            w = expected(0, st, t)
            bad += diff(parts.get(1, []), w, "iterating over the planner")
            bad += diff(parts.get(2, []), w, "range(planner)[k]")
            bad += diff(g, ["%d %d %d" % (N, N == 0, N > 1)], "range(planner) size/empty/is_divisible")
            if N > 0:
                i, j = lo0 % N, hi0 % N
                bad += diff(parts.get(7, []), expected(0, [st[i]], t) * 13, "planner iterator arithmetic")
                bad += diff(cmp, ["%d %d %d %d %d %d %d %d" % (i - j, j - i, i < j, i <= j, i > j, i >= j, i == j, i != j), "%d %d 0 0" % (N - i, N)], "planner iterator comparison")
                wi = expected(0, st[i:], t)
                bad += diff(parts.get(8, []), wi, "planner sub-range[k]")
                bad += diff(parts.get(9, []), wi, "planner sub-range iteration")
            lo = lo0 % (N + 1)
            hi = lo + hi0 % (N - lo + 1)
            # a whole plan over the sub-range calls sections that do not involve the top dim once
            class Sub:
                pass
            bad += diff(parts.get(4, []), expected(0, st[lo:hi][::-1], t), "sub-range of the planner, backward")
            inner_first = all("top" for _ in [0])
            if top_first(n, spec[0]):
                bad += diff(parts.get(3, []), expected(0, st[lo:hi], t), "sub-range as_planner")
                bad += diff(parts.get(5, []), expected(0, st[lo:hi][::-1], t), "sub-range order(reverse)")
        if o is not None:
            tr = m.tree_reorder(m.tree_filter(t, set(o)), o)
            w = []
            for i in iterate(n, tr, {}):
                w.append("D " + visit(n, i))
                w += ["G " + visit(n, x) for x in iterate(n, rest(t, i), i)]
            bad += diff(parts.get(6, []), w, "for_dims<%s>" % T(o))
        return bad

    def top_first(n, sp):
        """no section is activated before the outermost loop"""
        have = {d for d, v in m.orig(n, {}).items() if v is not None}
        return not any(e[1] <= have for e in sp[2])
    return "\n".join(b), check


def finding():
    from ..engine import Case
    body = """	const auto bag = noarr::make_bag(noarr::scalar<int>() ^ noarr::vector<'y'>(2) ^ noarr::vector<'x'>(5));
	noarr::planner(bag).for_each([](auto st) { vm::ev("E %zu", noarr::get_index<'x'>(st)); }).template for_sections<'x'>([](auto in) { vm::ev("S %zu", noarr::get_index<'x'>(in.state())); in(); })
		.order(noarr::into_blocks_dynamic<'x', 'X', 'b', 'p'>(3)).execute();"""

    def chk(_, evs):
        g = groups(evs)
        bad = diff(g.get("E", []), [str(k) for k in range(5) for _ in range(2)], "elements")
        if g.get("S") == ["0", "1", "2", "3", "4", "5"]:
            bad.append("section function called for x=5 of length 5")
        else:
            bad += diff(g.get("S", []), [str(k) for k in range(5)], "sections")
        return bad
    return Case("dyn_section", body, [([], None)], chk, desc="planner section over a dimension split into dynamic blocks")


PW = dict(TW, bcast=0, join=0)


def check(run):
    quick = run.tier == "quick"
    run.rule = ("plans with random sections, element functions and orders over one to three bags, planner ranges and iterators; non-trivial = at least two events")
    r = rng_for(run, "extra")
    cs = []
    for c in mkcases(run, shapes(run, "pl", 240, 44 if quick else 240, basedims=(1, 3), maxlen=4, nlayers=(0, 2), trav=(0, 2), ptuple=0.12, weights=PW), 6 if quick else 24, make):
        c.body = "\tconstexpr std::size_t np = %d;\n%s" % (len(c.psets[0][0]), c.body)
        ps = []
        for v, n in c.psets:
            ij = (r.randrange(1000), r.randrange(1000))
            ps.append((list(v) + list(ij), (n, ij)))
        c.psets = ps
        cs.append(c)
    cs.append(finding())
    run.run_cases(cs, per_tu=2, includes=('<noarr/structures/interop/planner_iter.hpp>', '<noarr/structures/extra/planner.hpp>', '"vmon.hpp"'))
