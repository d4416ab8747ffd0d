"""Parallel traversals (OpenMP, TBB, std::execution, parallel planners): race-free, exactly once, complete on return."""
from .. import model as m
from ..engine import SAN, TSAN
from .trav import *
from .c09 import T
MIN_EXEC = {"quick": 60, "thorough": 500}


def make_for(stub):
    def make(sh, node, rng):
        tree = node.sig()
        if tree is None or tree[1] == 't':
            return None
        top = tree[0]
        p = "vm::path<%s>(st)" % (", ".join(m.q(d) for d in odims(node)) or "'?'")
        b = ["\t" + decl(node, how=rng.randrange(3), bags=True)]
        b.append("\tvmp::setup(p[np], p[np + 1]);\n\tvmp::log lg;")
        b.append("\t{ std::size_t k = 0; for (auto u : t) { u.for_each([&](auto st) { lg.add(%s, k); }); k++; } }" % p)
        hit = "[&](auto st) { lg.hit(%s); }" % p
        sec = "[&](auto u) { u.for_each(%s); }" % hit
        names = []

        def act(name, code):
            names.append(name)
            b.append("\tlg.start(); %s; lg.stop(\"%s\");" % (code, name))
        act("omp_for_each", "noarr::omp_for_each(t, %s)" % hit)
        act("omp_for_sections", "noarr::omp_for_sections(t, %s)" % sec)
        act("tbb_for_each", "noarr::tbb_for_each(t, %s)" % hit)
        act("tbb_for_sections", "noarr::tbb_for_sections(t, %s)" % sec)
        act("tbb_range", "tbb::parallel_for(t.range(), [&](const auto &r) { r.for_each(%s); })" % hit)
        act("tbb_range_it", "tbb::parallel_for(t.range(), [&](auto r) { for (auto u : r) u.for_each(%s); })" % hit)
        u, ls = split(node)
        pl = "noarr::planner(%s)" % ", ".join("bag%d" % k for k in range(len(u.subs)))
        # structures with a planner: for_each gets the state, for_each_elem also references to the elements
        f1 = pl + ".for_each(%s)" % hit
        f2 = pl + ".for_each_elem([&](auto st, auto &&...el) { lg.hit(%s); (..., (el = el)); })" % p
        order = "".join(" ^ (%s)" % l.proto() for l in ls)
        # elements are only written when each belongs to one visited state
        inj = injective(node)
        for nm, f in (("", f1), ("_elem", f2 if inj else f1)):
            act("planner_omp" + nm, "(%s%s) | noarr::planner_omp_execute()" % (f, order))
            act("planner_tbb" + nm, "(%s%s) | noarr::planner_tbb_execute()" % (f, order))
            if not stub:
                act("planner_std" + nm, "(%s%s) | noarr::planner_std_execute()" % (f, order))
        if not stub:
            act("std_for_each", "noarr::std_for_each(t, %s)" % hit)
            act("std_for_sections", "noarr::std_for_sections(t, %s)" % sec)

        def check(n, evs):
            t = n.sig()
            N = n.length(top, {}, {})
            want, sect = [], {}
            for k in range(N):
                for x in iterate(n, rest(t, {top: k}), {top: k}):
                    v = visit(n, x)
                    want.append(v)
                    sect[v] = k
            pos = {v: k for k, v in enumerate(want)}
            got = {nm: [] for nm in names}
            bad = []
            for e in evs:
                f = e.split(" ")
                if f[0] == "V":
                    got[f[1]].append((f[2], f[3]))
                elif f[0] == "B":
                    if f[3] != "0":
                        bad.append("%s: %s calls with an unknown state or after the call returned" % (f[1], f[3]))
                elif f[0] == "H":
                    bad.append("%s: element %s handled %s times when the call returned" % (f[1], f[2], f[3]))
            for nm in names:
                vs = [a for a, _ in got[nm]]
                if sorted(vs) != sorted(want):
                    bad += diff(sorted(vs), sorted(want), nm)
                    continue
                th, last = {}, {}
                for v, tid in got[nm]:
                    k = sect[v]
                    if th.setdefault(k, tid) != tid:
                        bad.append("%s: section %d of the top dimension handled by two threads" % (nm, k))
                        break
                    if pos[v] < last.get(k, -1):
                        bad.append("%s: elements of section %d out of order" % (nm, k))
                        break
                    last[k] = pos[v]
            STATS.update(("%s:%s" % (nm, ",".join(tid for _, tid in got[nm])) for nm in names))
            THREADS.update(len({tid for _, tid in got[nm]}) for nm in names)
            return bad
        return "\n".join(b), check
    return make


STATS, THREADS = set(), set()


def injective(node):
    """each visited state touches its own elements of every structure"""
    u, _ = split(node)
    n = [len(m.tree_dims(s.sig())) for s in u.subs]
    alld = set(m.tree_dims(u.sig()))
    if any(set(m.tree_dims(s.sig())) != alld for s in u.subs):
        return False
    return not any(c.__class__.__name__ in ("Bcast",) for s in u.subs for c in s.chain()) and not any(
        c.__class__.__name__ in ("Bcast",) for c in node.chain())


def cases(run, name, shs, npsets, stub):
    r = rng_for(run, "sched" + name)
    out = []
    for c in mkcases(run, shs, npsets, make_for(stub)):
        c.body = "\tconstexpr std::size_t np = %d;\n%s" % (len(c.psets[0][0]), c.body)
        c.psets = [(list(v) + [r.randrange(1, 100000), r.choice([1, 2, 3, 4, 4, 8])], n) for v, n in c.psets]
        out.append(c)
    return out


def check(run):
    quick = run.tier == "quick"
    run.rule = ("parallel traversals of random structures under ThreadSanitizer with schedule-perturbing stand-ins for the TBB and OpenMP runtimes, and under ASan "
                "with the real runtimes; non-trivial = at least two events")
    run.assumptions = ["ThreadSanitizer cannot see inside libgomp/libtbb, so races are judged with stand-in runtimes (harness/tbbstub, harness/ompstub.hpp) that honour "
                       "the TBB and OpenMP contracts; the real runtimes are exercised under ASan+UBSan"]
    # broadcasting in the order would visit the same element from several sections
    kw = dict(basedims=(1, 3), maxlen=6, nlayers=(0, 2), trav=(0, 2), ptuple=0.1, maxel=60, weights=dict(TW, bcast=0, join=0))
    shs = shapes(run, "tp", 200, 16 if quick else 200, **kw)
    inc = ('"par.hpp"',)
    import os
    from ..engine import HARNESS
    stubf = ["-DVM_STUB", "-fopenmp", "-I" + os.path.join(HARNESS, "tbbstub")]
    run.run_cases(cases(run, "s", shs, 5 if quick else 20, True), per_tu=1, includes=inc, flags=TSAN + stubf)
    if not quick:
        shs = shs[::2]
    run.run_cases(cases(run, "r", shs[:8] if quick else shs, 5 if quick else 20, False), per_tu=1, includes=inc, flags=SAN + ["-fopenmp"], libs=["-ltbb"])
    run.notes.update(distinct_schedules=len(STATS), threads_seen=sorted(THREADS))
