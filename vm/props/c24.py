"""Shortcuts: structures like other structures, states turned into structures, spans, index space size."""
import random

from .. import gen, model as m
from ..engine import Case
from .c09 import T, alldims_everywhere, dep_order_ok, tuples
from .c22 import root_const
from .c23 import hast
from .common import expected_lengths, pathstr, rng_for
from .trav import decl, mkcases, needs, odims, P, perm, shapes, split, subset
MIN_EXEC = {"quick": 110, "thorough": 700}
INC = ('"vmon.hpp"', "<noarr/structures/extra/shortcuts.hpp>")

def like(node, ds, key="short"):
    """scalar under plain vectors of the node's lengths; ds innermost first"""
    n = m.Scalar(key)
    for d in ds:
        n = m.Vector(n, d, m.V(node.length(d, {}, {}), 0))
    return n


def exp(tag, node, off=None):
    out = []
    for i in m.elements(node):
        out.append("E %s %s %d" % (tag, pathstr(i), node.offset(i, {})))
    out.append("Z %s %d" % (tag, node.size({})))
    return out


def make(sh, node, rng):
    tree = node.sig()
    if tree is None:
        return None
    alld = m.tree_dims(tree)
    rc = root_const(node)
    need = needs(sh, node)
    b = ["\tconst auto s = %s;" % node.expr()]
    want = []           # functions node -> events

    def tree_of(n):
        return m.cpp_tree(n.sig())

    def show(tag, code, f):
        n = f(node)
        b.append("\t{ const auto r = %s; show<%s>(\"%s\", r); }" % (code, tree_of(n), tag))
        want.append((tag, f))
    S = "noarr::scalar<short>()"
    if rc:
        ds = rng.sample(rc, rng.randint(1, len(rc)))
        form = rng.choice(["s", "s, noarr::empty_state", "noarr::traverser(s)"])
        show("vl", "%s ^ noarr::vectors_like<%s>(%s)" % (S, T(ds), form), lambda n, ds=ds: like(n, ds))
        ds2 = rng.sample(rc, rng.randint(1, len(rc)))
        show("ll", "%s ^ noarr::vectors<%s>() ^ noarr::lengths_like<%s>(%s)" % (S, T(ds2), T(rng.sample(ds2, len(ds2))), rng.choice(["s", "s, noarr::empty_state", "noarr::traverser(s)"])),
             lambda n, ds=ds2: like(n, ds))
        d = rng.choice(rc)
        show("v1", "%s ^ noarr::vector_like<%s>(%s)" % (S, m.q(d), rng.choice(["s", "s, noarr::empty_state"])), lambda n, d=d: like(n, [d]))
        show("l1", "%s ^ noarr::vector<%s>() ^ noarr::length_like<%s>(s)" % (S, m.q(d), m.q(d)), lambda n, d=d: like(n, [d]))
        # lengths as a state
        ds3 = rng.sample(rc, rng.randint(1, len(rc)))
        st = "noarr::empty_state" + "".join(".template with<noarr::length_in<%s>>(s | noarr::get_length<%s>())" % (m.q(x), m.q(x)) for x in ds3)
        show("sl", "%s ^ noarr::vectors<%s>() ^ noarr::set_length(%s)" % (S, T(ds3), st), lambda n, ds=ds3: like(n, ds))
        show("sd", "%s ^ noarr::vectors<%s>() ^ noarr::set_length<%s>(%s)" % (S, T(ds3), T(rng.sample(ds3, len(ds3))), st), lambda n, ds=ds3: like(n, ds))
    if not hast(tree) and set(rc) == set(alld):
        form = rng.choice(["s", "s, noarr::empty_state", "noarr::traverser(s)"])
        # same dimensions in the same order
        show("va", "%s ^ noarr::vectors_like(%s)" % (S, form), lambda n: like(n, list(reversed(m.tree_dims(n.sig())))))
        b.append('\tvm::ev("I all %zu", vm::num(noarr::index_space_size(s)));')
        want.append(("I all", lambda n: ["I all %d" % sum(1 for _ in m.elements(n))]))
    elif hast(tree) and all(d in rc or d in tuples(tree) for d in alld):
        b.append('\tvm::ev("I all %zu", vm::num(noarr::index_space_size(s)));')
        want.append(("I all", lambda n: ["I all %d" % sum(1 for _ in m.elements(n))]))
    # states -> structures
    ops = [d for d, v in sh.dims.items() if d in rc and v["ops"] and v["kind"] == "f" and not v["deps"] and not any(d in w["deps"] for w in sh.dims.values())]
    common = alldims_everywhere(tree)
    fx = subset(rng, need, sorted(common))
    if fx and fx <= common:
        t = T(sorted(fx))
        left = m.tree_filter(tree, set(alld) - fx) if not hast(tree) else None
        tg = "noarr::traverser(s).template for_each<%s>([&](auto st) {" % t
        code = "s ^ " + rng.choice(["noarr::fix(st)", "noarr::fix<%s>(st)" % t])
        if tuples(tree) <= fx or not hast(tree):
            b.append("\t%s const auto r = %s; vm::walk<%s>(r, false, [&](auto st2, const std::string &p) { vm::ev(\"F %%s %%s %%zu\", vm::path<%s>(st).c_str(), p.c_str(), vm::num(r | noarr::offset(st2))); }); });" % (
                tg, code, m.cpp_tree(left) if left else "vm::E", t) if not hast(tree) else
                "\t%s const auto r = %s; vm::ev(\"F %%s\", vm::path<%s>(st).c_str()); (void)r; });" % (tg, code, t))

            def fexp(n, fx=sorted(fx)):
                tr = n.sig()
                if hast(tr):
                    sel = m.tree_filter(tr, set(fx))
                    return ["F %s" % pathstr(i, fx) for i in m.elements(n, tree=sel)]
                out = []
                sel, lf = m.tree_filter(tr, set(fx)), m.tree_filter(tr, set(m.tree_dims(tr)) - set(fx))
                for i in m.elements(n, tree=sel):
                    def rec(t2, idx, p):
                        if t2 is None:
                            out.append("F %s %s %d" % (pathstr(i, fx), pathstr(p), n.offset(idx, {})))
                            return
                        for k in range(n.length(t2[0], idx, {})):
                            rec(t2[3][0], dict(idx, **{t2[0]: k}), dict(p, **{t2[0]: k}))
                    rec(lf, i, {})
                return out
            want.append(("F", fexp))
    # sections know their state: get_index, fix(traverser)
    if ops:
        d = rng.choice(ops)
        b.append("\tnoarr::traverser(s).template for_dims<%s>([&](auto u) { vm::ev(\"G %%zu %%zu\", vm::num(noarr::get_index<%s>(u)), vm::num(std::get<0>(noarr::get_indices<%s>(u.state())))); (void)(s ^ noarr::fix(u)); });"
                 % (m.q(d), m.q(d), m.q(d)) if not tuples(tree) else "")
        if not tuples(tree):
            want.append(("G", lambda n, d=d: ["G %d %d" % (k, k) for k in range(n.length(d, {}, {}))]))
        ds = rng.sample(ops, rng.randint(1, min(2, len(ops))))
        form = rng.choice(["one", "many"])
        if len(ds) == 1 or form == "one":
            code = "noarr::symmetric_span<%s>(s, p[np])" % T(ds)
            offs = [0] * len(ds)
        else:
            code = "noarr::symmetric_spans<%s>(s, p[np], p[np + 1])" % T(ds)
            offs = list(range(len(ds)))
        if rng.random() < 0.5:
            code = code.replace("(s, ", "(s, noarr::empty_state, ")

        def span(n, o, ds=ds, offs=offs):
            for d, k in zip(ds, offs):
                L = n.length(d, {}, {})
                n = m.Span(n, d, m.V(o[k], 0), m.V(L - o[k], 0))
            return n
        b.append("\t{ const auto r = s ^ %s; show<%s>(\"ys\", r); }" % (code, tree_of(span(node, [0, 0]))))
        want.append(("ys", span))
    spans = [w for w in want if w[0] == "ys"]
    ds_span = ds if ops else []

    # a state of zeros selects the first element
    b.append("\t{ const auto z = noarr::fix_zeros(noarr::sig_dim_tree<typename decltype(s)::signature>{}); vm::ev(\"W %%s\", vm::path<%s>(z).c_str()); }" % T(alld))

    def zeros(n):
        t, p = n.sig(), {}
        while t is not None:
            p[t[0]] = 0
            t = t[3][0]
        return ["W " + pathstr(p, m.tree_dims(n.sig()))]
    want.append(("W", zeros))
    if len(b) < 2:
        return None

    def lines(n, o):
        out = []
        for tag, f in want:
            if tag == "ys":
                out += exp("ys", f(n, o))
            elif tag in ("F", "G", "W", "I all"):
                out += f(n)
            else:
                out += exp(tag, f(n))
        return out

    def check(ctx, evs):
        n, o = ctx
        w = lines(n, o)
        if evs == w:
            return []
        k = next((j for j, (a, c) in enumerate(zip(evs, w)) if a != c), min(len(evs), len(w)))
        return ["event %d is %s, expected %s" % (k, evs[k:k + 1], w[k:k + 1])]
    return "\n".join(x for x in b if x), check, (ds_span if spans else None)


def cases(run, shs, npsets):
    r = rng_for(run, "params")
    out = []
    for sh in shs:
        ps = gen.paramsets(sh, r, npsets)
        if not ps:
            continue
        res = make(sh, ps[0][0], random.Random("shape/" + sh.sid))
        if res is None:
            continue
        body, chk, sds = res
        nv = len(ps[0][1])
        sets = []
        for n, v in ps:
            o = [0, 0]
            if sds:
                o = [r.randint(0, min(n.length(d, {}, {}) // 2 for d in sds)) for _ in range(2)]
            sets.append((list(v) + o, (n, o)))
        out.append(Case(sh.sid, "\tconstexpr std::size_t np = %d;\n%s" % (nv, body), sets, chk, prelude="", desc=ps[0][0].expr()))
    return out


def make_open(k):
    """structures that need a state to tell their lengths"""
    r = random.Random("open/%d" % k)
    ds = r.sample("xyz", r.randint(1, 3))          # innermost first
    inside = {d for d in ds if r.random() < 0.3}
    slot = {d: j for j, d in enumerate(ds)}
    e = "noarr::scalar<int>() ^ noarr::vectors<%s>()" % T(ds)
    if inside:
        sl = sorted(inside)
        e += " ^ noarr::set_length<%s>(%s)" % (T(sl), ", ".join("p[%d]" % slot[d] for d in sl))
    layer = r.choice(["", "reverse", "hoist", "rename"])
    x = r.choice(ds)
    order = list(reversed(ds))                     # outermost first
    name = {d: d for d in ds}
    if layer == "reverse":
        e += " ^ noarr::reverse<%s>()" % m.q(x)
    elif layer == "hoist":
        e += " ^ noarr::hoist<%s>()" % m.q(x)
        order = [x] + [d for d in order if d != x]
    elif layer == "rename":
        e += " ^ noarr::rename<%s, 'R'>()" % m.q(x)
        name[x] = "R"
    items = [("length_in", d, "p[%d]" % slot[d]) for d in ds if d not in inside]
    items.append(r.choice([("length_in", "q", "p[3]"), ("index_in", "q", "p[3]")]))
    r.shuffle(items)
    state = "noarr::make_state<%s>(%s)" % (", ".join("noarr::%s<%s>" % (a, m.q(name.get(d, d))) for a, d, _ in items), ", ".join(v for _, _, v in items))
    b = ["\tconst auto s = %s;" % e, "\tconst auto st = %s;" % state]
    S = "noarr::scalar<short>()"
    want = []

    def show(tag, code, sub):
        # outermost first; sub: list of dims innermost first
        b.append("\t{ const auto r = %s; show<%s>(\"%s\", r); }" % (code, m.cpp_tree(tree(sub)), tag))
        want.append((tag, sub))

    def tree(sub):
        t = None
        for d in sub:
            t = (name[d], 'f', None, [t])
        return t
    some = lambda: r.sample(ds, r.randint(1, len(ds)))
    nm = lambda l: T([name[d] for d in l])
    q = some()
    show("vl", "%s ^ noarr::vectors_like<%s>(s, st)" % (S, nm(q)), q)
    q = some()
    show("ll", "%s ^ noarr::vectors<%s>() ^ noarr::lengths_like<%s>(s, st)" % (S, nm(q), nm(r.sample(q, len(q)))), q)
    show("va", "%s ^ noarr::vectors_like(s, st)" % S, list(reversed([d for d in order])))
    q = r.choice(ds)
    show("v1", "%s ^ noarr::vector_like<%s>(s, st)" % (S, m.q(name[q])), [q])
    q = r.choice(ds)
    show("l1", "%s ^ noarr::vector<%s>() ^ noarr::length_like<%s>(s, st)" % (S, m.q(name[q]), m.q(name[q])), [q])
    # a symmetric span, the lengths still in the state or set outside
    sp = some()
    one = len(sp) == 1 or r.random() < 0.5
    offs = [4] * len(sp) if one else [4 + j for j in range(len(sp))]
    if one:
        code = "noarr::symmetric_span<%s>(s, st, p[4])" % nm(sp)
    else:
        code = "noarr::symmetric_spans<%s>(s, st, %s)" % (nm(sp), ", ".join("p[%d]" % o for o in offs))
    b.append("\t{ const auto r = s ^ noarr::set_length(st) ^ %s; show<%s>(\"ys\", r); }" % (code, m.cpp_tree(tree(list(reversed(order))))))
    b.append("\t{ const auto r = %s ^ noarr::vectors<%s>(%s) ^ %s; show<%s>(\"yt\", r); }" % (
        S, nm(sp), ", ".join("p[%d]" % slot[d] for d in sp), code, m.cpp_tree(tree(sp))))
    # lengths that depend on an index
    b.append("""\t{ const auto d = noarr::scalar<char>() ^ noarr::vector<'x'>(p[7]) ^ noarr::into_blocks_dynamic<'x', 'X', 'b', 'p'>(p[8]);
		for (std::size_t i = 0; i < vm::num(d | noarr::get_length<'X'>()); i++) for (std::size_t j = 0; j < p[8]; j++) {
			const auto r = noarr::scalar<char>() ^ noarr::%s;
			vm::ev("P %%zu %%zu %%zu %%zu", i, j, vm::num(r | noarr::get_length<'p'>()), vm::num(r | noarr::get_size())); } }""" % r.choice([
        "vector_like<'p'>(d, noarr::idx<'X', 'b'>(i, j))", "vectors_like<'p'>(d, noarr::idx<'b', 'X'>(j, i))",
        "vector<'p'>() ^ noarr::length_like<'p'>(d, noarr::idx<'X', 'b'>(i, j))",
        "vector<'p'>() ^ noarr::lengths_like<'p'>(d, noarr::idx<'X', 'b'>(i, j))"]))
    b.append("\t{ const auto d = noarr::pack(noarr::scalar<char>() ^ noarr::vector<'x'>(p[0]), noarr::scalar<int>() ^ noarr::vector<'x'>(p[1])) ^ noarr::tuple<'t'>();")
    for j in range(2):
        b.append("\t{ const auto r = %s ^ %s; show<vm::D<'x', vm::E>>(\"t%d\", r); }" % (S, r.choice(["noarr::vector_like<'x'>(d, noarr::idx<'t'>(noarr::lit<%d>))", "noarr::vectors_like<'x'>(d, noarr::idx<'t'>(noarr::lit<%d>))",
            "noarr::vector<'x'>() ^ noarr::lengths_like<'x'>(d, noarr::idx<'t'>(noarr::lit<%d>))"]) % j, j))
        b.append("\t{ const auto r = %s ^ noarr::vector<'x'>(p[%d]) ^ noarr::symmetric_span<'x'>(d, noarr::idx<'t'>(noarr::lit<%d>), p[4]); show<vm::D<'x', vm::E>>(\"u%d\", r); }" % (S, j, j, j))
    b.append("\t}")
    # a state of zeros added to a state: the zeros win
    b.append("\t{ const auto z = noarr::fix_zeros(noarr::sig_dim_tree<typename decltype(s)::signature>{}, noarr::idx<%s, 'q'>(p[0], p[1])); vm::ev(\"W %%s\", vm::path<%s, 'q'>(z).c_str()); }" % (
        m.q(name[ds[0]]), nm(ds)))

    def check(v, evs):
        ln = {d: v[slot[d]] for d in ds}
        V = lambda x: m.V(x, 0)

        def chain(sub, key):
            n = m.Scalar(key)
            for d in sub:
                n = m.Vector(n, name[d], V(ln[d]))
            return n
        w = []
        for tag, sub in want:
            w += exp(tag, chain(sub, "short"))
        base = m.Scalar("int")
        for d in ds:
            base = m.Vector(base, d, V(ln[d]))
        if layer == "reverse":
            base = m.Reverse(base, x)
        elif layer == "hoist":
            base = m.Hoist(base, [x])
        elif layer == "rename":
            base = m.Rename(base, [(x, "R")])

        def span(n, dd):
            for d, o in zip(sp, offs):
                n = m.Span(n, name[d], V(v[o]), V(ln[d] - v[o]))
            return n
        w += exp("ys", span(base, sp))
        w += exp("yt", span(chain(sp, "short"), sp))
        for i in range(-(-v[7] // v[8])):
            for j in range(v[8]):
                k = int(i * v[8] + j < v[7])
                w.append("P %d %d %d %d" % (i, j, k, k))
        for j in range(2):
            w += exp("t%d" % j, m.Vector(m.Scalar("short"), "x", V(v[j])))
            w += exp("u%d" % j, m.Span(m.Vector(m.Scalar("short"), "x", V(v[j])), "x", V(v[4]), V(v[j] - v[4])))
        w.append("W " + ",".join(["%s0" % name[d] for d in ds] + ["q%d" % v[1]]))
        if evs == w:
            return []
        k = next((j for j, (a, c) in enumerate(zip(evs, w)) if a != c), min(len(evs), len(w)))
        return ["event %d is %s, expected %s" % (k, evs[k:k + 1], w[k:k + 1])]
    return "\n".join(b), check, e + " / " + state


def make_trav(sh, node, rng):
    """structures like a traverser, its order included"""
    rc = root_const(node)
    if not rc:
        return None
    b = ["\t" + decl(node, how=rng.randrange(3))]
    S = "noarr::scalar<short>()"
    want = []

    def show(tag, code, ds):
        t = None
        for d in ds:
            t = (d, 'f', None, [t])
        b.append("\t{ const auto r = %s; show<%s>(\"%s\", r); }" % (code, m.cpp_tree(t), tag))
        want.append((tag, ds))
    ds = rng.sample(rc, rng.randint(1, len(rc)))
    show("tv", "%s ^ noarr::vectors_like<%s>(t)" % (S, T(ds)), ds)
    ds = rng.sample(rc, rng.randint(1, len(rc)))
    show("tl", "%s ^ noarr::vectors<%s>() ^ noarr::lengths_like<%s>(t)" % (S, T(ds), T(rng.sample(ds, len(ds)))), ds)
    tree = node.sig()
    if not hast(tree) and set(rc) == set(m.tree_dims(tree)):
        show("ta", "%s ^ noarr::vectors_like(t)" % S, list(reversed(m.tree_dims(tree))))

    def check(n, evs):
        w = []
        for tag, ds in want:
            w += exp(tag, like(n, ds))
        if evs == w:
            return []
        k = next((j for j, (a, c) in enumerate(zip(evs, w)) if a != c), min(len(evs), len(w)))
        return ["event %d is %s, expected %s" % (k, evs[k:k + 1], w[k:k + 1])]
    return "\n".join(b), check


def check(run):
    quick = run.tier == "quick"
    run.rule = "random compositions and the structures, views and states derived from them; non-trivial = at least two events"
    pool = gen.pool("like", 220, nlayers=(0, 3), basedims=(1, 3), ptuple=0.15, maxel=80)
    n = 44 if quick else 220
    ps = pool if n >= len(pool) else rng_for(run, "p").sample(pool, n)
    cs = cases(run, ps, 5 if quick else 14)
    cs += mkcases(run, shapes(run, "lt", 160, 40 if quick else 160, trav=(1, 3), nlayers=(0, 2), basedims=(1, 3), maxel=80), 4 if quick else 12, make_trav)
    r = rng_for(run, "open")
    ks = list(range(120))
    for k in r.sample(ks, 24) if quick else ks:
        body, chk, desc = make_open(k)
        ps = []
        for _ in range(5 if quick else 16):
            o = [r.randint(0, 2) for _ in range(3)]
            v = [r.randint(2 * max(o), 7) for _ in range(3)] + [r.randint(0, 9)] + o
            ps.append(v + [r.randint(0, 9), r.randint(1, 4)])
        cs.append(Case("open%03d" % k, body, [(v, v) for v in ps], chk, desc=desc))
    run.run_cases(cs, per_tu=4, includes=INC + ('"likemon.hpp"',))
