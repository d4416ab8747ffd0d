"""State algebra: creation, with, remove, filter, merge, arithmetic, comparisons, index helpers."""
import random

from ..engine import Case
from .common import rng_for
MIN_EXEC = {"quick": 150, "thorough": 1000}
M64 = 1 << 64
TAGS = [("i", d) for d in "xyzw"] + [("l", d) for d in "xyz"]


def tag(t):
    return "noarr::%s<'%s'>" % ("index_in" if t[0] == "i" else "length_in", t[1])


PRE = """
template<class Tag, class St>
inline void st1(const char *nm, std::string &s, const St &st) {
	if constexpr (noarr::state_contains<St, Tag>)
		s += std::string(nm) + "=" + std::to_string(static_cast<std::size_t>(st.template get<Tag>())) + " ";
}
template<class St>
inline void dump(const char *what, const St &st) {
	std::string s;
	%s
	vm::ev("%%s %%s", what, s.c_str());
}
""" % "\n\t".join('st1<%s>("%s%s", s, st);' % (tag(t), t[0], t[1]) for t in TAGS)


class G:
    """grows a chain of named states; fixed rng -> fixed program; values from p or static"""

    def __init__(self, rng):
        self.r = rng
        self.lines, self.ops = [], []      # ops: list of (name, fn(values)->expected string)
        self.states = {}                   # name -> (tags, fn(values) -> dict)
        self.stat = {}                     # name -> set of static tags
        self.np = 0
        self.n = 0

    def slot(self):
        self.np += 1
        return self.np - 1

    def val(self):
        """(cpp, fn(values), static?)"""
        if self.r.random() < 0.35:
            v = self.r.randrange(0, 9)
            return "noarr::lit<%d>" % v, (lambda vs, v=v: v), True
        k = self.slot()
        return "p[%d]" % k, (lambda vs, k=k: vs[k]), False

    def new(self, cpp, tags, fn, stat):
        nm = "s%d" % self.n
        self.n += 1
        self.lines.append("const auto %s = %s;" % (nm, cpp))
        self.lines.append('dump("%s", %s);' % (nm, nm))
        self.states[nm] = (tags, fn)
        self.stat[nm] = stat
        self.ops.append((nm, lambda vs, fn=fn: "".join("%s%s=%d " % (t[0], t[1], fn(vs)[t] % M64) for t in TAGS if t in fn(vs))))
        return nm

    def flag(self, cpp, fn):
        nm = "b%d" % self.n
        self.n += 1
        self.lines.append('vm::ev("%s %%zu", (std::size_t)(%s));' % (nm, cpp))
        self.ops.append((nm, lambda vs, fn=fn: str(int(fn(vs)) % M64)))

    def fresh(self):
        r = self.r
        k = r.randint(0, 4)
        tags = r.sample(TAGS, k)
        vals = [self.val() for _ in tags]
        form = r.choice(["make_state", "idx", "with"])
        if form == "idx" and all(t[0] == "i" for t in tags) and tags:
            cpp = "noarr::idx<%s>(%s)" % (", ".join("'%s'" % t[1] for t in tags), ", ".join(v[0] for v in vals))
        elif form == "make_state" and tags:
            cpp = "noarr::make_state<%s>(%s)" % (", ".join(tag(t) for t in tags), ", ".join(v[0] for v in vals))
        elif tags:
            cpp = "noarr::empty_state.with<%s>(%s)" % (", ".join(tag(t) for t in tags), ", ".join(v[0] for v in vals))
        else:
            cpp = "noarr::empty_state"
        fs = {t: v[1] for t, v in zip(tags, vals)}
        return self.new(cpp, set(tags), lambda vs: {t: f(vs) for t, f in fs.items()}, {t for t, v in zip(tags, vals) if v[2]})

    def step(self):
        r = self.r
        a = r.choice(list(self.states))
        b = r.choice(list(self.states))
        (ta, fa), (tb, fb) = self.states[a], self.states[b]
        sa, sb = self.stat[a], self.stat[b]
        op = r.choice(["with", "remove", "filter", "and", "and", "plus", "minus", "plus", "minus", "neg", "cmp", "cmp", "get", "upd", "neigh", "fi", "getn", "has"])
        if op == "with":
            t = r.sample(TAGS, r.choice([1, 1, 2]))
            v = [self.val() for _ in t]
            self.new("%s.template with<%s>(%s)" % (a, ", ".join(map(tag, t)), ", ".join(x[0] for x in v)), ta | set(t),
                     lambda vs: dict(fa(vs), **{}) | {k: x[1](vs) for k, x in zip(t, v)}, (sa - set(t)) | {k for k, x in zip(t, v) if x[2]})
        elif op == "remove":
            t = r.sample(TAGS, r.choice([1, 1, 2]))
            self.new("%s.template remove<%s>()" % (a, ", ".join(map(tag, t))), ta - set(t),
                     lambda vs: {k: v for k, v in fa(vs).items() if k not in t}, sa - set(t))
        elif op == "filter":
            t = r.sample(TAGS, r.choice([1, 2, 3]))
            self.new("%s.template filter<%s>()" % (a, ", ".join(map(tag, t))), ta & set(t),
                     lambda vs: {k: v for k, v in fa(vs).items() if k in t}, sa & set(t))
        elif op == "and":
            self.new("%s & %s" % (a, b), ta | tb, lambda vs: fa(vs) | fb(vs), (sa - tb) | sb)
        elif op in ("plus", "minus"):
            sg = 1 if op == "plus" else -1

            def f(vs):
                x, y = fa(vs), fb(vs)
                return {k: (x.get(k, 0) + sg * y.get(k, 0)) % M64 for k in set(x) | set(y)}
            self.new("%s %s %s" % (a, "+" if sg > 0 else "-", b), ta | tb, f, (sa & sb) | (sa - tb) | (sb - ta))
        elif op == "neg":
            self.new("-%s" % a, ta, lambda vs: {k: -v % M64 for k, v in fa(vs).items()}, sa)
        elif op == "cmp":
            self.flag("%s == %s" % (a, b), lambda vs: fa(vs) == fb(vs))
            self.flag("%s != %s" % (a, b), lambda vs: fa(vs) != fb(vs))

            def le(x, y):
                return all(k in y and v <= y[k] for k, v in x.items())
            self.flag("%s <= %s" % (a, b), lambda vs: le(fa(vs), fb(vs)))
            self.flag("%s >= %s" % (a, b), lambda vs: le(fb(vs), fa(vs)))
            self.flag("%s < %s" % (a, b), lambda vs: le(fa(vs), fb(vs)) and fa(vs) != fb(vs))
            self.flag("%s > %s" % (a, b), lambda vs: le(fb(vs), fa(vs)) and fa(vs) != fb(vs))
        elif op == "get":
            for t in ta:
                self.flag("%s.template get<%s>()" % (a, tag(t)), lambda vs, t=t: fa(vs)[t])
                self.flag(("noarr::get_index<'%s'>(%s)" if t[0] == "i" else "noarr::get_length_in<'%s'>(%s)") % (t[1], a), lambda vs, t=t: fa(vs)[t])
        elif op == "getn":
            ix = [t for t in ta if t[0] == "i"]
            if len(ix) >= 2:
                x, y = r.sample(sorted(ix), 2)
                self.flag("std::get<0>(noarr::get_indices<'%s', '%s'>(%s)) * 1000 + std::get<1>(noarr::get_indices<'%s', '%s'>(%s))" % (
                    x[1], y[1], a, x[1], y[1], a), lambda vs: fa(vs)[x] * 1000 + fa(vs)[y])
            ix = [t for t in ta if t[0] == "l"]
            if len(ix) >= 2:
                ls = r.sample(sorted(ix), r.randint(2, len(ix)))
                q = ", ".join("'%s'" % x[1] for x in ls)
                for k, z in enumerate(ls):
                    self.flag("std::get<%d>(noarr::get_lengths_in<%s>(%s))" % (k, q, a), lambda vs, z=z: fa(vs)[z])
        elif op == "has":
            for t in TAGS:
                self.flag("noarr::state_contains<decltype(%s), %s>" % (a, tag(t)), lambda vs, t=t: t in ta)
        elif op == "upd":
            ix = [t for t in sorted(ta) if t[0] == "i"]
            if ix:
                t = r.choice(ix)
                if r.random() < 0.3:
                    v = r.randrange(9)
                    self.new("noarr::update_index<'%s'>(%s, [&](auto) { return noarr::lit<%d>; })" % (t[1], a, v), ta, lambda vs: fa(vs) | {t: v}, sa | {t})
                    return
                k = self.slot()
                self.new("noarr::update_index<'%s'>(%s, [&](auto i) { return i * 3 + p[%d]; })" % (t[1], a, k), ta,
                         lambda vs: fa(vs) | {t: (fa(vs)[t] * 3 + vs[k]) % M64}, sa - {t})
        elif op == "neigh":
            ix = [t for t in sorted(ta) if t[0] == "i" and t not in sa]
            if ix:
                ts = r.sample(ix, r.randint(1, len(ix)))
                ds = [r.choice([1, -1, 2, -3, 5, 0, 70000, -70000, 5000000000, -5000000000, 1 << 40]) for _ in ts]
                lit = [r.choice(["%d", "%dL", "std::ptrdiff_t(%d)"] + (["(signed char)%d", "std::size_t(%d)"] if 0 <= d < 100 else ["(short)%d"] if abs(d) < 100 else []))
                       if abs(d) < 1 << 31 else "%dL" for d in ds]
                self.new("noarr::neighbor<%s>(%s, %s)" % (", ".join("'%s'" % t[1] for t in ts), a, ", ".join(l % d for l, d in zip(lit, ds))), ta,
                         lambda vs: fa(vs) | {t: (fa(vs)[t] + d) % M64 for t, d in zip(ts, ds)}, sa)
        elif op == "fi":
            ds = r.sample("xyzw", r.randint(1, 4))
            q = ", ".join("'%s'" % d for d in ds)
            self.new("noarr::filter_indices<%s>(%s)" % (q, a), {t for t in ta if t[0] == "i" and t[1] in ds},
                     lambda vs: {k: v for k, v in fa(vs).items() if k[0] == "i" and k[1] in ds}, {t for t in sa if t[0] == "i" and t[1] in ds})
            self.new("noarr::filter_lengths<%s>(%s)" % (q, a), {t for t in ta if t[0] == "l" and t[1] in ds},
                     lambda vs: {k: v for k, v in fa(vs).items() if k[0] == "l" and k[1] in ds}, {t for t in sa if t[0] == "l" and t[1] in ds})


def program(k):
    r = random.Random("state/%d" % k)
    g = G(r)
    for _ in range(4):
        g.fresh()
    for _ in range(22):
        g.step()
    return g


def check(run):
    quick = run.tier == "quick"
    run.rule = "random programs of state operations (static and runtime values mixed), each executed with several value sets; non-trivial = at least two events"
    r = rng_for(run, "v")
    ks = list(range(160))
    if quick:
        ks = r.sample(ks, 40)
    cs = []
    for k in ks:
        g = program(k)

        def chk(vals, evs, g=g):
            got = [e.split(" ", 1) for e in evs]
            bad = []
            for (nm, f), e in zip(g.ops, got):
                w = f(vals)
                if e[0] != nm or e[1] != w:
                    src = [l for l in g.lines if l.startswith("const auto %s =" % nm) or '"%s ' % nm in l]
                    return ["%s is '%s', expected '%s' (%s)" % (e[0], e[1], w, src[:1])]
            if len(got) != len(g.ops):
                bad.append("lost events")
            return bad
        ps = []
        for _ in range(8 if quick else 40):
            hi = r.choice([4, 10, 1000, 2 ** 40])
            ps.append(([r.randrange(hi) for _ in range(g.np)],) * 2)
        cs.append(Case("st%03d" % k, "\t" + "\n\t".join(g.lines), ps, chk, prelude=PRE, desc="state program %d: %s" % (k, " ".join(g.lines)[:1500])))
    run.run_cases(cs, per_tu=5)
