"""Element access: every access path addresses the same, in-bounds, non-overlapping bytes; values survive."""
import random

from .. import gen, model as m
from ..engine import Case
from .common import pathstr, rng_for
from .trav import diff, groups
MIN_EXEC = {"quick": 150, "thorough": 1000}


def walk_args(dims, var="st"):
    return ", ".join("%s.template get<noarr::index_in<%s>>()" % (var, m.q(d)) for d in dims)


def has_t(t):
    return t is not None and (t[1] == 't' or any(has_t(c) for c in t[3]))


def make(sh, node, rng):
    t = node.sig()
    dims = m.tree_dims(t)
    T = m.cpp_tree(t)
    b = ["""	const auto s = %s;
	const std::size_t size = vm::num(s | noarr::get_size());
	const std::unique_ptr<char[]> mem(new char[size]);          // exactly as large as declared
	char *const base = mem.get();
	std::memset(base, 0x5a, size);
	const auto rb = noarr::make_bag(s, (void *)base);
	const auto cb = noarr::make_bag(s, (const void *)base);
	auto ub = noarr::make_bag(s);
	auto vb = noarr::make_vector_bag(s);
	vm::ev("S %%zu %%zu %%zu", size, vm::num(rb.size()), vm::num(ub.size()));
	vm::ev("zero %%d", (int)std::all_of((const char *)ub.data(), (const char *)ub.data() + size, [](char c) { return c == 0; }));
	vm::ev("cap %%zu", vb.data() ? (std::size_t)size : (std::size_t)0);
	auto at = [&](const char *k, const void *a, const void *from) { vm::ev("%%s %%td", k, (const char *)a - (const char *)from); };
	std::uint64_t id = 0;""" % node.expr()]
    acc = []
    acc.append('at("A", &(s | noarr::get_at((void *)base, st)), base);')
    acc.append('at("A", &(s | noarr::get_at((const void *)base, st)), base);')
    acc.append('at("A", base + vm::num(s | noarr::offset(st)), base);')
    acc.append('at("A", &rb[st], base); at("A", &cb[st], base); at("A", &ub[st], ub.data()); at("A", &ub.get_ref()[st], ub.data()); at("A", &vb[st], vb.data());')
    acc.append('at("A", &rb.get_ref()[st], base);')
    acc.append('static_assert(std::is_const_v<std::remove_reference_t<decltype(cb[st])>> && !std::is_const_v<std::remove_reference_t<decltype(rb[st])>>);')
    n_acc = 9
    if dims:
        for k in range(2):
            p = list(dims)
            rng.shuffle(p)
            if has_t(t):
                continue
            q = ", ".join(m.q(d) for d in p)
            a = walk_args(p)
            acc.append('at("A", &(s | noarr::get_at<%s>((void *)base, %s)), base); at("A", base + vm::num(s | noarr::offset<%s>(%s)), base);' % (q, a, q, a))
            acc.append('at("A", &rb.template at<%s>(%s), base); at("A", base + vm::num(rb.template offset<%s>(%s)), base);' % (q, a, q, a))
            acc.append('at("A", &rb[noarr::idx<%s>(%s)], base);' % (q, a))
            n_acc += 5
        # fix some of the dims, address the rest
        if not has_t(t):
            k = rng.randint(1, len(dims))
            part = rng.sample(dims, k)
            left = [d for d in dims if d not in part]
            f = 'noarr::fix<%s>(%s)' % (", ".join(m.q(d) for d in part), walk_args(part))
            o = 'noarr::offset<%s>(%s)' % (", ".join(m.q(d) for d in left), walk_args(left)) if left else "noarr::offset()"
            if left:
                acc.append('at("A", base + vm::num((s ^ %s) | %s), base); at("A", &(rb ^ %s).template at<%s>(%s), base);' % (
                    f, o, f, ", ".join(m.q(d) for d in left), walk_args(left)))
            else:
                acc.append('at("A", base + vm::num((s ^ %s) | noarr::offset(noarr::empty_state)), base); at("A", &(rb ^ %s)[noarr::empty_state], base);' % (f, f))
            n_acc += 2
    b.append("""	vm::walk<%s>(s, false, [&](auto st, const std::string &path) {
		using X = std::remove_cvref_t<decltype(rb[st])>;
		vm::ev("E %%s %%zu %%zu", path.c_str(), sizeof(X), alignof(X));
		%s
		++id;
		rb[st] = vm::mk<X>(id);
		ub[st] = vm::mk<X>(id);
	});""" % (T, "\n\t\t".join(acc)))
    b.append("""	id = 0;
	vm::walk<%s>(s, false, [&](auto st, const std::string &) {
		using X = std::remove_cvref_t<decltype(rb[st])>;
		++id;
		// which element's value is here now?
		std::uint64_t who = id;
		const X v = cb[st];
		vm::ev("R %%s", vm::hex(v).c_str());
		vm::ev("Q %%s", vm::hex((X)ub[st]).c_str());
		vm::ev("M %%s", vm::hex(vm::mk<X>(id)).c_str());
	});
	std::string img;
	for (std::size_t k = 0; k < size; k++) { char h[3]; std::snprintf(h, 3, "%%02x", (unsigned char)base[k]); img += h; }
	vm::ev("I %%s", img.c_str());""" % T)

    def check(n, evs):
        g = groups(evs)
        bad = []
        size = n.size({})
        els = list(m.elements(n))
        offs = [n.offset(i, {}) for i in els]
        szs = [n.scalar(i).sz for i in els]
        if g["S"] != ["%d %d %d" % (size, size, size)]:
            bad.append("sizes reported by structure and bags: %s, expected %d" % (g["S"], size))
        if g["zero"] != ["1"]:
            bad.append("a freshly allocated bag is not zero-initialised")
        bad += diff(g.get("E", []), ["%s %d %d" % (pathstr(i), n.scalar(i).sz, n.scalar(i).al) for i in els], "element types")
        a = g.get("A", [])
        if len(a) != n_acc * len(els):
            bad.append("lost accesses: %d of %d" % (len(a), n_acc * len(els)))
        else:
            for k in range(len(els)):
                w = str(offs[k])
                x = a[k * n_acc:(k + 1) * n_acc]
                if any(y != w for y in x):
                    bad.append("access paths of element [%s] address bytes %s, expected all %s" % (pathstr(els[k]), x, w))
                    break
        # byte-exact memory image from the recorded writes
        img = bytearray([0x5a]) * size
        vals = g.get("M", [])
        if len(vals) != len(els):
            return bad + ["lost elements"]
        for k in range(len(els)):
            v = bytes.fromhex(vals[k])
            img[offs[k]:offs[k] + szs[k]] = v
        want = [bytes(img[offs[k]:offs[k] + szs[k]]).hex() for k in range(len(els))]
        bad += diff(g.get("R", []), want, "values read back")
        bad += diff(g.get("Q", []), want, "values read back from the allocated bag")
        if g.get("I", [""])[0] != bytes(img).hex():
            bad.append("memory image differs from the recorded writes")
        return bad
    return "\n".join(b), check


def check(run):
    quick = run.tier == "quick"
    run.rule = "random compositions over exactly-sized allocations under ASan/UBSan, all access paths; non-trivial = at least two events"
    pool = gen.pool("acc", 240, weights=dict(gen.RandomShape.DEFAULT, bcast=1), nlayers=(0, 3), ptuple=0.3, maxel=120, maxlen=5)
    n = 90 if quick else 240
    shs = pool if n >= len(pool) else rng_for(run, "pick").sample(pool, n)
    r = rng_for(run, "params")
    cs = []
    for sh in shs:
        ps = gen.paramsets(sh, r, 6 if quick else 24)
        if not ps:
            continue
        b, chk = make(sh, ps[0][0], random.Random("s" + sh.sid))
        cs.append(Case(sh.sid, b, [(v, nd) for nd, v in ps], chk, desc=ps[0][0].expr()))
    run.run_cases(cs, per_tu=2)
