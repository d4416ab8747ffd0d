"""C01, C03-C07: the full observable geometry of a structure (size, lengths, offsets) against the model."""
from .. import gen, model as m
from ..engine import Case
from .common import expected_lengths, pathstr, rng_for


def consumed(node):
    """names of dimensions that exist somewhere below but not in the resulting structure"""
    out = set()

    def rec(n):
        if isinstance(n, m.Node):
            out.update(m.tree_dims(n.sig()))
            for v in vars(n).values():
                rec(v)
        elif isinstance(n, (list, tuple)):
            for v in n:
                rec(v)
    rec(node)
    return sorted(out - set(m.tree_dims(node.sig())))


def own_lengths(node):
    """dimensions whose length is fixed inside: a length in the state must not change it (views that derive their length from
    the state reject or use it)"""
    kinds = set()

    def rec(n):
        if isinstance(n, m.Node):
            kinds.add(type(n).__name__)
            for v in vars(n).values():
                rec(v)
        elif isinstance(n, (list, tuple)):
            for v in n:
                rec(v)

    def under(t):
        return [] if t is None else ([t[0]] if t[1] == 't' else []) + [d for c in t[3] for d in under(c)]
    rec(node)
    if not kinds <= {"Scalar", "Vector", "Tuple", "SetLength", "Rename", "Hoist", "Reorder", "Bcast", "Fix"}:
        return []
    tup = set(under(node.sig()))
    return [d for d in m.tree_dims(node.sig()) if d not in tup]


def body(node):
    t = m.cpp_tree(node.sig())
    foreign = consumed(node) + ["@"]
    own = own_lengths(node)
    return """
	const auto s = %s;
	vm::ev("S %%zu", vm::num(s | noarr::get_size()));
	vm::walk<%s>(s, true, [&](auto st, const std::string &path) {
		vm::ev("O %%s %%zu %%s", path.c_str(), vm::num(s | noarr::offset(st)), vm::elem(s, st));
	});
	// a state may carry indices of dimensions the structure does not have (as in a traversal over several structures)
	vm::walk<%s>(s, false, [&](auto st, const std::string &path) {
		const auto st2 = noarr::make_state<%s>(%s) & st;
		vm::ev("N %%s %%zu %%s", path.c_str(), vm::num(s | noarr::offset(st2)), vm::elem(s, st2));
	});
	// the library's own enumeration order of the dimensions
	noarr::traverser(s).for_each([&](auto st) {
		vm::ev("V %%s", vm::path<%s>(st).c_str());
	});
""" % (node.expr(), t, t, ", ".join(["noarr::index_in<%s>" % m.q(d) for d in foreign] + ["noarr::length_in<%s>" % m.q(d) for d in foreign + own]),
       ", ".join(str(k + 1) for k in range(2 * len(foreign) + len(own))),
       ", ".join(m.q(d) for d in m.tree_dims(node.sig())) or "'?'")


def check(node, evs, exact=True, order=True, inject=False):
    bad = []
    size = None
    lens, offs, visits, types, noisy = {}, {}, [], {}, {}
    for e in evs:
        k = e[0]
        if k == "O":
            _, p, o, ty = e.split()
            types[p] = ty
            if p in offs:
                bad.append("element %s reported twice" % p)
            offs[p] = int(o)
        elif k == "N":
            _, p, o, ty = e.split()
            noisy[p] = (int(o), ty)
        elif k == "L":
            _, p, d, n = e.split()
            lens[(p, d)] = int(n)
        elif k == "S":
            size = int(e.split()[1])
        elif k == "V":
            visits.append(e[2:])
    want = node.size({})
    if exact and size != want:
        bad.append("size is %s, expected %s" % (size, want))
    el = expected_lengths(node)
    for k in set(el) | set(lens):
        if el.get(k) != lens.get(k):
            bad.append("length of dimension %s at [%s] is %s, expected %s" % (k[1], k[0], lens.get(k), el.get(k)))
            break
    dims = m.tree_dims(node.sig())
    seq = list(m.elements(node))
    exp = {pathstr(i): node.offset(i, {}) for i in seq}
    if set(exp) != set(offs):
        bad.append("enumerated elements differ: missing %s, extra %s" % (
            sorted(set(exp) - set(offs))[:3], sorted(set(offs) - set(exp))[:3]))
    elif exact:
        for p, o in exp.items():
            if offs[p] != o:
                bad.append("offset of [%s] is %d, expected %d" % (p, offs[p], o))
                break
        for i in seq:
            if types.get(pathstr(i)) != node.scalar(i).key:
                bad.append("element [%s] has type %s, expected %s" % (pathstr(i), types.get(pathstr(i)), node.scalar(i).key))
                break
    for p, o in offs.items():
        if noisy.get(p) != (o, types[p]):
            bad.append("with indices of foreign dimensions in the state, element [%s] is at %s, without them at %s" % (p, noisy.get(p), (o, types[p])))
            break
    # every element inside the structure
    for i in seq:
        p = pathstr(i)
        if p in offs and size is not None and offs[p] + node.scalar(i).sz > size:
            bad.append("element [%s] at %d..%d lies outside the %d bytes of the structure" % (
                p, offs[p], offs[p] + node.scalar(i).sz, size))
            break
    if inject:
        iv = sorted((offs[pathstr(i)], node.scalar(i).sz, pathstr(i)) for i in seq if pathstr(i) in offs)
        for a, b in zip(iv, iv[1:]):
            if a[0] + a[1] > b[0]:
                bad.append("elements [%s] and [%s] overlap" % (a[2], b[2]))
                break
    if order:
        # nesting order: compare the visits with the model's sequence, using full index sets
        want_v = [pathstr(i, dims) for i in seq]
        if visits != want_v:
            k = next((j for j, (a, b) in enumerate(zip(visits, want_v)) if a != b), min(len(visits), len(want_v)))
            bad.append("default traversal differs at step %d: %s, expected %s (%d visits, %d expected)" % (
                k, visits[k:k + 1], want_v[k:k + 1], len(visits), len(want_v)))
    return bad


def cases(run, shapes, npsets, exact=True, inject=False, order=True):
    r = rng_for(run, "params")
    out = []
    for sh in shapes:
        ps = gen.paramsets(sh, r, npsets)
        if not ps:
            continue
        node0 = ps[0][0]
        out.append(Case(sh.sid, body(node0), [(v, n) for n, v in ps],
                        lambda n, evs: check(n, evs, exact=exact, inject=inject, order=order), desc=node0.expr()))
    return out


# ---------------------------------------------------------------- probes: huge lengths, sampled indices

def probe_body(node, nprobe):
    dims = m.tree_dims(node.sig())
    nd = len(dims)
    nv = len(node_slots(node))
    idx = ", ".join("q[%d]" % k for k in range(nd))
    return """
	const auto s = %s;
	vm::ev("S %%zu", vm::num(s | noarr::get_size()));
	%s
	for (std::size_t k = 0; k < %d; k++) {
		[[maybe_unused]] const std::size_t *q = p + %d + k * %d;
		vm::ev("O %%zu %%zu", k, vm::num(s | noarr::offset<%s>(%s)));
	}
""" % (node.expr(), "\n\t".join('vm::ev("L - %s %%zu", vm::num(s | noarr::get_length<%s>()));' % (d, m.q(d)) for d in dims),
       nprobe, nv, nd, ", ".join(m.q(d) for d in dims), idx)


def node_slots(node):
    """all V objects with a slot below node"""
    out = set()

    def rec(x):
        if isinstance(x, m.V):
            if x.slot is not None:
                out.add(x.slot)
        elif isinstance(x, m.Node):
            for v in vars(x).values():
                rec(v)
        elif isinstance(x, (list, tuple)):
            for v in x:
                rec(v)
    rec(node)
    return out


def probe_check(ctx, evs):
    node, probes = ctx
    bad = []
    dims = m.tree_dims(node.sig())
    for e in evs:
        f = e.split()
        if f[0] == "S" and int(f[1]) != node.size({}):
            bad.append("size is %s, expected %d" % (f[1], node.size({})))
        elif f[0] == "L" and int(f[3]) != node.length(f[2], {}, {}):
            bad.append("length of %s is %s, expected %s" % (f[2], f[3], node.length(f[2], {}, {})))
        elif f[0] == "O":
            i = probes[int(f[1])]
            if node.offset(i, {}) != int(f[2]):
                bad.append("offset of %s is %s, expected %d" % (i, f[2], node.offset(i, {})))
    if len(evs) != 1 + len(dims) + len(probes):
        bad.append("lost events")
    return bad


def probe_cases(run, shapes, npsets, nprobe=24):
    r = rng_for(run, "probe")
    out = []
    for sh in shapes:
        ps = gen.paramsets(sh, r, npsets, empty=1.0)
        sets = []
        for node, vals in ps:
            dims = m.tree_dims(node.sig())
            lens = [node.length(d, {}, {}) for d in dims]
            if any(not n for n in lens) or node.size({}) >= 2 ** 63:
                continue
            probes = []
            for k in range(nprobe):
                probes.append({d: (0 if k == 0 else n - 1 if k == 1 else r.choice([0, n - 1, n // 2, r.randrange(n), r.randrange(n)]))
                               for d, n in zip(dims, lens)})
            flat = [pr[d] for pr in probes for d in dims]
            sets.append((list(vals) + flat, (node, probes)))
        if not sets:
            continue
        node0 = sets[0][1][0]
        out.append(Case(sh.sid, probe_body(node0, nprobe), sets, probe_check, desc=node0.expr()))
    return out
