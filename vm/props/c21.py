"""cuda_striped: private copies of a structure, interleaved in shared memory."""
from .. import gen, model as m
from ..engine import Case
from .c16 import kinds
from .common import expected_lengths, pathstr, rng_for
MIN_EXEC = {"quick": 170, "thorough": 1500}
INC = ('"stripe.hpp"',)
BANKS = [(32, 4), (32, 8), (16, 4), (8, 4), (4, 4)]
STRIPES = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 24, 31, 32, 33, 48, 64]
SCALS = ["uchar", "u16", "int", "float", "double", "u64", "b3", "b12", "short", "char"]


def body(node, N, banks, elem):
    a = [str(N)] + ([elem] if elem else []) + ([] if banks is None else [str(banks[0]), str(banks[1])])
    return """
	const auto b = %s;
	const auto s = b ^ noarr::cuda_striped<%s>();
	vm::striped<%s, %d, true>(b, s);
""" % (node.expr(), ", ".join(a), m.cpp_tree(node.sig()), N)


def checker(N, banks, esz0):
    BC, BW = banks or (32, 4)

    def check(node, evs):
        els = list(m.elements(node))
        key = None
        want = {pathstr(i): (node.offset(i, {}), node.scalar(i)) for i in els}
        offs, size, conf = {}, None, None
        lens = {}
        for e in evs:
            f = e.split()
            if f[0] == "Z":
                size, conf, al = int(f[1]), int(f[2]), int(f[3])
            elif f[0] == "L":
                lens[(f[1], f[2])] = int(f[3])
            elif f[0] == "A":
                return ["automatic stripe differs: " + e]
            elif f[0] == "O":
                offs[f[1]] = (int(f[2]), [int(x) for x in f[3:]])
            elif f[0] == "C":
                if "Bcast" in kinds(node):
                    continue        # elements are shared within a stripe
                if int(f[1]) != N * len(els) or int(f[2]):
                    return ["%s of %s stored elements changed by writing others" % (f[2], f[1])]
            elif f[0] == "G":
                bd, ns = int(f[1]), int(f[2])
                if ns != N:
                    return ["num_stripes is %d" % ns]
                by = {}
                for t, x in enumerate(f[3:]):
                    k, _, rest = x.partition(":")
                    r, _, c = rest.partition("/")
                    if int(k) != t % N:
                        return ["thread %d has current_stripe_index %s of %d" % (t, k, N)]
                    by.setdefault(int(k), []).append((int(r), int(c)))
                for k, l in by.items():
                    if sorted(r for r, _ in l) != list(range(len(l))) or any(c != len(l) for _, c in l):
                        return ["block of %d threads, stripe %d of %d: ranks/counts %s" % (bd, k, N, l)]
        if lens != expected_lengths(node):
            return ["lengths changed by cuda_striped: %s, expected %s" % (lens, expected_lengths(node))]
        if set(offs) != set(want):
            return ["elements seen %d, expected %d" % (len(offs), len(want))]
        owner, cell, bank = {}, {}, {}
        delta = None
        piece = {}
        for p, (bo, l) in offs.items():
            mo, sc = want[p]
            if bo != mo:
                return ["original offset of [%s] is %d, expected %d" % (p, bo, mo)]
            d = [y - x for x, y in zip(l, l[1:])]
            if len(set(d)) > 1 or (delta is not None and d and d[0] != delta):
                return ["offsets between neighbouring stripes are not constant: [%s] at %s" % (p, l)]
            if d:
                delta = d[0]
            for k, o in enumerate(l):
                if o + sc.sz > size:
                    return ["stripe %d [%s] at %d, %d bytes: beyond size %d" % (k, p, o, sc.sz, size)]
                if o % sc.al:
                    return ["stripe %d [%s] at %d is misaligned for %s" % (k, p, o, sc.ctype)]
                for x in range(o, o + sc.sz):
                    if owner.setdefault(x, (k, bo)) != (k, bo):
                        return ["stripe %d [%s] at %d overlaps stripe %d's element of original offset %d" % (k, p, o, *owner[x])]
                for c in range(o // BW, (o + sc.sz - 1) // BW + 1):
                    if cell.setdefault(c, k) != k:
                        return ["memory cell %d holds data of stripes %d and %d" % (c, cell[c], k)]
                    bank.setdefault(c % BC, set()).add(k)
            esz = esz0 or sc.sz
            pc = bo // esz
            if piece.setdefault(pc, l[0] - bo) != l[0] - bo:
                return ["element piece %d (%d bytes) is not stored consecutively at [%s]" % (pc, esz, p)]
        if els:
            esz = esz0 or node.scalar(els[0]).sz
            least = -(-(N * -(-esz // BW)) // BC)
            worst = max(len(s) for s in bank.values())
            if worst > least:
                return ["a bank holds data of %d stripes where %d is possible" % (worst, least)]
            if worst > conf or conf < 1:
                return ["a bank holds data of %d stripes, max_conflict_size is %d" % (worst, conf)]
        if al < max([BW] + [node.scalar(i).al for i in els]):
            return ["alignment %d" % al]
        return []
    return check


def uniform(node):
    sc = set()
    for i in m.elements(node):
        sc.add(node.scalar(i).key)
    return len(sc) == 1


def hand(run, r, n):
    """scalars and explicit element types under plain vectors, many stripe counts and bank shapes"""
    out = []
    combos = []
    for N in STRIPES:
        for b in [None] + BANKS[1:]:
            for t in SCALS:
                for e in (0, 0, 1):
                    combos.append((N, b, t, e))
    # deterministic core: the stripe counts where alignment, width and conflicts interact
    core = [(6, None, "double", 0), (10, None, "double", 0), (3, None, "u64", 0), (12, None, "u64", 1), (5, (16, 4), "double", 0), (33, None, "uchar", 0),
            (7, None, "b3", 0), (64, None, "double", 0), (32, None, "b12", 0), (9, (32, 8), "b12", 0), (1, None, "u16", 1), (31, None, "u16", 0),
            (3, (4, 4), "b12", 0), (20, (8, 4), "b3", 1)]
    for c, (N, b, t, e) in enumerate(core + r.sample(combos, n - len(core))):
        s0 = m.Scalar(t)
        elem, esz = None, None
        inner = s0
        if e:
            k = r.choice([2, 3, 5])
            inner = m.Vector(s0, "y", m.V(k), "array")
            if r.random() < 0.3:
                inner = m.Vector(inner, "z", m.V(2), "array")
            elem, esz = "decltype(%s)" % inner.expr(), inner.size({})
        elif r.random() < 0.2:
            elem, esz = "noarr::scalar<%s>" % s0.ctype, s0.sz
        two = r.random() < 0.5
        static = r.random() < 0.3
        ps = []
        lens = set()
        cap = max(1, 6000 // (N * max(1, inner.size({}) // s0.sz)))
        sl = [r.randint(1, 7), r.randint(1, 9)]
        for _ in range(4 if run.tier == "quick" else 10):
            a, bb = (sl if static else [r.choice([0, 1, 2, r.randint(3, 40)]), r.randint(1, 9)])
            a = min(a, cap)
            node = m.Vector(inner, "i", m.V(a) if static else m.V(a, 0), "array" if static else "vector")
            vals = [] if static else [a]
            if two:
                bb = min(bb, max(1, cap // max(1, a)))
                node = m.Vector(node, "j", m.V(bb, None if static else 1), "vector")
                vals += [] if static else [bb]
            if (a, bb if two else 0) in lens:
                continue
            lens.add((a, bb if two else 0))
            ps.append((vals, node))
            if static:
                break
        out.append(Case("h%03d" % c, body(ps[0][1], N, b, elem), ps, checker(N, b, esz), desc="%s ^ cuda_striped<%d, %s, %s>()" % (ps[0][1].expr(), N, elem, b)))
    return out


def rand(run, r, pool, n, np):
    out = []
    ps = pool if n >= len(pool) else r.sample(pool, n)
    for sh in ps:
        sets = gen.paramsets(sh, r, np)
        sets = [(nd, v) for nd, v in sets if uniform(nd)]
        if not sets:
            continue
        nd0 = sets[0][0]
        N = r.choice([1, 2, 3, 5, 6, 8, 12, 16, 32, 33])
        b = r.choice([None, None] + BANKS)
        sc = nd0.scalar(next(iter(m.elements(nd0))))
        elem = "noarr::scalar<%s>" % sc.ctype if "Tuple" in kinds(nd0) or "IntoBlocksStatic" in kinds(nd0) or r.random() < 0.3 else None
        out.append(Case(sh.sid, body(nd0, N, b, elem), [(v, nd) for nd, v in sets], checker(N, b, None),
                        desc="%s ^ cuda_striped<%d, %s, %s>()" % (nd0.expr(), N, elem, b)))
    return out


def check(run):
    quick = run.tier == "quick"
    run.rule = "cuda_striped over vectors and random compositions: every stripe, every element, explicit and thread-selected stripes, several blocks of threads; non-trivial = at least two events"
    r = rng_for(run, "p")
    cs = hand(run, r, 60 if quick else 260)
    w = dict(vector=3, bcast=1, slice=2, shift=2, span=1, step=1, reverse=2, hoist=2, rename=2, fix=1, into_blocks=2, into_blocks_dynamic=1, into_blocks_static=1,
             merge_blocks=1, join=1, zcurve=1, reorder=1)
    pool = gen.pool("stripe", 150, weights=w, nlayers=(1, 4), basedims=(1, 2), ptuple=0.2, maxel=150, maxlen=6)
    cs += rand(run, r, pool, 30 if quick else 150, 5 if quick else 12)
    run.run_cases(cs, per_tu=6, includes=INC)
