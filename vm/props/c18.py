"""Text serialization: one element per line in traversal order; reading is the inverse; failures stay in the stream."""
import struct

from .. import gen, model as m
from ..engine import Case
from .common import rng_for
MIN_EXEC = {"quick": 120, "thorough": 700}
INC = ('"ser.hpp"',)
FILL = 0xA5


def value(key, k, r):
    """(token, bytes) of a value of the given type"""
    if key == "char":
        c = 33 + (k * 7 + r.randrange(3)) % 94
        return chr(c), bytes([c])
    if key in ("short", "int", "ll"):
        w = {"short": 16, "int": 32, "ll": 64}[key]
        v = r.choice([-(1 << w - 1), (1 << w - 1) - 1, r.randrange(-(1 << w - 1), 1 << w - 1), k, -k])
        return str(v), v.to_bytes(w // 8, "little", signed=True)
    if key in ("float", "double"):
        v = r.randrange(-2000, 2000) / 4.0
        return "%g" % v, struct.pack("<f" if key == "float" else "<d", v)
    n = {"b3": 3, "b12": 12, "q16": 16}[key]
    b = bytes(r.randrange(256) for _ in range(n))
    return b.hex(), b


def cstr(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t").replace("?", "\\?") + '"'


class Ctx:
    def __init__(self, node, r):
        self.node = node
        els = [(node.offset(i, {}), node.scalar(i)) for i in m.elements(node)]
        self.vals = [value(s.key, k, r) for k, (_, s) in enumerate(els)]
        self.els = els
        ws = lambda: r.choice([" ", "\n", "\t", " \n ", "\n\n"])
        self.good = r.choice(["", " ", "\n"]) + "".join(t + ws() for t, _ in self.vals) + "777"
        n = len(els)
        self.cut = r.randrange(n + 1) if n else 0
        part = "".join(t + ws() for t, _ in self.vals[:self.cut])
        # a char reads anything, so malformed input only ends there
        if self.cut < n and els[self.cut][1].key != "char" and r.random() < 0.5:
            part += "zz" + ws() + "".join(t + ws() for t, _ in self.vals[self.cut + 1:])
        self.part = part
        self.text = "".join(self.token(k) + "\n" for k in range(n))
        self.cap = r.randrange(len(self.text) + 1) if self.text else 0

    def token(self, k):
        """what is finally stored in element k (elements can share memory)"""
        mem = self.memory(len(self.els))
        o, s = self.els[k]
        for j in reversed(range(len(self.els))):
            if self.els[j][0] == o:
                return self.vals[j][0]
        raise AssertionError

    def memory(self, upto):
        b = bytearray([FILL] * self.node.size({}))
        for (o, s), (_, v) in list(zip(self.els, self.vals))[:upto]:
            b[o:o + len(v)] = v
        return b


def judge(c, evs):
    n = len(c.els)
    full = c.memory(n).hex()
    line = c.text.replace("\n", "|")
    part = c.memory(c.cut)
    loose = set()
    if c.cut < n:      # the value of the element that failed is up to the stream
        o, s = c.els[c.cut]
        loose = set(range(o, o + s.sz))
    for e in evs:
        k, _, rest = e.partition(" ")
        if k == "I" and rest != "1 777":
            return ["deserialize_data did not stop after the last element or returned another stream: %s" % rest]
        if k == "J" and rest != "1":
            return ["serialize_data returned another stream"]
        if k == "M" and rest != full:
            return ["memory after deserialization is %s, expected %s" % (rest[:120], full[:120])]
        if k == "T" and rest != line:
            return ["serialized text is %s, expected %s" % (rest[:120], line[:120])]
        if k == "U" and rest != line + "end":
            return ["text serialized from a bag is %s, expected %s" % (rest[:120], line[:120] + "end")]
        if k in "FH" and (rest == "1") != (c.cut < n):
            return ["deserialization of %s input with %d of %d elements %s" % ("incomplete" if c.cut < n else "complete", c.cut, n,
                    "does not report a failure" if c.cut < n else "reports a failure")]
        if k == "P":
            got = bytes.fromhex(rest)
            if len(got) != len(part) or any(a != b and x not in loose for x, (a, b) in enumerate(zip(got, part))):
                return ["after a failure at element %d of %d the memory is %s, expected %s" % (c.cut, n, got.hex()[:120], part.hex()[:120])]
        if k == "K" and rest != line[:c.cap]:
            return ["a sink with %d bytes of room received %s, expected %s" % (c.cap, rest[:120], line[:c.cap][:120])]
    ys = [e for e in evs if e[0] == "Y"]
    want = ["Y 1 0", "Y 1 1"] if c.cap < len(c.text) else ["Y 0 0", "Y 0 0"]
    if ys != want:
        return ["failure of the output stream was reported as %s, expected %s" % (ys, want)]
    return []


def cases(run, shapes, n):
    r = rng_for(run, "params")
    out = []
    for sh in shapes:
        ps = gen.paramsets(sh, r, n)
        if not ps:
            continue
        ctx = [Ctx(nd, r) for nd, _ in ps]
        k = len(ps[0][1])
        body = """
	static const char *const good[] = {%s};
	static const char *const part[] = {%s};
	const auto s = %s;
	vm::serial(s, vm::num(s | noarr::get_size()), good[p[%d]], part[p[%d]], p[%d]);
""" % (", ".join(cstr(c.good) for c in ctx), ", ".join(cstr(c.part) for c in ctx), ps[0][0].expr(), k, k, k + 1)
        out.append(Case(sh.sid, body, [(v + [j, c.cap], c) for j, ((_, v), c) in enumerate(zip(ps, ctx))], judge, desc=ps[0][0].expr()))
    return out


A = "noarr::scalar<int>() ^ noarr::vector<'i'>(p[0]) ^ noarr::vector<'j'>(p[1])"
B = "noarr::scalar<short>() ^ noarr::vector<'j'>(p[1]) ^ noarr::vector<'i'>(p[0])"
RELAY = [
    ("rel_t", A + " ^ noarr::hoist<'i'>()", B),
    ("rel_t2", A, B + " ^ noarr::hoist<'j'>()"),
    ("rel_blk", A + " ^ noarr::into_blocks_dynamic<'i', 'I', 'i', 'b'>(3) ^ noarr::hoist<'j'>()", "noarr::scalar<long>() ^ noarr::vector<'j'>(p[1]) ^ noarr::vector<'i'>(p[0]) ^ noarr::hoist<'j'>()"),
    ("rel_rev", A + " ^ noarr::reverse<'i'>()", A + " ^ noarr::reverse<'j'>()"),
    ("rel_tuple", "noarr::pack(" + A + ", " + A + ") ^ noarr::tuple<'t'>()", "noarr::pack(" + A + ", " + B + " ^ noarr::hoist<'j'>()) ^ noarr::tuple<'t'>()"),
    ("rel_merge", A + " ^ noarr::merge_blocks<'j', 'i', 'k'>()", "noarr::scalar<int>() ^ noarr::vector<'k'>(p[0] * p[1])"),
    ("rel_z", A + " ^ noarr::merge_zcurve<'i', 'j', 'k'>::maxlen_alignment<16, 1>()", "noarr::scalar<int>() ^ noarr::vector<'k'>(p[0] * p[1])"),
]


def relays(run, n):
    r = rng_for(run, "relay")
    out = []
    for cid, a, b in RELAY:
        body = """
	const auto s1 = %s;
	const auto s2 = %s;
	vm::relay(s1, s2, s1 | noarr::get_size(), s2 | noarr::get_size());
""" % (a, b)

        def chk(ctx, evs):
            n = sum(e[0] == "E" for e in evs)
            if n != ctx:
                return ["%d elements were transferred, expected %d" % (n, ctx)]
            if any(e != "E 0" for e in evs if e[0] == "E"):
                return ["an element read into another layout differs from the one written"]
            if "Q 0" not in evs:
                return ["the data differ after a round trip through another layout"]
            return []
        ps = []
        for _ in range(n):
            x, y = r.randint(0, 9), r.randint(0, 9)
            if "rev" in cid and not x * y:
                x = y = 3
            ps.append(([x, y], x * y * (2 if "tuple" in cid else 1)))
        out.append(Case(cid, body, ps, chk, desc=a + "  ->  " + b))
    return out


def check(run):
    quick = run.tier == "quick"
    run.rule = "random structures with all element types: valid input with random white space, truncated and malformed input, full sinks, with and without stream exceptions; re-reading in another layout; non-trivial = at least two events"
    w = dict(gen.RandomShape.DEFAULT)
    pool = gen.pool("ser", 200, weights=w, nlayers=(0, 4), basedims=(1, 3), ptuple=0.35, maxel=80)
    n = 40 if quick else 200
    ps = pool if n >= len(pool) else rng_for(run, "p").sample(pool, n)
    run.run_cases(relays(run, 4 if quick else 12) + cases(run, ps, 6 if quick else 20), per_tu=4, includes=INC)
