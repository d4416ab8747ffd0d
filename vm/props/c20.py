"""Bags: ownership (one allocation, freed once), element addresses, references, views applied to bags."""
import random
import struct

from .. import gen, model as m
from ..engine import Case
from .c16 import kinds
from .common import rng_for
MIN_EXEC = {"quick": 45, "thorough": 400}
INC = ('"bagmon.hpp"',)
MAKE = {
    "own": ["noarr::make_bag(%s)", "noarr::bag(%s)", "noarr::make_unique_bag(%s)", "noarr::bag(%s, std::make_unique<char[]>(%s | noarr::get_size()))"],
    "vec": ["noarr::make_vector_bag(%s)"],
    "raw": ["noarr::make_bag(%s, (void *)%s)", "noarr::bag(%s, (void *)%s)"],
    "craw": ["noarr::make_bag(%s, (const void *)%s)", "noarr::bag(%s, (const void *)%s)"],
    "nul": ["noarr::make_bag(%s, nullptr)", "noarr::bag(%s, nullptr)"],
}
VIEWPOOL = dict(vector=3, rename=2, hoist=2, reverse=2, shift=2, slice=1, reorder=1, bcast=1)


def mk(key, k):
    """bytes of vm::mk<type>(k)"""
    n = m.SCALARS[key][1]
    if key in ("float", "double"):
        return struct.pack("<f" if key == "float" else "<d", float(k))
    if key[0] in "bq":
        return bytes((((k >> (8 * (i % 8))) ^ (i // 8 * 37)) & 255) for i in range(n))
    return (k & ((1 << 8 * n) - 1)).to_bytes(n, "little")


class G:
    """a random straight-line program over bags: ops (shared by all parameter sets) and its text"""

    def __init__(self, rng, node, nops):
        self.r = rng
        self.base = node
        self.ops, self.lines = [], []
        self.vars = {}       # name -> dict(kind, chain (list of node transformers), mem, type)
        self.mems = {}       # mem id -> owner alive?
        self.n = self.nm = 0
        self.tuple = "Tuple" in kinds(node)
        for _ in range(nops):
            self.step()
        for v in list(self.vars):
            self.show(v)

    def name(self):
        self.n += 1
        return "v%d" % self.n

    def tracked(self, label, text):
        self.lines.append("vm::trk::start(); %s vm::trk::stop(\"%s\");" % (text, label))

    def node(self, chain):
        n = self.base
        for f in chain:
            n = f(n)
        return n

    def dims(self, chain):
        return m.tree_dims(self.node(chain).sig())

    def show(self, v):
        x = self.vars[v]
        if x["kind"] == "gone":
            return
        if x["mem"] is not None and not self.mems[x["mem"]]:
            return
        ds = self.dims(x["chain"])
        self.lines.append('vm::show<%s>("%s", %s);' % (", ".join(m.q(d) for d in ds), v, v))
        self.ops.append(("show", v))

    def add(self, v, **k):
        self.vars[v] = k
        self.lines.append('vm::traits<noarr::rename_proto<\'%s\', \'~\'>>("%s", %s);' % (self.dims(k["chain"])[0] if self.dims(k["chain"]) else "?", v, v)
                          if self.dims(k["chain"]) else "")
        if self.dims(k["chain"]):
            self.ops.append(("traits", v, k["kind"]))

    def alive(self, *kinds, deref=False):
        out = [v for v, x in self.vars.items() if x["kind"] in kinds and (x["mem"] is None or self.mems[x["mem"]])]
        return [v for v in out if self.vars[v]["mem"] is not None] if deref else out

    def step(self):
        r = self.r
        op = r.choice(["make", "make", "move", "copy", "assign", "assign", "ref", "ref", "view", "view", "view", "fill", "fill", "show"])
        if op == "make" or not self.vars:
            kind = r.choice(["own", "own", "own", "vec", "raw", "craw", "nul"])
            same = [x for x in self.vars.values() if x["kind"] == kind and not x["chain"]]
            t = r.choice(MAKE[kind])
            v = self.name()
            mem = None
            if kind in ("own", "vec"):
                mem = self.nm
                self.nm += 1
                self.mems[mem] = True
            elif kind in ("raw", "craw"):
                mem = self.nm
                self.nm += 1
                self.mems[mem] = True
                self.lines.append("const std::unique_ptr<char[]> x%d(new char[s | noarr::get_size()]); std::memset(x%d.get(), 0xA5, s | noarr::get_size());" % (mem, mem))
                t = t % ("%s", "x%d.get()" % mem)
            t = t.replace("%s", "s")
            if r.random() < 0.2 and self.alive(kind) and kind != "nul":
                # assign over a bag of the same type
                c = [w for w in self.alive("own", "raw", "craw", "vec") if self.vars[w]["kind"] == kind and not self.vars[w]["chain"]]
                if c:
                    w = r.choice(c)
                    self.tracked(w, "%s = %s;" % (w, t))
                    self.ops.append(("remake", w, kind, mem))
                    if kind in ("own", "vec"):
                        self.mems[self.vars[w]["mem"]] = False
                    self.vars[w]["mem"] = mem
                    self.show(w)
                    return
            self.tracked(v, "auto %s = %s;" % (v, t))
            self.ops.append(("make", v, kind, mem))
            self.add(v, kind=kind, chain=[], mem=mem, type=())
            self.show(v)
        elif op in ("move", "copy"):
            c = self.alive("own", "vec", "raw", "craw", "nul") if op == "move" else self.alive("raw", "craw", "nul")
            if not c:
                return
            w = r.choice(c)
            v = self.name()
            x = self.vars[w]
            self.tracked(v, "auto %s = %s;" % (v, "std::move(%s)" % w if op == "move" else w))
            self.ops.append(("move" if op == "move" else "copy", v, w, x["kind"]))
            y = dict(x)
            self.moved(w)
            self.add(v, **y)
            self.show(v)
            self.show(w)
        elif op == "assign":
            c = [(a, b) for a in self.vars for b in self.vars if a != b and self.vars[a]["kind"] == self.vars[b]["kind"] and self.vars[a]["kind"] != "gone"
                 and self.vars[a]["type"] == self.vars[b]["type"] and a in self.alive("own", "vec", "raw", "craw", "nul") and b in self.alive("own", "vec", "raw", "craw", "nul")]
            if not c:
                return
            a, b = r.choice(c)
            k = self.vars[a]["kind"]
            mv = k in ("own", "vec") or r.random() < 0.5
            self.tracked(a, "%s = %s;" % (a, "std::move(%s)" % b if mv else b))
            self.ops.append(("assign", a, b, k))
            if k in ("own", "vec") and self.vars[a]["mem"] is not None:
                self.mems[self.vars[a]["mem"]] = False
            self.vars[a]["mem"] = self.vars[b]["mem"]
            self.moved(b)
            self.show(a)
            self.show(b)
        elif op == "ref":
            c = self.alive("own", "vec", "raw", "craw", deref=True)
            if not c:
                return
            w = r.choice(c)
            v = self.name()
            x = self.vars[w]
            self.tracked(v, "auto %s = %s.get_ref();" % (v, w))
            self.ops.append(("ref", v, w))
            self.add(v, kind={"own": "raw", "raw": "raw", "vec": "craw", "craw": "craw"}[x["kind"]], chain=x["chain"], mem=x["mem"], type=x["type"], frozen=x.get("frozen", frozenset()))
            self.show(v)
        elif op == "view":
            c = self.alive("own", "vec", "raw", "craw", "nul")
            c = [v for v in c if len(self.vars[v]["chain"]) < 4 and self.dims(self.vars[v]["chain"]) and not (self.vars[v]["kind"] == "own" and self.vars[v]["mem"] is None)]
            if not c:
                return
            w = r.choice(c)
            x = self.vars[w]
            ds = self.dims(x["chain"])
            fz = x.get("frozen", frozenset())        # dimensions of dynamic blocks depend on each other
            names = [chr(c) for c in range(ord("A"), ord("Z") + 1) if chr(c) not in ds]
            d = r.choice(ds)
            k = r.choice(["rename"] if self.tuple or d in fz else ["rename", "hoist", "reverse", "dyn"])
            n1, n2, n3 = r.sample(names, 3)
            if k == "rename":
                f = lambda n: m.Rename(n, [(d, n1)])
                fz = frozenset(n1 if q == d else q for q in fz)
            elif k == "hoist":
                f = lambda n: m.Hoist(n, [d])
            elif k == "reverse":
                f = lambda n: m.Reverse(n, d)
            else:
                f = lambda n: m.IntoBlocksDyn(n, d, n1, n2, n3, m.V(3), spell="short")
                fz = fz | {n1, n2, n3}
            proto = f(self.node(x["chain"])).proto()
            if k == "dyn":
                proto = "noarr::into_blocks_dynamic<'%s', '%s', '%s', '%s'>(3)" % (d, n1, n2, n3)
            v = self.name()
            mv = x["kind"] in ("own", "vec") or r.random() < 0.5
            self.tracked(v, "auto %s = %s ^ %s;" % (v, "std::move(%s)" % w if mv else w, proto))
            self.ops.append(("view", v, w, x["kind"], f))
            y = dict(x, chain=x["chain"] + [f], type=x["type"] + (proto,), frozen=fz)
            self.moved(w)
            self.add(v, **y)
            self.show(v)
            self.show(w)
        elif op == "fill":
            c = self.alive("own", "raw", deref=True)
            if not c:
                return
            v = r.choice(c)
            salt = r.randrange(1, 1000)
            self.lines.append("vm::fill(%s, %d);" % (v, salt))
            self.ops.append(("fill", v, salt))
            for w in self.vars:
                if self.vars[w]["mem"] == self.vars[v]["mem"]:
                    self.show(w)
        elif op == "show":
            self.show(r.choice(list(self.vars)))

    def moved(self, w):
        k = self.vars[w]["kind"]
        if k == "own":
            self.vars[w]["mem"] = None
        elif k == "vec":
            self.vars[w]["kind"] = "gone"

    def body(self):
        return """
	vm::trk::reset();
	const auto s = %s;
	{
		%s
		vm::trk::start();
	}
	vm::trk::stop("end");
""" % (self.base.expr(), "\n\t\t".join(self.lines))

    # ---- the expected behaviour for concrete parameters
    def judge(self, base, evs):
        it = list(reversed(evs))
        st = {}              # var -> [kind, node, mem]
        mem = {}             # mem -> bytearray
        alloc = {}           # allocation id of the log -> mem (live)
        size = base.size({})

        def nxt(what):
            return it.pop() if it else "<nothing>"

        def peek():
            return it[-1] if it else "<nothing>"

        def allocs(label, new, freed):
            """one block for the new memory, the freed one released, nothing else"""
            e = nxt("N")
            f = e.split()
            if f[:2] != ["N", label]:
                return "expected the allocations of %s, got %s" % (label, e)
            for a in f[2:]:
                if a[0] == "+":
                    i, n = a[1:].split(":")
                    if new is None:
                        return "%s: memory was allocated (%s bytes) where the data should have been passed on" % (label, n)
                    if int(n) < size:
                        return "%s: %s bytes were allocated for a structure of size %d" % (label, n, size)
                    alloc[int(i)] = new
                    new = None
                elif a[0] == "-":
                    i = int(a[1:])
                    if alloc.get(i) not in freed:
                        return "%s: memory that is still owned was freed" % label
                    freed = [x for x in freed if x != alloc[i]]
                    del alloc[i]
                else:
                    return "%s: memory was freed by the wrong form of delete" % label
            if new is not None and not (size == 0):
                return "%s: no memory was allocated" % label
            if [x for x in freed if x in alloc.values()]:
                return "%s: memory that is not owned any more was not freed" % label

        def owned(w):
            return [st[w][2]] if st[w][0] in ("own", "vec") and st[w][2] is not None else []
        for op in self.ops:
            bad = None
            k = op[0]
            if k in ("make", "remake"):
                _, v, kind, mm = op
                bad = allocs(v, mm if kind in ("own", "vec") else None, owned(v) if k == "remake" else [])
                if mm is not None:
                    mem[mm] = bytearray([0 if kind in ("own", "vec") else 0xA5] * size)
                st[v] = [kind, base, mm]
            elif k in ("move", "copy"):
                _, v, w, kind = op
                bad = allocs(v, None, [])
                st[v] = list(st[w])
                if kind == "own":
                    st[w][2] = None
            elif k == "assign":
                _, a, b, kind = op
                bad = allocs(a, None, owned(a))
                st[a][2] = st[b][2]
                if kind == "own":
                    st[b][2] = None
            elif k == "ref":
                _, v, w = op
                bad = allocs(v, None, [])
                st[v] = [{"own": "raw", "raw": "raw", "vec": "craw", "craw": "craw"}[st[w][0]], st[w][1], st[w][2]]
            elif k == "view":
                _, v, w, kind, f = op
                bad = allocs(v, None, [])
                st[v] = [st[w][0], f(st[w][1]), st[w][2]]
                if kind == "own":
                    st[w][2] = None
            elif k == "fill":
                _, v, salt = op
                n = st[v][1]
                for j, i in enumerate(m.elements(n)):
                    o, b = n.offset(i, {}), mk(n.scalar(i).key, salt + j)
                    mem[st[v][2]][o:o + len(b)] = b
            elif k == "traits":
                _, v, kind = op
                e = nxt("C")
                want = "C %s %s" % (v, {"own": "0 0 1 0 1 0", "vec": "0 0 1 0 1 0"}.get(kind, "1 1 1 1 1 0"))
                if e != want:
                    bad = "properties of a %s bag (copyable, assignable, movable, views on lvalue, on rvalue, layout-changing) are '%s', expected '%s'" % (kind, e, want)
            elif k == "show":
                bad = self.shown(op[1], st, mem, nxt, peek)
            if bad:
                return [bad]
        bad = allocs("end", None, [x for v in st for x in owned(v)])
        return [bad] if bad else []

    def shown(self, v, st, mem, nxt, peek):
        kind, n, mm = st[v]
        e = nxt("Z")
        sz = n.size({})
        if e != "Z %s %d %d" % (v, sz, sz):
            return "size of bag %s: %s, expected %d" % (v, e, sz)
        e = nxt("D")
        if mm is None:
            return None if e == "D %s null" % v else "the data of the empty bag %s should be null: %s" % (v, e[:80])
        if e == "D %s null" % v and sz == 0 and kind in ("vec", "craw"):
            return None
        if e.rstrip() != ("D %s %s" % (v, mem[mm].hex())).rstrip():
            return "the data of bag %s are %s, expected %s" % (v, e[:150], mem[mm].hex()[:150])
        els = list(m.elements(n))
        e = nxt("O")
        want = "O %s%s" % (v, "".join(" %d" % n.offset(i, {}) for i in els))
        if e != want:
            return "elements of bag %s are at %s, expected %s" % (v, e[:150], want[:150])
        e = nxt("B")
        if e != "B %s 0" % v:
            return "different ways to an element of bag %s disagree: %s" % (v, e)
        e = nxt("W")
        w = 2 if not els else 1 if kind in ("own", "raw") else 0
        if e != "W %s %d" % (v, w):
            return "elements of %s bag %s writable: %s, expected %d" % (kind, v, e, w)
        must = not self.tuple and not any(isinstance(x, m.IntoBlocksDyn) for x in n.chain())
        for d in m.tree_dims(n.sig()):
            if not peek().startswith("L %s %s " % (v, d)):
                if must:
                    return "the length of %s in bag %s is not available" % (d, v)
                continue
            e = nxt("L")
            try:
                ln = n.length(d, {}, {})
            except (KeyError, TypeError):
                continue
            if ln is not None and e != "L %s %s %d %d" % (v, d, ln, ln):
                return "length of %s in bag %s: %s, expected %s" % (d, v, e, ln)
        return None


def cases(run, shapes, n, nprog, nops):
    r = rng_for(run, "params")
    out = []
    for sh in shapes:
        ps = gen.paramsets(sh, r, n)
        if not ps:
            continue
        for k in range(nprog):
            g = G(random.Random("%s/%s/%d/%s" % (sh.sid, "prog", k, run.seed)), ps[0][0], nops)
            out.append(Case("%s_%d" % (sh.sid, k), g.body(), [(v, nd) for nd, v in ps], g.judge, desc=ps[0][0].expr()))
    return out


def check(run):
    quick = run.tier == "quick"
    run.rule = "random programs of 14-30 steps creating, moving, copying, assigning, referencing, viewing, writing and destroying bags over random structures, with tracked allocations; non-trivial = at least two events"
    pool = gen.pool("bag", 100, weights=VIEWPOOL, nlayers=(0, 3), basedims=(1, 3), ptuple=0, maxel=60)
    tup = gen.pool("bagt", 30, weights=dict(vector=3, rename=1), nlayers=(0, 1), basedims=(1, 2), ptuple=1, maxel=60)
    n = 20 if quick else 60
    r = rng_for(run, "p")
    ps = (pool if n >= len(pool) else r.sample(pool, n)) + (r.sample(tup, 6) if quick else tup[:15])
    run.run_cases(cases(run, ps, 4 if quick else 10, 1 if quick else 2, 14 if quick else 30), per_tu=1, includes=INC)
