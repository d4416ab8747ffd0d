"""Shape pool: compositions of structures, generated from FIXED internal seeds (so that every
shape is known to build on the reference tree); the run seed only chooses which pool slice is
used beyond the core and which runtime parameters each shape is executed with."""
import itertools
import random

from . import model as m
from .model import V


class Reject(Exception):
    pass


NAMES = "ijklmnoqruvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"


def curlens(node, d):
    """all lengths dimension d can have (over assignments of the other dims it may depend on)"""
    t = node.sig()
    tup = []

    def walk(t):
        if t is None:
            return
        if t[1] == 't' and (t[0], t[2]) not in tup:
            tup.append((t[0], t[2]))
        for c in t[3]:
            walk(c)
    walk(t)
    out = set()
    for combo in itertools.product(*[range(n) for _, n in tup]):
        idx = dict(zip([x for x, _ in tup], combo))
        idx.pop(d, None)
        try:
            n = node.length(d, idx, {})
        except KeyError:
            n = None
        if n is not None:
            out.add(n)
    return out


class Ctx:
    """draws parameter values; in 'decide' mode also decides static/dynamic and bakes static values"""

    def __init__(self, rng, decide, pstatic=0.4):
        self.rng, self.decide, self.pstatic = rng, decide, pstatic
        self.values = []

    def param(self, layer, name, lo, hi, cands=None, force=None):
        """value in [lo,hi] or from cands"""
        if cands is not None:
            cands = list(cands)
            if not cands:
                raise Reject()
        elif hi < lo:
            raise Reject()
        baked = layer.setdefault("baked", {})
        if self.decide and name not in layer.get("decided", {}):
            st = self.rng.random() < self.pstatic if force is None else force
            layer.setdefault("decided", {})[name] = st
            if st:
                blo = lo
                if name in ("n", "e") and self.rng.random() < 0.97:
                    blo = min(hi, lo + 1)     # a compiled-in empty range would make every run of the shape empty
                if name == "s" and self.rng.random() < 0.7:
                    hi = max(lo, hi - 1)
                baked[name] = self.rng.choice(cands) if cands is not None else self.rng.randint(blo, hi)
        if layer["decided"][name]:
            v = baked[name]
            ok = v in cands if cands is not None else lo <= v <= hi
            if not ok:
                raise Reject()
            return V(v)
        v = self.rng.choice(cands) if cands is not None else self.edge(lo, hi)
        slot = len(self.values)
        self.values.append(v)
        return V(v, slot)

    def edge(self, lo, hi):
        r = self.rng.random()
        if r < 0.06:
            return lo
        if r < 0.25:
            return hi
        return self.rng.randint(lo, hi)


def divisors(n):
    if n > 5000:
        return [k for k in (1, 2, 3, 4, 5, 7, 8, 16, 64, 100, 1000, 1024, 4096) if n % k == 0] + [n]
    return [k for k in range(1, n + 1) if n % k == 0]


def apply_layer(layer, node, ctx, minlen=0, maxlen=6):
    k = layer["k"]
    g = layer.get
    P = ctx.param

    def one(d):
        ls = curlens(node, d)
        if not ls:
            raise Reject()
        return min(ls), ls

    if k == "vector":
        if layer.get("spell") == "array":
            return m.Vector(node, g("d"), P(layer, "n", 1, maxlen, force=True), "array")
        lo = minlen
        if g("like"):
            ls = curlens(ctx.first, g("d"))
            if len(ls) != 1:
                raise Reject()
            return m.Vector(node, g("d"), P(layer, "n", 0, 0, cands=ls, force=False), "vector")
        if "cands" in layer:
            return m.Vector(node, g("d"), P(layer, "n", 0, 0, cands=layer["cands"]), g("spell", "vector"))
        return m.Vector(node, g("d"), P(layer, "n", lo, layer.get("hi", maxlen)), g("spell", "vector"))
    if k == "bcast":
        return m.Bcast(node, g("d"), P(layer, "n", minlen, 4), g("spell", "bcast"))
    if k == "fix":
        n, _ = one(g("d"))
        return m.Fix(node, g("d"), P(layer, "i", 0, n - 1, force=True if g("tup") else None))
    if k == "shift":
        n, _ = one(g("d"))
        return m.Shift(node, g("d"), P(layer, "s", 0, n))
    if k == "slice":
        n, _ = one(g("d"))
        if g("nostart"):
            return m.Slice(node, g("d"), None, P(layer, "n", 0, n))
        s = P(layer, "s", 0, n)
        return m.Slice(node, g("d"), s, P(layer, "n", 0, n - s.val))
    if k == "span":
        n, _ = one(g("d"))
        if g("nostart"):
            return m.Span(node, g("d"), None, P(layer, "e", 0, n))
        s = P(layer, "s", 0, n)
        return m.Span(node, g("d"), s, P(layer, "e", s.val, n))
    if k == "step":
        n, _ = one(g("d"))
        kk = P(layer, "k", 1, max(n, 1) + 1)
        s = P(layer, "s", 0, kk.val - 1)
        return m.Step(node, g("d"), s, kk, g("auto", False))
    if k == "reverse":
        return m.Reverse(node, g("d"))
    if k == "rename":
        return m.Rename(node, g("pairs"))
    if k == "hoist":
        return m.Hoist(node, g("dims"))
    if k == "reorder":
        return m.Reorder(node, g("dims"))
    if k == "join":
        _, la = one(g("a"))
        _, lb = one(g("b"))
        t = node.sig()
        if la != lb or len(la) != 1 or m.tree_find(t, g("a"))[2] != m.tree_find(t, g("b"))[2]:
            raise Reject()
        return m.Join(node, g("a"), g("b"), g("d"))
    if k == "into_blocks":
        n, ls = one(g("d"))
        if len(ls) != 1:
            raise Reject()
        dv = divisors(n) if n else [1, 2, 3, 5]
        if g("major"):
            if n == 0:
                raise Reject()
            return m.IntoBlocks(node, g("d"), g("M"), g("m"), None, P(layer, "major", 0, 0, cands=dv))
        return m.IntoBlocks(node, g("d"), g("M"), g("m"), P(layer, "minor", 0, 0, cands=dv), None, g("spell", ""))
    if k == "into_blocks_dynamic":
        n, ls = one(g("d"))
        if g("major"):
            return m.IntoBlocksDyn(node, g("d"), g("M"), g("m"), g("p"), None, P(layer, "major", 1, n + 2))
        return m.IntoBlocksDyn(node, g("d"), g("M"), g("m"), g("p"), P(layer, "minor", 1, n + 2), None, g("spell", ""))
    if k == "into_blocks_static":
        n, ls = one(g("d"))
        return m.IntoBlocksStatic(node, g("d"), g("b"), g("M"), g("m"), P(layer, "minor", 1, n + 2))
    if k == "merge_blocks":
        return m.MergeBlocks(node, g("M"), g("m"), g("d"))
    if k == "zcurve":
        al = g("al")
        for d in g("dims"):
            for n in curlens(node, d):
                if n % al or n > g("maxlen"):
                    raise Reject()
        return m.ZCurve(node, g("dims"), g("d"), g("maxlen"), al)
    raise AssertionError(k)


def build_base(base, ctx, minlen, maxlen):
    if base["k"] == "scalar":
        return m.Scalar(base["t"])
    subs = []
    for b in base["subs"]:
        n = build_base(b["base"], ctx, minlen, maxlen)
        for l in b["layers"]:
            n = apply_layer(l, n, ctx, minlen, maxlen)
        if base["k"] == "trav" and not subs:
            ctx.first = n
        subs.append(n)
    if base["k"] == "trav":
        return m.Union(subs)
    t = m.Tuple(subs, base["d"])
    if not base.get("mixed_ok") and not (t.uniform_align() and t.size({}) % t.maxalign() == 0):
        raise Reject()
    return t


class Shape:
    def __init__(self, sid, base, layers, minlen=0, maxlen=6, maxel=400):
        self.sid, self.base, self.layers = sid, base, layers
        self.minlen, self.maxlen, self.maxel = minlen, maxlen, maxel

    def instantiate(self, rng, decide=False, pstatic=0.4, minlen=None, tries=400, minel=0):
        """-> (node, values) or None"""
        for _ in range(tries):
            ctx = Ctx(rng, decide, pstatic)
            try:
                n = build_base(self.base, ctx, self.minlen if minlen is None else minlen, self.maxlen)
                for l in self.layers:
                    n = apply_layer(l, n, ctx, self.minlen if minlen is None else minlen, self.maxlen)
                if self.maxel is None:
                    return n, ctx.values
                cnt = sum(1 for _ in itertools.islice(m.elements(n), self.maxel + 1))
                if cnt > self.maxel or cnt < minel:
                    raise Reject()
                return n, ctx.values
            except Reject:
                continue
        return None


def clear(l):
    l.pop("baked", None)
    l.pop("decided", None)


def tuples_stay_up(t, p):
    if t is None:
        return True
    if t[1] == 't':
        for c in t[3]:
            if any(p.index(d) < p.index(t[0]) for d in m.tree_dims(c) if d in p):
                return False
    return all(tuples_stay_up(c, p) for c in t[3])


class RandomShape:
    """random composition; kinds: weights of layer kinds"""

    DEFAULT = dict(slice=3, shift=3, span=2, step=3, reverse=3, fix=3, rename=3, hoist=3, reorder=2, join=1,
                   into_blocks=3, into_blocks_dynamic=2, into_blocks_static=2, merge_blocks=2, zcurve=1, bcast=2,
                   vector=1)

    def __init__(self, rng, weights=None, maxel=400, nlayers=(1, 4), ptuple=0.25, scalars=("char", "short", "int", "float",
                 "double", "b3", "b12", "q16"), basedims=(1, 3), pstatic=0.4, minlen=0, maxlen=6, need=None, trav=None, noextra=False):
        self.rng = rng
        self.w = weights or self.DEFAULT
        self.nlayers, self.ptuple, self.scalars, self.basedims = nlayers, ptuple, scalars, basedims
        self.pstatic, self.minlen, self.maxlen = pstatic, minlen, maxlen
        self.need, self.maxel = need, maxel
        self.trav, self.noextra = trav, noextra     # trav: (lo, hi) number of view layers below the traverser

    def fresh(self):
        c = [c for c in NAMES if c not in self.used]
        if not c:
            raise Reject()
        n = self.rng.choice(c)
        self.used.add(n)
        return n

    def make(self, sid):
        for _ in range(2000):
            try:
                s = self._make(sid)
            except Reject:
                continue
            if s is not None:
                return s
        raise RuntimeError("cannot generate shape %s" % sid)

    def vec(self, d):
        l = {"k": "vector", "d": d}
        r = self.rng.random()
        if r < 0.25:
            l["spell"] = "array"
        elif r < 0.4:
            l["spell"] = "set"
        elif r < 0.5:
            l["spell"] = "vectors"
        elif r < 0.6:
            l["spell"] = "sized"
        return l

    def _make(self, sid):
        rng = self.rng
        self.used = set()
        layers = []
        # dims: name -> dict(kind, deps(set), ops(bool))
        dims = {}
        if rng.random() < self.ptuple:
            td = "t"
            self.used.add("t")
            n = rng.choice([2, 2, 3])
            mode = rng.choice(["aos", "soa", "soad", "mixed"])
            subs = []
            common = None
            if mode == "soa":
                common = [self.fresh() for _ in range(rng.choice([1, 2]))]
            t0 = rng.choice(self.scalars)
            for i in range(n):
                b = {"k": "scalar", "t": t0 if mode != "aos" else rng.choice(self.scalars)}
                ls = []
                if mode == "soa":
                    ds = common if rng.random() < 0.7 else common[::-1]
                    ls = [dict(self.vec(d)) for d in ds]
                elif mode == "soad":
                    d = self.fresh()
                    ls = [self.vec(d)]
                    dims[d] = dict(kind="f", deps={td}, ops=False)
                elif mode == "mixed" and i:
                    d = self.fresh()
                    ls = [self.vec(d)]
                    dims[d] = dict(kind="f", deps={td}, ops=False)
                subs.append({"base": b, "layers": ls})
            if mode == "soa":
                for d in common:
                    dims[d] = dict(kind="f", deps={td}, ops=rng.random() < 0.5, undertuple=True)
            dims[td] = dict(kind="t", deps=set(), ops=True)
            base = {"k": "tuple", "d": td, "subs": subs}
            nb = rng.randint(0, 1)
        else:
            base = {"k": "scalar", "t": rng.choice(self.scalars)}
            nb = rng.randint(*self.basedims)
        for _ in range(nb):
            d = self.fresh()
            layers.append(self.vec(d))
            dims[d] = dict(kind="f", deps=set(), ops=True)
        shape = Shape(sid, base, layers, self.minlen, self.maxlen, self.maxel)
        cur = shape.instantiate(rng, True, self.pstatic)
        if cur is None:
            return None
        self.tree = cur[0].sig()
        seen = set()

        def grow(want, dims, weights):
            tries = 0
            kinds = list(weights)
            while want > 0 and tries < 60:
                tries += 1
                k = rng.choices(kinds, [weights[x] for x in kinds])[0]
                used = set(self.used)
                l = self.pick(k, dims)
                if l is None:
                    self.used = used
                    continue
                layer, upd = l
                shape.layers.append(layer)
                r = shape.instantiate(rng, True, self.pstatic, tries=60)
                if r is None:
                    shape.layers.pop()
                    self.used = used
                    continue
                dims = upd
                self.tree = r[0].sig()
                seen.add(k)
                want -= 1
            if want > 0:
                raise Reject()
            return dims
        if self.trav:
            dims = grow(rng.randint(*self.trav), dims, dict(self.DEFAULT, vector=0))
            seen.clear()
            first = {"base": base, "layers": shape.layers}
            subs = [first]
            hast = any(v["kind"] == "t" for v in dims.values())
            if not self.noextra and rng.random() < 0.35:
                for _ in range(rng.choice([1, 1, 2])):
                    ls = []
                    for d, v in list(dims.items()):
                        if v["kind"] == "f" and not v["deps"] and v["ops"] and not v.get("extra") and not any(
                                d in w["deps"] for w in dims.values()) and rng.random() < 0.6:
                            ls.append({"k": "vector", "d": d, "like": True})
                    if rng.random() < 0.6:
                        d = self.fresh()
                        ls.append(self.vec(d))
                        dims[d] = dict(kind="f", deps=set(), ops=True, extra=True)
                    rng.shuffle(ls)
                    subs.append({"base": {"k": "scalar", "t": rng.choice(self.scalars)}, "layers": ls})
            shape = Shape(sid, {"k": "trav", "subs": subs}, [], self.minlen, self.maxlen, self.maxel)
            r = shape.instantiate(rng, True, self.pstatic, tries=60)
            if r is None:
                return None
            self.tree = r[0].sig()
        dims = grow(rng.randint(*self.nlayers), dims, self.w)
        shape.dims = dims
        if self.need and not (seen & set(self.need)):
            return None
        if not dims and rng.random() < 0.8:
            return None
        if len(dims) > 6:
            return None
        # robustness: must be re-instantiable with various values
        r2 = random.Random(rng.random())
        good = 0
        for _ in range(6):
            x = shape.instantiate(r2, tries=200, minel=2)
            if x is not None:
                good += 1
        if good < 4:
            return None
        shape.kinds = seen
        return shape

    def pick(self, k, dims):
        rng = self.rng
        D = {d: dict(v, deps=set(v["deps"])) for d, v in dims.items()}
        F = [d for d, v in D.items() if v["kind"] == "f" and v["ops"]]
        free = [d for d in F if not D[d]["deps"]]
        needed = set()
        for v in D.values():
            needed |= v["deps"]
        tree = self.tree

        def undert(d):
            """is d nested inside a tuple-like dimension?"""
            def rec(t, under):
                if t is None:
                    return False
                if t[0] == d:
                    return under
                return any(rec(c, under or t[1] == 't') for c in t[3])
            return rec(tree, False)

        def swap(olds, new):
            """replace olds by new dims {name: attrs}"""
            for o in olds:
                D.pop(o)
            for v in D.values():
                for o in olds:
                    if o in v["deps"]:
                        v["deps"].discard(o)
                        v["deps"] |= set(x for x in new)
            D.update(new)
            return D
        if k == "vector":
            d = self.fresh()
            D[d] = dict(kind="f", deps=set(), ops=True)
            return self.vec(d), D
        if k == "bcast":
            d = self.fresh()
            D[d] = dict(kind="f", deps=set(), ops=True)
            return {"k": "bcast", "d": d, "spell": rng.choice(["bcast", "set"])}, D
        if k == "fix":
            c = [d for d, v in D.items() if (v["kind"] == "t" or v["ops"]) and not v["deps"]]
            if not c:
                return None
            d = rng.choice(c)
            tup = D[d]["kind"] == "t"
            if tup and any(d in v["deps"] and not v.get("undertuple") for v in D.values()):
                return None
            D.pop(d)
            for v in D.values():
                v["deps"].discard(d)
            return {"k": "fix", "d": d, "tup": tup}, D
        if k in ("shift", "slice", "span", "step", "reverse"):
            if not F:
                return None
            d = rng.choice(F)
            l = {"k": k, "d": d}
            if k in ("slice", "span"):
                l["nostart"] = rng.random() < 0.3
            if k == "step" and len(D) == 1 and rng.random() < 0.5:
                l["auto"] = True
            return l, D
        if k == "rename":
            c = list(D)
            if not c:
                return None
            mode = rng.choice(["one", "swap", "two"])
            if mode == "swap" and len(c) >= 2:
                a, b = rng.sample(c, 2)
                pairs = [(a, b), (b, a)]
            elif mode == "two" and len(c) >= 2:
                a, b = rng.sample(c, 2)
                pairs = [(a, self.fresh()), (b, self.fresh())]
            else:
                pairs = [(rng.choice(c), self.fresh())]
            o2n = dict(pairs)
            N = {}
            for d, v in D.items():
                v["deps"] = {o2n.get(x, x) for x in v["deps"]}
                N[o2n.get(d, d)] = v
            return {"k": "rename", "pairs": pairs}, N
        if k == "hoist":
            c = [d for d, v in D.items() if not v["deps"] and v["kind"] == "f" and not undert(d)]
            if not c:
                return None
            n = min(len(c), rng.choice([1, 1, 2]))
            return {"k": "hoist", "dims": rng.sample(c, n)}, D
        if k == "reorder":
            if len(D) < 2 or any(v.get("undertuple") is None and v["deps"] and
                                 any(D.get(x, {}).get("kind") == "t" for x in v["deps"]) for v in D.values()):
                return None
            for _ in range(40):
                p = list(D)
                rng.shuffle(p)
                if not tuples_stay_up(tree, p):
                    continue
                if all(all(p.index(x) < p.index(d) for x in D[d]["deps"] if x in p) for d in p):
                    return {"k": "reorder", "dims": p}, D
            return None
        if k == "join":
            if len(free) < 2:
                return None
            a, b = rng.sample(free, 2)
            if a in needed or b in needed:
                return None
            if undert(a) or undert(b):
                return None
            d = rng.choice([a, a, b, self.fresh()])
            D.pop(a)
            D.pop(b)
            D[d] = dict(kind="f", deps=set(), ops=True)
            return {"k": "join", "a": a, "b": b, "d": d}, D
        if k == "into_blocks":
            c = [d for d in F if d not in needed and not D[d].get("noblock")]
            if not c:
                return None
            d = rng.choice(c)
            M = self.fresh()
            mm = d if rng.random() < 0.4 else self.fresh()
            dep = set(D[d]["deps"])
            ops = not dep
            swap([d], {M: dict(kind="f", deps=set(dep), ops=ops), mm: dict(kind="f", deps=set(dep), ops=ops)})
            l = {"k": "into_blocks", "d": d, "M": M, "m": mm, "major": rng.random() < 0.25,
                 "spell": rng.choice(["", "short"] + ([] if dep or undert(d) else ["strip_mine"]))}
            if D[M].get("deps"):
                l["spell"] = "short"
            return l, D
        if k == "into_blocks_dynamic":
            c = [d for d in F if d not in needed and not D[d]["deps"]]
            if not c:
                return None
            d = rng.choice(c)
            M, mm, p = self.fresh(), self.fresh(), self.fresh()
            if rng.random() < 0.3:
                mm = d
            swap([d], {M: dict(kind="f", deps=set(), ops=True), mm: dict(kind="f", deps=set(), ops=True),
                       p: dict(kind="f", deps={M, mm}, ops=False)})
            return {"k": k, "d": d, "M": M, "m": mm, "p": p, "major": rng.random() < 0.2,
                    "spell": rng.choice(["", "short"] + ([] if undert(d) else ["strip_mine"]))}, D
        if k == "into_blocks_static":
            c = [d for d in F if d not in needed and not D[d]["deps"]]
            if not c:
                return None
            d = rng.choice(c)
            b, M, mm = self.fresh(), self.fresh(), self.fresh()
            if rng.random() < 0.3:
                mm = d
            swap([d], {b: dict(kind="t", deps=set(), ops=False), M: dict(kind="f", deps={b}, ops=True, noblock=True),
                       mm: dict(kind="f", deps={b}, ops=True, noblock=True)})
            return {"k": k, "d": d, "b": b, "M": M, "m": mm}, D
        if k == "merge_blocks":
            c = [d for d in free if d not in needed]
            if len(c) < 2:
                return None
            M, mm = rng.sample(c, 2)
            d = rng.choice([M, mm, self.fresh()])
            swap([M, mm], {d: dict(kind="f", deps=set(), ops=True)})
            return {"k": k, "M": M, "m": mm, "d": d}, D
        if k == "zcurve":
            c = [d for d in free if d not in needed]
            if len(c) < 2:
                return None
            n = min(len(c), rng.choice([2, 2, 3]))
            ds = rng.sample(c, n)
            d = rng.choice(ds + [self.fresh()])
            swap(ds, {d: dict(kind="f", deps=set(), ops=True)})
            return {"k": k, "dims": ds, "d": d, "maxlen": rng.choice([16, 32, 64, 1024]), "al": rng.choice([1, 1, 2, 4])}, D
        raise AssertionError(k)


def paramsets(shape, rng, n, empty=0.2):
    """n distinct runtime instantiations (mostly non-empty) -> [(node, values)]"""
    out, seen = [], set()
    for k in range(n * 3):
        if len(out) >= n:
            break
        x = shape.instantiate(rng, minel=0 if rng.random() < empty else 2)
        if x is None:
            x = shape.instantiate(rng)
        if x is None:
            continue
        key = tuple(x[1])
        if key in seen:
            continue
        seen.add(key)
        out.append(x)
    return out


def pool(name, n, seed=20240601, **kw):
    """n random shapes, fixed internal seed"""
    rng = random.Random("%s/%s" % (name, seed))
    g = RandomShape(rng, **kw)
    return [g.make("%s%03d" % (name, i)) for i in range(n)]


def L(k, **kw):
    return dict(k=k, **kw)


def S(t):
    return {"k": "scalar", "t": t}
