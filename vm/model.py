"""Independent reference model of structure compositions (the oracle).

A model node is a concrete, type-erased description of what a composition of noarr
structures means according to the documentation: which dimensions it has (and in which
nesting order), the length of each dimension, the total size in bytes and the byte offset
of the element selected by a full assignment of indices.  Nothing here is derived from the
library: the formulas are the ones in docs/.
"""


class V:
    """A parameter: value + whether it is compiled in (lit<>) or read from p[slot]."""
    __slots__ = ("val", "slot")

    def __init__(self, val, slot=None):
        self.val = val
        self.slot = slot

    def cpp(self):
        return "noarr::lit<%d>" % self.val if self.slot is None else "p[%d]" % self.slot

    @property
    def static(self):
        return self.slot is None


def q(d):
    """C++ spelling of a dimension name."""
    if len(d) == 1:
        return "'%s'" % d
    return d


SCALARS = {
    "char": ("char", 1, 1), "short": ("short", 2, 2), "int": ("int", 4, 4), "float": ("float", 4, 4),
    "double": ("double", 8, 8), "ll": ("long long", 8, 8), "b3": ("vm::bytes<3>", 3, 1),
    "b12": ("vm::words<3>", 12, 4), "uchar": ("unsigned char", 1, 1), "u": ("unsigned", 4, 4),
    "q16": ("vm::quad", 16, 16), "u16": ("std::uint16_t", 2, 2), "u64": ("std::uint64_t", 8, 8),
}

# ---- signature trees: None = scalar;  (dim, 'f', static_len|None, (child,))  or  (dim, 't', n, (c0, c1, ...))


def tree_dims(t):
    if t is None:
        return []
    out = [t[0]]
    for c in t[3]:
        for d in tree_dims(c):
            if d not in out:
                out.append(d)
    return out


def tree_replace(t, d, f):
    if t is None:
        return None
    if t[0] == d:
        return f(t)
    return (t[0], t[1], t[2], tuple(tree_replace(c, d, f) for c in t[3]))


def tree_find(t, d):
    if t is None:
        return None
    if t[0] == d:
        return t
    for c in t[3]:
        r = tree_find(c, d)
        if r:
            return r
    return None


def tree_fix(t, d, i):
    """remove dim d, choosing branch i for tuple-like"""
    return tree_replace(t, d, lambda n: n[3][i] if n[1] == 't' else n[3][0])


def tree_hoist(t, d):
    n = tree_find(t, d)
    if n is None:
        return t
    if n[1] == 't':
        return (d, 't', n[2], tuple(tree_fix(t, d, i) for i in range(len(n[3]))))
    return (d, 'f', n[2], (tree_fix(t, d, 0),))


def tree_reorder(t, dims):
    if not dims:
        return t
    h = tree_hoist(t, dims[0])
    return (h[0], h[1], h[2], tuple(tree_reorder(c, [d for d in dims[1:]]) for c in h[3]))


def tree_map(t, f):
    if t is None:
        return None
    return (f(t[0]), t[1], t[2], tuple(tree_map(c, f) for c in t[3]))


class Node:
    sub = None
    preserves_layout = True   # proto_preserves_layout

    # default: pure view with a state mapping
    def mp(self, idx, lens):
        return idx, lens

    def length(self, d, idx, lens):
        i, l = self.mp(idx, lens)
        return self.sub.length(d, i, l)

    def size(self, lens):
        _, l = self.mp({}, lens)
        return self.sub.size(l)

    def offset(self, idx, lens):
        i, l = self.mp(idx, lens)
        return self.sub.offset(i, l)

    def scalar(self, idx, lens=None):
        i, l = self.mp(idx, lens or {})
        return self.sub.scalar(i, l)

    def sig(self):
        return self.sub.sig()

    def chain(self):
        return self.sub.chain() + [self]

    def expr(self):
        return "%s ^ %s" % (self.sub.expr(), self.proto())

    def maxalign(self):
        return self.sub.maxalign()

    def describe(self):
        return self.expr()


class Scalar(Node):
    def __init__(self, key):
        self.key = key
        self.ctype, self.sz, self.al = SCALARS[key]

    def length(self, d, idx, lens):
        return None

    def size(self, lens):
        return self.sz

    def offset(self, idx, lens):
        return 0

    def scalar(self, idx, lens=None):
        return self

    def sig(self):
        return None

    def chain(self):
        return [self]

    def expr(self):
        return "noarr::scalar<%s>()" % self.ctype

    def maxalign(self):
        return self.al


def without(m, *ks):
    return {k: v for k, v in m.items() if k not in ks}


class Vector(Node):
    preserves_layout = False

    def __init__(self, sub, d, n, spell="vector"):
        self.sub, self.d, self.n, self.spell = sub, d, n, spell

    def mp(self, idx, lens):
        return without(idx, self.d), without(lens, self.d)

    def mylen(self, lens):
        if self.n is not None:
            return self.n.val
        return lens.get(self.d)

    def length(self, d, idx, lens):
        if d == self.d:
            return self.mylen(lens)
        return super().length(d, idx, lens)

    def size(self, lens):
        return self.mylen(lens) * self.sub.size(without(lens, self.d))

    def offset(self, idx, lens):
        i, l = self.mp(idx, lens)
        return idx[self.d] * self.sub.size(l) + self.sub.offset(i, l)

    def sig(self):
        st = self.n.val if (self.n is not None and self.n.static) else None
        return (self.d, 'f', st, (self.sub.sig(),))

    def proto(self):
        if self.n is None:
            return "noarr::vector<%s>()" % q(self.d)
        if self.spell == "array":
            return "noarr::array<%s, %d>()" % (q(self.d), self.n.val)
        if self.spell == "vectors":
            return "noarr::vectors<%s>(%s)" % (q(self.d), self.n.cpp())
        if self.spell == "sized":
            return "noarr::sized_vector<%s>(%s)" % (q(self.d), self.n.cpp())
        if self.spell == "set":
            return "noarr::vector<%s>() ^ noarr::set_length<%s>(%s)" % (q(self.d), q(self.d), self.n.cpp())
        return "noarr::vector<%s>(%s)" % (q(self.d), self.n.cpp())


class Tuple(Node):
    preserves_layout = False

    def __init__(self, subs, d):
        self.subs, self.d = subs, d

    def uniform_align(self):
        """packed == padded (no element would need padding)"""
        off = 0
        for s in self.subs:
            if off % s.maxalign():
                return False
            off += s.size({})
        return True

    def length(self, d, idx, lens):
        if d == self.d:
            return len(self.subs)
        if self.d not in idx:
            return None
        return self.subs[idx[self.d]].length(d, without(idx, self.d), lens)

    def size(self, lens):
        return sum(s.size(lens) for s in self.subs)

    def offset(self, idx, lens):
        k = idx[self.d]
        return sum(s.size(lens) for s in self.subs[:k]) + self.subs[k].offset(without(idx, self.d), lens)

    def scalar(self, idx, lens=None):
        return self.subs[idx[self.d]].scalar(without(idx, self.d), lens)

    def sig(self):
        return (self.d, 't', len(self.subs), tuple(s.sig() for s in self.subs))

    def chain(self):
        return [self]

    def expr(self):
        return "noarr::pack(%s) ^ noarr::tuple<%s>()" % (", ".join(s.expr() for s in self.subs), q(self.d))

    def maxalign(self):
        return max(s.maxalign() for s in self.subs)


class Bcast(Node):
    preserves_layout = True

    def __init__(self, sub, d, n, spell="bcast"):
        self.sub, self.d, self.n, self.spell = sub, d, n, spell

    def mp(self, idx, lens):
        return without(idx, self.d), without(lens, self.d)

    def length(self, d, idx, lens):
        if d == self.d:
            return self.n.val if self.n is not None else lens.get(d)
        return super().length(d, idx, lens)

    def sig(self):
        st = self.n.val if (self.n is not None and self.n.static) else None
        return (self.d, 'f', st, (self.sub.sig(),))

    def proto(self):
        if self.n is None:
            return "noarr::bcast<%s>()" % q(self.d)
        if self.spell == "set":
            return "noarr::bcast<%s>() ^ noarr::set_length<%s>(%s)" % (q(self.d), q(self.d), self.n.cpp())
        return "noarr::bcast<%s>(%s)" % (q(self.d), self.n.cpp())


class Fix(Node):
    def __init__(self, sub, d, i):
        self.sub, self.d, self.i = sub, d, i

    def mp(self, idx, lens):
        return dict(idx, **{self.d: self.i.val}), lens

    def length(self, d, idx, lens):
        if d == self.d:
            return None
        return super().length(d, idx, lens)

    def size(self, lens):
        return self.sub.size(lens)

    def sig(self):
        return tree_fix(self.sub.sig(), self.d, self.i.val if self.i.static else 0)

    def proto(self):
        return "noarr::fix<%s>(%s)" % (q(self.d), self.i.cpp())


class SetLength(Node):
    def __init__(self, sub, d, n):
        self.sub, self.d, self.n = sub, d, n

    def mp(self, idx, lens):
        return idx, dict(lens, **{self.d: self.n.val})

    def sig(self):
        def f(n):
            return (n[0], 'f', self.n.val if self.n.static else None, n[3])
        return tree_replace(self.sub.sig(), self.d, f)

    def proto(self):
        return "noarr::set_length<%s>(%s)" % (q(self.d), self.n.cpp())


class IdxView(Node):
    """views that remap the index in one dimension and change its length"""

    def mp(self, idx, lens):
        if self.d in idx:
            idx = dict(idx, **{self.d: self.f(idx[self.d], idx, lens)})
        return idx, lens

    def length(self, d, idx, lens):
        if d == self.d:
            n = self.sub.length(d, without(idx, d), lens)
            return None if n is None else self.newlen(n)
        return super().length(d, idx, lens)

    def statics(self):
        return True

    def tsig(self, n):
        """a tuple-like dimension: the selected members, in their new order"""
        k = self.newlen(len(n[3]))
        return (n[0], 't', k, tuple(n[3][self.f(i, {}, {})] for i in range(k)))

    def sig(self):
        def f(n):
            if n[1] == 't':
                return self.tsig(n)
            st = self.newlen(n[2]) if (n[2] is not None and self.statics()) else None
            return (n[0], n[1], st, n[3])
        return tree_replace(self.sub.sig(), self.d, f)


class Shift(IdxView):
    def __init__(self, sub, d, s):
        self.sub, self.d, self.s = sub, d, s

    def f(self, i, idx, lens):
        return i + self.s.val

    def newlen(self, n):
        return n - self.s.val

    def statics(self):
        return self.s.static

    def proto(self):
        return "noarr::shift<%s>(%s)" % (q(self.d), self.s.cpp())


class Slice(IdxView):
    def __init__(self, sub, d, s, n):
        self.sub, self.d, self.s, self.n = sub, d, s, n

    def f(self, i, idx, lens):
        return i + (self.s.val if self.s else 0)

    def newlen(self, n):
        return self.n.val

    def statics(self):
        return self.n.static

    def sig(self):
        def f(n):
            if n[1] == 't':
                return self.tsig(n)
            return (n[0], n[1], self.n.val if self.n.static else None, n[3])
        return tree_replace(self.sub.sig(), self.d, f)

    def proto(self):
        if self.s is None:
            return "noarr::slice<%s>(%s)" % (q(self.d), self.n.cpp())
        return "noarr::slice<%s>(%s, %s)" % (q(self.d), self.s.cpp(), self.n.cpp())


class Span(IdxView):
    def __init__(self, sub, d, s, e):
        self.sub, self.d, self.s, self.e = sub, d, s, e

    def f(self, i, idx, lens):
        return i + (self.s.val if self.s else 0)

    def newlen(self, n):
        return self.e.val - (self.s.val if self.s else 0)

    def sig(self):
        st = self.newlen(0) if (self.e.static and (self.s is None or self.s.static)) else None

        def f(n):
            if n[1] == 't':
                return self.tsig(n)
            return (n[0], n[1], st, n[3])
        return tree_replace(self.sub.sig(), self.d, f)

    def proto(self):
        if self.s is None:
            return "noarr::span<%s>(%s)" % (q(self.d), self.e.cpp())
        return "noarr::span<%s>(%s, %s)" % (q(self.d), self.s.cpp(), self.e.cpp())


class Step(IdxView):
    def __init__(self, sub, d, s, k, auto=False):
        self.sub, self.d, self.s, self.k, self.auto = sub, d, s, k, auto

    def f(self, i, idx, lens):
        return i * self.k.val + self.s.val

    def newlen(self, n):
        # the number of indices i with i * step + start < n
        return 0 if n <= self.s.val else (n - self.s.val - 1) // self.k.val + 1

    def statics(self):
        return self.s.static and self.k.static

    def proto(self):
        if self.auto:
            return "noarr::step(%s, %s)" % (self.s.cpp(), self.k.cpp())
        return "noarr::step<%s>(%s, %s)" % (q(self.d), self.s.cpp(), self.k.cpp())


class Reverse(IdxView):
    def __init__(self, sub, d):
        self.sub, self.d = sub, d

    def f(self, i, idx, lens):
        return self.sub.length(self.d, without(idx, self.d), lens) - 1 - i

    def newlen(self, n):
        return n

    def proto(self):
        return "noarr::reverse<%s>()" % q(self.d)


class Rename(Node):
    def __init__(self, sub, pairs):
        self.sub, self.pairs = sub, pairs      # [(old, new)]
        self.o2n = dict(pairs)
        self.n2o = {b: a for a, b in pairs}

    def mp(self, idx, lens):
        def g(m):
            return {self.n2o.get(k, k): v for k, v in m.items() if not (k in self.o2n and k not in self.n2o)}
        return g(idx), g(lens)

    def length(self, d, idx, lens):
        i, l = self.mp(idx, lens)
        return self.sub.length(self.n2o.get(d, d), i, l)

    def sig(self):
        return tree_map(self.sub.sig(), lambda d: self.o2n.get(d, d))

    def proto(self):
        return "noarr::rename<%s>()" % ", ".join("%s, %s" % (q(a), q(b)) for a, b in self.pairs)


class Hoist(Node):
    def __init__(self, sub, dims):
        self.sub, self.dims = sub, dims

    def sig(self):
        t = self.sub.sig()
        for d in reversed(self.dims):
            t = tree_hoist(t, d)
        return t

    def proto(self):
        return "noarr::hoist<%s>()" % ", ".join(q(d) for d in self.dims)


class Reorder(Node):
    def __init__(self, sub, dims):
        self.sub, self.dims = sub, dims

    def sig(self):
        return tree_reorder(self.sub.sig(), self.dims)

    def proto(self):
        return "noarr::reorder<%s>()" % ", ".join(q(d) for d in self.dims)


class Join(Node):
    def __init__(self, sub, a, b, d):
        self.sub, self.a, self.b, self.d = sub, a, b, d

    def mp(self, idx, lens):
        i = without(idx, self.a, self.b, self.d)
        if self.d in idx:
            i[self.a] = i[self.b] = idx[self.d]
        return i, without(lens, self.a, self.b, self.d)

    def length(self, d, idx, lens):
        i, l = self.mp(idx, lens)
        if d == self.d:
            return self.sub.length(self.a, without(i, self.a, self.b), l)
        return self.sub.length(d, i, l)

    def sig(self):
        t = self.sub.sig()
        st = tree_find(t, self.a)[2]
        return (self.d, 'f', st, (tree_fix(tree_fix(t, self.a, 0), self.b, 0),))

    def proto(self):
        if self.d == self.a:
            return "noarr::join<%s, %s>()" % (q(self.a), q(self.b))
        return "noarr::join<%s, %s, %s>()" % (q(self.a), q(self.b), q(self.d))


def cdiv(a, b):
    return (a + b - 1) // b


class IntoBlocks(Node):
    """minor: V or None; major: V or None (exactly one given).  spell: how it is written"""

    def __init__(self, sub, d, M, m, minor, major=None, spell="into_blocks"):
        self.sub, self.d, self.M, self.m, self.minor, self.major, self.spell = sub, d, M, m, minor, major, spell

    def lens2(self, idx, lens):
        full = self.sub.length(self.d, without(idx, self.M, self.m, self.d), without(lens, self.M, self.m, self.d))
        if self.minor is not None:
            mn = self.minor.val
            return (full // mn if mn else 0), mn
        return self.major.val, full // self.major.val

    def mp(self, idx, lens):
        i = without(idx, self.M, self.m, self.d)
        if self.M in idx and self.m in idx:
            _, mn = self.lens2(idx, lens)
            i[self.d] = idx[self.M] * mn + idx[self.m]
        return i, without(lens, self.M, self.m, self.d)

    def length(self, d, idx, lens):
        if d == self.M:
            return self.lens2(idx, lens)[0]
        if d == self.m:
            return self.lens2(idx, lens)[1]
        return super().length(d, idx, lens)

    def sig(self):
        def f(n):
            return (self.M, 'f', self.major.val if self.major is not None and self.major.static else None,
                    ((self.m, 'f', self.minor.val if self.minor is not None and self.minor.static else None, n[3]),))
        t = tree_replace(self.sub.sig(), self.d, f)
        if self.spell == "strip_mine":
            t = tree_hoist(t, self.M)
        return t

    def proto(self):
        a = "%s, %s, %s" % (q(self.d), q(self.M), q(self.m))
        if self.spell == "strip_mine":
            return "noarr::strip_mine<%s>(%s)" % (a, self.minor.cpp())
        if self.spell == "short":
            return "noarr::into_blocks<%s>(%s)" % (a, self.minor.cpp())
        if self.minor is not None:
            return "noarr::into_blocks<%s>() ^ noarr::set_length<%s>(%s)" % (a, q(self.m), self.minor.cpp())
        return "noarr::into_blocks<%s>() ^ noarr::set_length<%s>(%s)" % (a, q(self.M), self.major.cpp())


class IntoBlocksDyn(Node):
    def __init__(self, sub, d, M, m, p, minor, major=None, spell="into_blocks_dynamic"):
        self.sub, self.d, self.M, self.m, self.p = sub, d, M, m, p
        self.minor, self.major, self.spell = minor, major, spell

    def full(self, idx, lens):
        return self.sub.length(self.d, without(idx, self.M, self.m, self.d, self.p),
                               without(lens, self.M, self.m, self.d, self.p))

    def lens2(self, idx, lens):
        full = self.full(idx, lens)
        if self.minor is not None:
            return cdiv(full, self.minor.val), self.minor.val
        return self.major.val, cdiv(full, self.major.val)

    def mp(self, idx, lens):
        i = without(idx, self.M, self.m, self.d, self.p)
        if self.M in idx and self.m in idx:
            _, mn = self.lens2(idx, lens)
            i[self.d] = idx[self.M] * mn + idx[self.m]
        return i, without(lens, self.M, self.m, self.d)

    def length(self, d, idx, lens):
        if d == self.M:
            return self.lens2(idx, lens)[0]
        if d == self.m:
            return self.lens2(idx, lens)[1]
        if d == self.p:
            if self.M not in idx or self.m not in idx:
                return None
            _, mn = self.lens2(idx, lens)
            return 1 if idx[self.M] * mn + idx[self.m] < self.full(idx, lens) else 0
        return super().length(d, idx, lens)

    def sig(self):
        def f(n):
            return (self.M, 'f', self.major.val if self.major is not None and self.major.static else None,
                    ((self.m, 'f', self.minor.val if self.minor is not None and self.minor.static else None,
                      ((self.p, 'f', None, n[3]),)),))
        t = tree_replace(self.sub.sig(), self.d, f)
        if self.spell == "strip_mine":
            t = tree_hoist(t, self.M)
        return t

    def proto(self):
        a = "%s, %s, %s, %s" % (q(self.d), q(self.M), q(self.m), q(self.p))
        if self.spell == "strip_mine":
            return "noarr::strip_mine_dynamic<%s>(%s)" % (a, self.minor.cpp())
        if self.spell == "short":
            return "noarr::into_blocks_dynamic<%s>(%s)" % (a, self.minor.cpp())
        if self.minor is not None:
            return "noarr::into_blocks_dynamic<%s>() ^ noarr::set_length<%s>(%s)" % (a, q(self.m), self.minor.cpp())
        return "noarr::into_blocks_dynamic<%s>() ^ noarr::set_length<%s>(%s)" % (a, q(self.M), self.major.cpp())


class IntoBlocksStatic(Node):
    def __init__(self, sub, d, b, M, m, minor):
        self.sub, self.d, self.b, self.M, self.m, self.minor = sub, d, b, M, m, minor

    def full(self, idx, lens):
        return self.sub.length(self.d, without(idx, self.M, self.m, self.d, self.b),
                               without(lens, self.M, self.m, self.d, self.b))

    def mp(self, idx, lens):
        i = without(idx, self.M, self.m, self.d, self.b)
        if self.M in idx and self.m in idx and self.b in idx:
            mn = self.minor.val
            if idx[self.b] == 0:
                i[self.d] = idx[self.M] * mn + idx[self.m]
            else:
                i[self.d] = self.full(idx, lens) // mn * mn + idx[self.m]
        return i, without(lens, self.M, self.m, self.d, self.b)

    def length(self, d, idx, lens):
        if d == self.b:
            return 2
        if d in (self.M, self.m):
            if self.b not in idx:
                return None
            full, mn = self.full(idx, lens), self.minor.val
            if idx[self.b] == 0:
                return full // mn if d == self.M else mn
            return 1 if d == self.M else full % mn
        return super().length(d, idx, lens)

    def sig(self):
        def f(n):
            full, mn = n[2], (self.minor.val if self.minor.static else None)
            qn = full // mn if full is not None and mn is not None else None
            rn = full % mn if full is not None and mn is not None else None
            return (self.b, 't', 2, ((self.M, 'f', qn, ((self.m, 'f', mn, n[3]),)),
                                     (self.M, 'f', 1, ((self.m, 'f', rn, n[3]),))))
        return tree_replace(self.sub.sig(), self.d, f)

    def proto(self):
        return "noarr::into_blocks_static<%s, %s, %s, %s>(%s)" % (q(self.d), q(self.b), q(self.M), q(self.m),
                                                                  self.minor.cpp())


class MergeBlocks(Node):
    def __init__(self, sub, M, m, d):
        self.sub, self.M, self.m, self.d = sub, M, m, d

    def mp(self, idx, lens):
        i, l = without(idx, self.M, self.m, self.d), without(lens, self.M, self.m, self.d)
        if self.d in idx:
            mn = self.sub.length(self.m, i, l)
            i = dict(i, **{self.M: idx[self.d] // mn, self.m: idx[self.d] % mn})
        return i, l

    def length(self, d, idx, lens):
        i, l = self.mp(idx, lens)
        if d == self.d:
            i = without(idx, self.M, self.m, self.d)
            return self.sub.length(self.M, i, l) * self.sub.length(self.m, i, l)
        return self.sub.length(d, i, l)

    def sig(self):
        t = self.sub.sig()
        a, b = tree_find(t, self.M), tree_find(t, self.m)
        st = a[2] * b[2] if a[2] is not None and b[2] is not None else None
        outer, inner = (self.M, self.m) if tree_find(a, self.m) else (self.m, self.M)
        t = tree_replace(t, outer, lambda n: n[3][0])
        return tree_replace(t, inner, lambda n: (self.d, 'f', st, n[3]))

    def proto(self):
        return "noarr::merge_blocks<%s, %s, %s>()" % (q(self.M), q(self.m), q(self.d))


def zunrank(lens, z):
    """the z-th index tuple of the box in z-order (bits of the indices interleaved, the first listed dimension being the
    most significant at equal bit level), counting only tuples inside the box"""
    bits = max([max(n - 1, 0).bit_length() for n in lens] + [1])
    lo = [0] * len(lens)
    sz = [1 << bits] * len(lens)
    for b in range(bits - 1, -1, -1):
        for k in range(len(lens)):
            sz[k] = 1 << b
            cnt = 1
            for j in range(len(lens)):
                cnt *= max(0, min(sz[j], lens[j] - lo[j]))
            if z >= cnt:
                z -= cnt
                lo[k] += 1 << b
    return tuple(lo)


class ZCurve(Node):
    def __init__(self, sub, dims, d, maxlen, align):
        self.sub, self.dims, self.d, self.maxlen, self.al = sub, dims, d, maxlen, align
        self._cache = {}

    def sublens(self, i, l):
        return tuple(self.sub.length(x, i, l) for x in self.dims)

    def mp(self, idx, lens):
        i, l = without(idx, self.d, *self.dims), without(lens, self.d, *self.dims)
        if self.d in idx:
            sl = self.sublens(i, l)
            tot = 1
            for n in sl:
                tot *= n
            key = (sl, idx[self.d])
            if key not in self._cache:
                # an index past the end is only ever used to ask for other dimensions' lengths
                self._cache[key] = zunrank(sl, idx[self.d]) if idx[self.d] < tot else [0] * len(sl)
            i.update(zip(self.dims, self._cache[key]))
        return i, l

    def length(self, d, idx, lens):
        i, l = without(idx, self.d, *self.dims), without(lens, self.d, *self.dims)
        if d == self.d:
            r = 1
            for n in self.sublens(i, l):
                r *= n
            return r
        i, l = self.mp(idx, lens)
        return self.sub.length(d, i, l)

    def sig(self):
        t = self.sub.sig()
        rem = list(self.dims)
        st = 1
        for x in self.dims:
            n = tree_find(t, x)[2]
            st = st * n if st is not None and n is not None else None
        while len(rem) > 1:
            order = [x for x in tree_dims(t) if x in rem]
            t = tree_replace(t, order[0], lambda n: n[3][0])
            rem.remove(order[0])
        return tree_replace(t, rem[0], lambda n: (self.d, 'f', st, n[3]))

    def proto(self):
        return "noarr::merge_zcurve<%s>::maxlen_alignment<%d, %d>()" % (
            ", ".join(q(x) for x in list(self.dims) + [self.d]), self.maxlen, self.al)


class Union(Node):
    """what a traverser over several structures iterates: every dimension once"""

    def __init__(self, subs):
        self.subs = subs

    def length(self, d, idx, lens):
        for s in self.subs:
            if d in tree_dims(s.sig()):
                return s.length(d, idx, lens)
        return None

    def size(self, lens):
        return 0

    def offset(self, idx, lens):
        return self.subs[0].offset({k: v for k, v in idx.items() if k in tree_dims(self.subs[0].sig())}, lens)

    def scalar(self, idx, lens=None):
        return self.subs[0].scalar({k: v for k, v in idx.items() if k in tree_dims(self.subs[0].sig())}, lens)

    def sig(self):
        t = self.subs[0].sig()
        for s in self.subs[1:]:
            seen = tree_dims(t)

            def add(u):
                if u is None:
                    return t
                assert u[1] == 'f'
                if u[0] in seen:
                    return add(u[3][0])
                return (u[0], 'f', u[2], (add(u[3][0]),))
            t = add(s.sig())
        return t

    def chain(self):
        return [self]

    def expr(self):
        return "noarr::traverser(%s)" % ", ".join(s.expr() for s in self.subs)

    def maxalign(self):
        return 1


def tree_filter(t, keep):
    """the loops that remain when only the dimensions in keep are iterated"""
    if t is None:
        return None
    if t[0] in keep:
        return (t[0], t[1], t[2], tuple(tree_filter(c, keep) for c in t[3]))
    return tree_filter(t[3][0], keep)


def orig(node, idx):
    """indices in the dimensions of the structure below all the views (None where not yet determined)"""
    i, l = dict(idx), {}
    for x in reversed(node.chain()[1:]):
        i, l = x.mp(i, l)
    return i


# ---------------------------------------------------------------- enumeration helpers

def elements(node, lens=None, tree="sig"):
    """yield (path, idx) in the nesting order of the (given) tree; path = tuple of (dim, index)"""
    lens = lens or {}
    t = node.sig() if tree == "sig" else tree

    def rec(t, idx):
        if t is None:
            yield dict(idx)
            return
        d = t[0]
        n = node.length(d, idx, lens)
        if t[1] == 't':
            for k in range(n):
                yield from rec(t[3][k], dict(idx, **{d: k}))
        else:
            for k in range(n):
                yield from rec(t[3][0], dict(idx, **{d: k}))
    yield from rec(t, {})


def cpp_tree(t):
    if t is None:
        return "vm::E"
    if t[1] == 't':
        return "vm::T<%s, %s>" % (q(t[0]), ", ".join(cpp_tree(c) for c in t[3]))
    return "vm::D<%s, %s>" % (q(t[0]), cpp_tree(t[3][0]))
