"""Abstract values of MIR places."""
from terms import *


class NeedSplit(Exception):
    """The analysis needs a case distinction on a condition"""

    def __init__(self, cond):
        self.cond = cond


class Undecided(Exception):
    """A construct outside of the analysed language subset"""


class Val:
    __slots__ = ("_h",)

    def key(self):
        raise NotImplementedError

    def __hash__(self):
        h = getattr(self, "_h", None)
        if h is None:
            h = hash((self.__class__.__name__,) + self.key())
            self._h = h
        return h

    def __eq__(self, o):
        if self is o:
            return True
        if self.__class__ is not o.__class__:
            return False
        if hash(self) != hash(o):
            return False
        return self.key() == o.key()


class Agg(Val):
    """struct, tuple, closure or enum value of a known variant"""

    __slots__ = ("ty", "var", "f")

    def __init__(self, ty, var, f):
        self.ty = ty
        self.var = var
        self.f = tuple(f)

    def key(self):
        return (self.ty, self.var, self.f)

    def __repr__(self):
        return "%s.%s{%s}" % (self.ty, self.var, ", ".join(map(repr, self.f)))


class Lazy(Val):
    """element idx of a symbolic sequence (of type ty), not yet looked into"""

    __slots__ = ("ty", "base", "idx")

    def __init__(self, ty, base, idx):
        self.ty = ty
        self.base = base
        self.idx = idx

    def key(self):
        return (self.ty, self.base, self.idx)

    def __repr__(self):
        return "?%r[%r]" % (self.base, self.idx)


class Seq(Val):
    """array or slice contents: chunks of
    ("E", value) | ("S", base, start, len) | ("F", value, len)"""

    __slots__ = ("ety", "ch")

    def __init__(self, ety, ch):
        self.ety = ety
        self.ch = tuple(ch)

    def key(self):
        return (self.ety, self.ch)

    def __repr__(self):
        o = []
        for c in self.ch:
            if c[0] == "E":
                o.append(repr(c[1]))
            elif c[0] == "S":
                o.append("%r[%r;+%r]" % c[1:])
            else:
                o.append("%r x %r" % c[1:])
        return "<" + " ".join(o) + ">"


class VecV(Val):
    __slots__ = ("seq",)

    def __init__(self, seq):
        self.seq = seq

    def key(self):
        return (self.seq,)

    def __repr__(self):
        return "Vec%r" % (self.seq,)


class BoxV(Val):
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def key(self):
        return (self.v,)

    def __repr__(self):
        return "Box(%r)" % (self.v,)


class Ptr(Val):
    """pointer to a place; meta = (lo, len) for slices"""

    __slots__ = ("root", "path", "meta")

    def __init__(self, root, path, meta=None):
        self.root = root
        self.path = path
        self.meta = meta

    def key(self):
        return (self.root, self.path, self.meta)

    def __repr__(self):
        s = "&%r" % (self.root,)
        for p in self.path:
            s += "." + (str(p[1]) if len(p) > 1 else p[0])
        if self.meta:
            s += "[%r;+%r]" % self.meta
        return s


class Fn(Val):
    """function item (zero sized) or function pointer"""

    __slots__ = ("ty", "callee")

    def __init__(self, ty, callee):
        self.ty = ty
        self.callee = callee

    def key(self):
        return (self.ty, self.callee.get("key") if self.callee else None)

    def __repr__(self):
        return "fn(%s)" % (self.callee and self.callee["path"],)


class Opq(Val):
    """value the analysis does not look into"""

    __slots__ = ("ty", "tag")

    def __init__(self, ty, tag):
        self.ty = ty
        self.tag = tag

    def key(self):
        return (self.ty, self.tag)

    def __repr__(self):
        return "opaque(%s)" % (self.tag,)


class Nat(Val):
    """library object handled natively (slice iterators, io errors, ...)"""

    __slots__ = ("kind", "f")

    def __init__(self, kind, f):
        self.kind = kind
        self.f = tuple(f)

    def key(self):
        return (self.kind, self.f)

    def __repr__(self):
        return "%s(%s)" % (self.kind, ", ".join(map(repr, self.f)))


class Uninit(Val):
    __slots__ = ()

    def key(self):
        return ()

    def __repr__(self):
        return "uninit"


UNINIT = Uninit()


def unit(ty):
    return Agg(ty, 0, ())


# --- substitution over values ------------------------------------------------


def map_value(v, s, memo=None):
    """Apply a term mapper s (with methods poly, cond, any) to a value"""
    if isinstance(v, Poly):
        return s.poly(v)
    if isinstance(v, Cond):
        return s.cond(v)
    if isinstance(v, Agg):
        f = tuple(map_value(x, s) for x in v.f)
        for a, b in zip(f, v.f):
            if a is not b:
                return Agg(v.ty, v.var, f)
        return v
    if isinstance(v, Seq):
        ch = tuple(map_chunk(c, s) for c in v.ch)
        for a, b in zip(ch, v.ch):
            if a is not b:
                return Seq(v.ety, ch)
        return v
    if isinstance(v, VecV):
        q = map_value(v.seq, s)
        return v if q is v.seq else VecV(q)
    if isinstance(v, BoxV):
        q = map_value(v.v, s)
        return v if q is v.v else BoxV(q)
    if isinstance(v, Ptr):
        p = tuple(("i", s.poly(x[1])) if x[0] == "i" else x for x in v.path)
        m = v.meta
        if m is not None:
            m = (s.poly(m[0]), s.poly(m[1]))
        if p == v.path and m == v.meta:
            return v
        return Ptr(v.root, p, m)
    if isinstance(v, Lazy):
        b, i = s.any(v.base), s.poly(v.idx)
        if b is v.base and i is v.idx:
            return v
        return Lazy(v.ty, b, i)
    if isinstance(v, Nat):
        f = tuple(map_value(x, s) for x in v.f)
        for a, b in zip(f, v.f):
            if a is not b:
                return Nat(v.kind, f)
        return v
    return v


def map_chunk(c, s):
    if c[0] == "E":
        v = map_value(c[1], s)
        return c if v is c[1] else ("E", v)
    if c[0] == "S":
        b, st, n = s.any(c[1]), s.poly(c[2]), s.poly(c[3])
        if b is c[1] and st is c[2] and n is c[3]:
            return c
        return ("S", b, st, n)
    v, n = map_value(c[1], s), s.poly(c[2])
    if v is c[1] and n is c[2]:
        return c
    return ("F", v, n)


def value_atoms(v, out):
    """Collect ids of all atoms a value depends on"""
    if isinstance(v, (Poly, Cond)):
        out |= v.deps()
    elif isinstance(v, Agg) or isinstance(v, Nat):
        for x in v.f:
            value_atoms(x, out)
    elif isinstance(v, Seq):
        for c in v.ch:
            if c[0] == "S":
                out |= c[1].deps
                out |= c[2].deps()
                out |= c[3].deps()
            else:
                value_atoms(c[1], out)
                if c[0] == "F":
                    out |= c[2].deps()
    elif isinstance(v, VecV):
        value_atoms(v.seq, out)
    elif isinstance(v, BoxV):
        value_atoms(v.v, out)
    elif isinstance(v, Ptr):
        for x in v.path:
            if x[0] == "i":
                out |= x[1].deps()
        if v.meta:
            out |= v.meta[0].deps()
            out |= v.meta[1].deps()
    elif isinstance(v, Lazy):
        out |= v.base.deps
        out |= v.idx.deps()
    return out


# elements which are not tracked
JUNK = ("junk",)
