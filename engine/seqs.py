"""Operations on symbolic sequences."""
from terms import *
from values import *
from facts import Infeasible


def clen(c):
    if c[0] == "E":
        return ONE
    return c[3] if c[0] == "S" else c[2]


def seq_len(q):
    n = ZERO
    for c in q.ch:
        n = n + clen(c)
    return n


class SeqOps:
    """Needs: prog (types)"""

    def __init__(self, prog):
        self.prog = prog
        self._leaves = {}

    # -- elements of symbolic sequences

    def elem(self, ty, base, idx):
        x = self.prog.types[ty]
        k = x["k"]
        if k in ("uint", "int", "char"):
            lo, hi = self.prog.int_range(ty)
            return sel(base, idx, lo, hi)
        if k == "bool":
            return c_ne(sel(base, idx, 0, 1))
        if k == "array":
            return Seq(x["e"], [("S", base_el(base, idx), ZERO, const(x["n"]))])
        if k in ("tuple", "closure"):
            return Lazy(ty, base, idx)
        if k == "adt":
            nm = x["name"]
            if nm.endswith("vec::Vec"):
                b = base_el(base, idx)
                return VecV(Seq(x["args"][0], [("S", b, ZERO, len_of(b))]))
            if nm.endswith("boxed::Box"):
                e = self.prog.types[x["args"][0]]
                b = base_fld(base, "*")
                if e["k"] == "slice":
                    b = base_el(b, idx)
                    return BoxV(Seq(e["e"], [("S", b, ZERO, len_of(b))]))
                return BoxV(self.elem(x["args"][0], b, idx))
            if x["kind"] == "Struct" and nm.startswith(("std::io::", "core::io::")):
                return Opq(ty, ("lazy", base, idx))
            return Lazy(ty, base, idx)
        return Opq(ty, ("lazy", base, idx))

    def fld(self, z, var, i):
        """Field of a lazy aggregate"""
        fts = self.prog.field_tys(z.ty, var)
        if self.prog.is_enum(z.ty):
            b = base_fld(z.base, (var, i))
        else:
            b = base_fld(z.base, i)
        return self.elem(fts[i], b, z.idx)

    def tag(self, z):
        return tag_of(z.base, z.idx, len(self.prog.types[z.ty]["variants"]))

    def expand(self, z, F):
        """Lazy aggregate => Agg of its fields (enum variant must be known)"""
        var = 0
        if self.prog.is_enum(z.ty):
            var = self.variant(z, F)
        n = len(self.prog.field_tys(z.ty, var))
        return Agg(z.ty, var, [self.fld(z, var, i) for i in range(n)])

    def variant(self, z, F):
        """Variant index of an enum value; asks for a case split if unknown"""
        if isinstance(z, Agg):
            return z.var
        if isinstance(z, Lazy):
            t = F.norm(self.tag(z))
            if not t.t:
                return t.c
            lo, hi = F.rng(t)
            for v in range(lo, hi + 1):
                c = c_eq(t, const(v))
                if F.disproves(c):
                    continue
                raise NeedSplit(c)
            raise Infeasible()
        raise Undecided("variant of %r" % (z,))

    def const_u8s(self, q):
        """Bytes of a fully constant sequence or None"""
        out = []
        for c in q.ch:
            if c[0] == "E" and isinstance(c[1], Poly) and not c[1].t:
                out.append(c[1].c)
            elif c[0] == "F" and not c[2].t and isinstance(c[1], Poly) and not c[1].t:
                out += [c[1].c] * c[2].c
            else:
                return None
        return bytes(out)

    # -- universal facts about elements

    def leaves(self, ty, depth=0):
        """Paths of the integers in an element"""
        r = self._leaves.get(ty)
        if r is None:
            r = self._leaves[ty] = list(self.leaf_paths(ty, 0))
        return r

    def leaf_paths(self, ty, depth):
        x = self.prog.types[ty]
        if x["k"] == "uint":
            yield (), self.prog.int_range(ty)
        elif x["k"] == "tuple" or x["k"] == "adt" and x["kind"] in ("Struct", "Enum") and depth < 3:
            if x["k"] == "adt" and x["name"].endswith("vec::Vec"):
                yield ("len",), (0, LEN_MAX)
                return
            if x["k"] == "adt" and x["name"].endswith("boxed::Box"):
                return
            enum = self.prog.is_enum(ty)
            for v in range(len(x["variants"]) if enum else 1):
                for i, t in enumerate(self.prog.field_tys(ty, v)):
                    for p, r in self.leaf_paths(t, depth + 1):
                        yield (((v, i) if enum else i),) + p, r

    def leaf(self, v, path):
        """Integer at a path; None in another variant"""
        for k in path:
            if k == "len":
                if not isinstance(v, VecV):
                    raise Undecided("leaf")
                return seq_len(v.seq)
            if isinstance(v, Lazy):
                v = self.fld(v, *k) if isinstance(k, tuple) else self.fld(v, 0, k)
                continue
            if not isinstance(v, Agg):
                raise Undecided("leaf")
            if isinstance(k, tuple):
                if v.var != k[0]:
                    return None
                k = k[1]
            v = v.f[k]
        return v

    def bounds(self, q, path, nat, F):
        """(least, greatest, less than their index) of all elements"""
        lo = hi = None
        lt = True
        pos = ZERO
        for c in q.ch:
            if c[0] == "S":
                b = c[1]
                for k in path:
                    b = base_fld(b, k)
                x = elem_info(b)
                l, h = nat
                if x is not None:
                    if x[0] > x[1]:
                        # no element has it
                        pos = pos + clen(c)
                        continue
                    l, h = max(l, x[0]), min(h, x[1])
                if lt:
                    lt = x is not None and x[2] and F.proves(c_le(c[2], pos))
            else:
                v = self.leaf(c[1], path)
                if v is None:
                    pos = pos + clen(c)
                    continue
                l, h = F.rng(F.norm(v))
                # of its type whatever else is known
                l, h = max(l, nat[0]), min(h, nat[1])
                if lt:
                    lt = F.proves(c_lt(v, pos))
            lo = l if lo is None else min(lo, l)
            hi = h if hi is None else max(hi, h)
            pos = pos + clen(c)
        return lo, hi, lt

    def info(self, q, F, old, cnt):
        """Description of the elements of q and of bases with old descriptions"""
        out = []
        for path, nat in self.leaves(q.ety):
            try:
                lo, hi, lt = self.bounds(q, path, nat, F)
            except Undecided:
                continue
            for o in old:
                x = [y for y in o if y[0] == path]
                if not x:
                    lo, hi, lt = nat[0], nat[1], False
                    break
                _, l, h, t = x[0]
                if l <= h:
                    lo, hi = (l, h) if lo is None else (min(lo, l), max(hi, h))
                lt = lt and t
            if lo is None:
                lo, hi = 1, 0
            elif cnt >= 2:
                lo = 0
                hi = min(nat[1], (1 << hi.bit_length()) - 1) if cnt < 12 else nat[1]
            if lt or lo > nat[0] or hi < nat[1]:
                out.append((path, lo, hi, lt))
        return tuple(out)

    def conforms(self, q, info, F):
        nats = dict(self.leaves(q.ety))
        for path, lo, hi, lt in info:
            try:
                l, h, t = self.bounds(q, path, nats[path], F)
            except Undecided:
                return False
            if l is not None and (l < lo or h > hi):
                return False
            if lt and not t:
                return False
        return True

    # -- structure

    def norm(self, ety, ch, F):
        out = []
        for c in ch:
            if c[0] == "F" and isinstance(c[1], Opq) and c[1].tag == JUNK:
                # may be empty
                c = ("F", c[1], F.norm(c[2]))
            elif c[0] != "E":
                n = clen(c)
                n2 = F.norm(n)
                if not n2.t:
                    if n2.c == 0:
                        continue
                    n = n2
                elif F.rng(n2)[1] == 0:
                    continue
                c = ("S", c[1], c[2], n) if c[0] == "S" else ("F", c[1], n)
            if out:
                m = self.merge2(ety, out[-1], c, F)
                if m is not None:
                    out[-1] = m
                    continue
            out.append(c)
        return Seq(ety, out)

    def merge2(self, ety, a, b, F):
        if a[0] == "S" and b[0] == "S" and a[1] is b[1]:
            if a[2] + a[3] == b[2] or F.norm(a[2] + a[3] - b[2]) == ZERO:
                return ("S", a[1], a[2], a[3] + b[3])
        elif a[0] == "F" and b[0] == "F" and a[1] == b[1]:
            return ("F", a[1], a[2] + b[2])
        elif a[0] == "S" and b[0] == "E":
            if b[1] == self.elem(ety, a[1], a[2] + a[3]):
                return ("S", a[1], a[2], a[3] + 1)
        elif a[0] == "E" and b[0] == "S":
            if a[1] == self.elem(ety, b[1], b[2] - 1):
                return ("S", b[1], b[2] - 1, b[3] + 1)
        elif a[0] == "F" and b[0] == "E" and a[1] == b[1]:
            return ("F", a[1], a[2] + 1)
        elif a[0] == "E" and b[0] == "F" and a[1] == b[1]:
            return ("F", b[1], b[2] + 1)
        elif a[0] == "E" and b[0] == "E":
            va, vb = a[1], b[1]
            if isinstance(va, Poly) and isinstance(vb, Poly):
                x, y = va.atom(), vb.atom()
                if x is not None and y is not None and x.kind == "sel" and y.kind == "sel":
                    if x.args[0] is y.args[0] and x.args[1] + 1 == y.args[1]:
                        return ("S", x.args[0], x.args[1], const(2))
        return None

    def locate(self, q, i, F):
        """(chunk number, offset of chunk) holding index i"""
        off = ZERO
        i = F.norm(i)
        last = len(q.ch) - 1
        for k, c in enumerate(q.ch):
            n = clen(c)
            end = off + n
            if k == last:
                return k, off
            if F.proves(c_lt(i, end)):
                return k, off
            if not F.proves(c_le(end, i)):
                raise NeedSplit(c_lt(i, end))
            off = end
        raise Infeasible()

    def get(self, q, i, F):
        k, off = self.locate(q, i, F)
        c = q.ch[k]
        if c[0] == "S":
            return self.elem(q.ety, c[1], c[2] + i - off)
        if isinstance(c[1], Opq) and c[1].tag == JUNK:
            return self.elem(q.ety, base_sym(fresh_name("junk"), ()), ZERO)
        return c[1]

    def set(self, q, i, v, F):
        k, off = self.locate(q, i, F)
        c = q.ch[k]
        if c[0] == "E":
            new = [("E", v)]
        elif c[0] == "S":
            d = i - off
            if self.elem(q.ety, c[1], c[2] + d) == v:
                return q
            new = [("S", c[1], c[2], d), ("E", v), ("S", c[1], c[2] + d + 1, c[3] - d - 1)]
        elif isinstance(c[1], Opq) and c[1].tag == JUNK:
            return q
        else:
            d = i - off
            new = [("F", c[1], d), ("E", v), ("F", c[1], c[2] - d - 1)]
        return self.norm(q.ety, q.ch[:k] + tuple(new) + q.ch[k + 1 :], F)

    def split(self, q, i, F):
        """(left, right) chunks around position i"""
        i = F.norm(i)
        left = []
        off = ZERO
        ch = q.ch
        for k, c in enumerate(ch):
            d = F.norm(i - off)
            if not d.t and d.c == 0:
                return left, list(ch[k:])
            n = clen(c)
            end = off + n
            if F.norm(i - end) == ZERO:
                return left + [c], list(ch[k + 1 :])
            if F.proves(c_le(end, i)):
                left.append(c)
                off = end
                continue
            if F.proves(c_le(i, off)):
                return left, list(ch[k:])
            if k != len(ch) - 1 and not F.proves(c_le(i, end)):
                raise NeedSplit(c_le(i, end))
            # inside of the chunk
            if c[0] == "E":
                raise NeedSplit(c_le(i, off))
            if c[0] == "S":
                a, b = ("S", c[1], c[2], d), ("S", c[1], c[2] + d, n - d)
            else:
                a, b = ("F", c[1], d), ("F", c[1], n - d)
            return left + [a], [b] + list(ch[k + 1 :])
        return left, []

    def slice(self, q, lo, n, F):
        if F.norm(lo) == ZERO and F.norm(n - seq_len(q)) == ZERO:
            return q
        _, r = self.split(q, lo, F)
        l, _ = self.split(Seq(q.ety, r), n, F)
        return self.norm(q.ety, l, F)

    def replace(self, q, lo, n, new, F):
        """q with elements lo..lo+n replaced by the chunks new"""
        l, r = self.split(q, lo, F)
        _, r = self.split(Seq(q.ety, r), n, F)
        return self.norm(q.ety, l + list(new) + r, F)

    # -- equality

    def value_eq(self, a, b, F):
        if a is b:
            return TRUE
        if isinstance(a, Poly) and isinstance(b, Poly):
            return c_eq(a, b)
        if isinstance(a, Cond) and isinstance(b, Cond):
            if a == b:
                return TRUE
            return c_or(c_and(a, b), c_and(c_not(a), c_not(b)))
        if isinstance(a, Lazy) and isinstance(b, Lazy) and a.base is b.base and a.ty == b.ty:
            if F.norm(a.idx - b.idx) == ZERO:
                return TRUE
        if isinstance(a, Lazy):
            a = self.expand(a, F)
        if isinstance(b, Lazy):
            b = self.expand(b, F)
        if isinstance(a, Agg) and isinstance(b, Agg):
            if a.var != b.var:
                return FALSE
            return c_and(*[self.value_eq(x, y, F) for x, y in zip(a.f, b.f)])
        if isinstance(a, VecV) and isinstance(b, VecV):
            return self.eq(a.seq, b.seq, F)
        if isinstance(a, Seq) and isinstance(b, Seq):
            return self.eq(a, b, F)
        if isinstance(a, BoxV) and isinstance(b, BoxV):
            return self.value_eq(a.v, b.v, F)
        if a == b:
            return TRUE
        raise Undecided("equality of %r and %r" % (a, b))

    def eq(self, a, b, F):
        la, lb = F.norm(seq_len(a)), F.norm(seq_len(b))
        le = c_eq(la, lb)
        if le.kind == "false" or F.disproves(le):
            return FALSE
        if le.kind != "true" and not F.proves(le):
            for u, v in ((a, b), (b, a)):
                n = seq_len(u)
                if not n.t and n.c <= 64 and len(v.ch) == 1 and v.ch[0][0] == "S":
                    w = v.ch[0]
                    cs = [le]
                    for i in range(n.c):
                        x = self.elem(v.ety, w[1], w[2] + i)
                        if not isinstance(x, Poly):
                            raise NeedSplit(le)
                        cs.append(c_eq(self.get(u, const(i), F), x))
                    return c_and(*cs)
            raise NeedSplit(le)
        x, y = list(self.norm(a.ety, a.ch, F).ch), list(self.norm(b.ety, b.ch, F).ch)
        conds = []
        while x and y:
            c, d = x[0], y[0]
            n, m = F.norm(clen(c)), F.norm(clen(d))
            if n != m and not F.proves(c_eq(n, m)):
                if F.proves(c_le(n, m)):
                    d1, d2 = self.cut(d, n)
                    y[0:1] = [d1, d2]
                    continue
                if F.proves(c_le(m, n)):
                    c1, c2 = self.cut(c, m)
                    x[0:1] = [c1, c2]
                    continue
                raise NeedSplit(c_le(n, m))
            x.pop(0)
            y.pop(0)
            if c == d:
                continue
            if c[0] == "S" and n == ONE:
                c = ("E", self.elem(a.ety, c[1], c[2]))
            if d[0] == "S" and n == ONE:
                d = ("E", self.elem(a.ety, d[1], d[2]))
            if c[0] in "EF" and d[0] in "EF":
                e = self.value_eq(c[1], d[1], F)
                if c[0] == "F" and d[0] == "F":
                    e = c_or(e, c_eq(n))
                conds.append(e)
            elif c[0] == "S" and d[0] == "S" and c[1] is d[1] and F.norm(c[2] - d[2]) == ZERO:
                continue
            elif not n.t and n.c <= 64:
                for j in range(n.c):
                    u = self.elem(a.ety, c[1], c[2] + j) if c[0] == "S" else c[1]
                    v = self.elem(a.ety, d[1], d[2] + j) if d[0] == "S" else d[1]
                    conds.append(self.value_eq(u, v, F))
            elif F.norm(n) == ZERO:
                continue
            else:
                conds.append(c_or(c_eq(n), Cond("seqeq", self.canon(c, d))))
        return c_and(*conds)

    def canon(self, c, d):
        def enc(z):
            if z[0] == "S":
                return z
            v = z[1]
            if isinstance(v, (Poly, Cond)):
                return (z[0], v) + tuple(z[2:])
            return (z[0], ("val", repr(v))) + tuple(z[2:])

        return tuple(sorted((enc(c), enc(d)), key=repr))

    def cut(self, c, n):
        if c[0] == "S":
            return ("S", c[1], c[2], n), ("S", c[1], c[2] + n, c[3] - n)
        if c[0] == "F":
            return ("F", c[1], n), ("F", c[1], c[2] - n)
        raise Undecided("cut of one element")
