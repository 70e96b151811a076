"""Symbolic value domain: integer polynomials over interned atoms, conditions.

Every integer term denotes a mathematical integer.  Machine wrap-around is
explicit (atom kind "mod").
"""

ATOMS = {}
ALIST = []
USIZE_MAX = (1 << 64) - 1
LEN_MAX = (1 << 63) - 1


class Atom:
    __slots__ = ("id", "kind", "args", "lo", "hi", "deps", "lem", "ext", "nat")

    def __repr__(self):
        return show_atom(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id


def arg_deps(a):
    if isinstance(a, Poly):
        return a.deps()
    if isinstance(a, (Atom,)):
        return a.deps
    if isinstance(a, Cond):
        return a.deps()
    if isinstance(a, tuple):
        r = frozenset()
        for x in a:
            d = arg_deps(x)
            if d:
                r = r | d
        return r
    return frozenset()


def mk(kind, args, lo, hi, root=False):
    key = (kind, args)
    a = ATOMS.get(key)
    if a is not None:
        return a
    a = Atom()
    a.id = len(ALIST)
    a.kind = kind
    a.args = args
    a.lo = lo
    a.hi = hi
    a.lem = None
    a.ext = None
    if root:
        a.deps = frozenset((a.id,))
    else:
        d = arg_deps(args)
        a.deps = d | frozenset((a.id,))
    ALIST.append(a)
    ATOMS[key] = a
    return a


_cnt = [0]


def fresh_name(p):
    _cnt[0] += 1
    return "%s#%d" % (p, _cnt[0])


def sym_atom(name, lo, hi):
    return mk("sym", (name,), lo, hi, root=True)


def sym(name, lo, hi):
    return atom_poly(sym_atom(name, lo, hi))


def fresh(prefix, lo, hi):
    return sym(fresh_name(prefix), lo, hi)


# --- polynomials -----------------------------------------------------------


class Poly:
    """c + sum(coef * monomial); monomial is a sorted tuple of atom ids"""

    __slots__ = ("t", "c", "h", "_d")

    def __init__(self, t, c):
        self.t = t  # tuple of (mono, coef) sorted
        self.c = c
        self.h = hash((t, c))
        self._d = None

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.h == o.h and self.c == o.c and self.t == o.t

    def __repr__(self):
        return show(self)

    def deps(self):
        if self._d is None:
            s = set()
            for m, _ in self.t:
                for a in m:
                    s |= ALIST[a].deps
            self._d = frozenset(s)
        return self._d

    def is_const(self):
        return not self.t

    def atom(self):
        """The single atom this polynomial is, if any"""
        if self.c == 0 and len(self.t) == 1:
            m, k = self.t[0]
            if k == 1 and len(m) == 1:
                return ALIST[m[0]]
        return None

    def atoms(self):
        s = set()
        for m, _ in self.t:
            s.update(m)
        return s

    def __add__(self, o):
        if isinstance(o, int):
            return Poly(self.t, self.c + o) if o else self
        if not o.t:
            return Poly(self.t, self.c + o.c) if o.c else self
        if not self.t:
            return Poly(o.t, self.c + o.c) if self.c else o
        d = dict(self.t)
        for m, k in o.t:
            v = d.get(m, 0) + k
            if v:
                d[m] = v
            else:
                d.pop(m, None)
        return from_dict(d, self.c + o.c)

    def __neg__(self):
        return Poly(tuple((m, -k) for m, k in self.t), -self.c)

    def __sub__(self, o):
        if isinstance(o, int):
            return self + (-o)
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    __radd__ = __add__

    def scale(self, k):
        if k == 0:
            return ZERO
        if k == 1:
            return self
        return Poly(tuple((m, c * k) for m, c in self.t), self.c * k)

    def __mul__(self, o):
        if isinstance(o, int):
            return self.scale(o)
        if not o.t:
            return self.scale(o.c)
        if not self.t:
            return o.scale(self.c)
        d = {}
        for m, k in self.t:
            for n, l in o.t:
                mm = tuple(sorted(m + n))
                d[mm] = d.get(mm, 0) + k * l
            if o.c:
                d[m] = d.get(m, 0) + k * o.c
        if self.c:
            for n, l in o.t:
                d[n] = d.get(n, 0) + l * self.c
        return from_dict({m: k for m, k in d.items() if k}, self.c * o.c)

    __rmul__ = __mul__


def from_dict(d, c):
    # recombine adjacent bit extracts: k*ext(a,l,n) + k*2^n*ext(a,l+n,m)
    if len(d) > 1:
        exts = None
        for m in d:
            if len(m) == 1:
                a = ALIST[m[0]]
                if a.kind == "ext":
                    if exts is None:
                        exts = {}
                    exts.setdefault(a.args[0].id, []).append(a)
        if exts:
            for lst in exts.values():
                if len(lst) < 2:
                    continue
                lst.sort(key=lambda a: a.args[1])
                changed = True
                while changed:
                    changed = False
                    for i in range(len(lst) - 1):
                        a, b = lst[i], lst[i + 1]
                        base, l, n = a.args
                        _, l2, n2 = b.args
                        if l2 != l + n:
                            continue
                        ka = d.get((a.id,), 0)
                        kb = d.get((b.id,), 0)
                        if ka and kb == ka << n:
                            del d[(a.id,)]
                            del d[(b.id,)]
                            e = mk_ext(base, l, n + n2)
                            d[(e.id,)] = d.get((e.id,), 0) + ka
                            lst[i : i + 2] = [e] if e.kind == "ext" else []
                            changed = True
                            break
    return Poly(tuple(sorted(d.items())), c)


ZERO = Poly((), 0)
ONE = Poly((), 1)
_consts = {}


def const(n):
    p = _consts.get(n)
    if p is None:
        p = Poly((), n)
        if -1024 <= n <= 70000:
            _consts[n] = p
    return p


def atom_poly(a):
    return Poly((((a.id,), 1),), 0)


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        return const(int(x))
    if isinstance(x, int):
        return const(x)
    if isinstance(x, Cond):
        return b2i(x)
    if isinstance(x, Atom):
        return atom_poly(x)
    raise TypeError("not an integer term: %r" % (x,))


# --- conditions --------------------------------------------------------------


class Cond:
    """kinds: le(p: p<=0) eq(p) ne(p) and(cs) or(cs) true false"""

    __slots__ = ("kind", "args", "h", "_d")

    def __init__(self, kind, args):
        self.kind = kind
        self.args = args
        self.h = hash((kind, args))
        self._d = None

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Cond) and self.kind == o.kind and self.args == o.args

    def __repr__(self):
        if self.kind == "le":
            return "(%s <= 0)" % (self.args[0],)
        if self.kind == "eq":
            return "(%s == 0)" % (self.args[0],)
        if self.kind == "ne":
            return "(%s != 0)" % (self.args[0],)
        if self.kind in ("and", "or"):
            return "(" + (" %s " % self.kind).join(map(repr, self.args)) + ")"
        if self.kind == "seqeq":
            return "seqeq%r" % (self.args,)
        return self.kind

    def deps(self):
        if self._d is None:
            self._d = arg_deps(self.args)
        return self._d


TRUE = Cond("true", ())
FALSE = Cond("false", ())


def gcd_norm(p, kind):
    from math import gcd

    g = 0
    for _, k in p.t:
        g = gcd(g, k)
    if g > 1:
        if kind == "le":
            # g*q + c <= 0  <=>  q + ceil(c/g) <= 0
            c = -((-p.c) // g)
            p = Poly(tuple((m, k // g) for m, k in p.t), c)
        elif p.c % g == 0:
            p = Poly(tuple((m, k // g) for m, k in p.t), p.c // g)
        else:
            return None
    return p


def c_le0(p):
    if not p.t:
        return TRUE if p.c <= 0 else FALSE
    return Cond("le", (gcd_norm(p, "le"),))


def c_le(a, b):
    return c_le0(a - b)


def c_lt(a, b):
    return c_le0(a - b + 1)


def c_eq(a, b=ZERO):
    p = a - b
    if not p.t:
        return TRUE if p.c == 0 else FALSE
    p = gcd_norm(p, "eq")
    if p is None:
        return FALSE
    if p.t[0][1] < 0:
        p = -p
    # comparing a 0/1 encoded condition with a constant
    if len(p.t) == 1 and len(p.t[0][0]) == 1 and p.t[0][1] == 1:
        at = ALIST[p.t[0][0][0]]
        if at.kind == "b2i":
            if p.c == -1:
                return at.args[0]
            if p.c == 0:
                return c_not(at.args[0])
            return FALSE
        if -p.c < at.lo or -p.c > at.hi:
            return FALSE
    return Cond("eq", (p,))


def c_ne(a, b=ZERO):
    return c_not(c_eq(a, b))


def c_not(c):
    k = c.kind
    if k == "true":
        return FALSE
    if k == "false":
        return TRUE
    if k == "le":
        return c_le0(1 - c.args[0])
    if k == "eq":
        return Cond("ne", c.args)
    if k == "ne":
        return Cond("eq", c.args)
    if k == "and":
        return c_or(*[c_not(x) for x in c.args])
    if k == "or":
        return c_and(*[c_not(x) for x in c.args])
    if k == "not":
        return c.args[0]
    return Cond("not", (c,))


def c_and(*cs):
    out = []
    for c in cs:
        if c.kind == "true":
            continue
        if c.kind == "false":
            return FALSE
        if c.kind == "and":
            for x in c.args:
                if x not in out:
                    out.append(x)
        elif c not in out:
            out.append(c)
    for c in out:
        if c_not(c) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return Cond("and", tuple(out))


def c_or(*cs):
    out = []
    for c in cs:
        if c.kind == "false":
            continue
        if c.kind == "true":
            return TRUE
        if c.kind == "or":
            for x in c.args:
                if x not in out:
                    out.append(x)
        elif c not in out:
            out.append(c)
    for c in out:
        if c.kind in ("le", "eq", "ne") and c_not(c) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return Cond("or", tuple(out))


def b2i(c):
    if c.kind == "true":
        return ONE
    if c.kind == "false":
        return ZERO
    # (x != 0) for a 0/1 atom x, and (x == 1)
    if c.kind in ("ne", "eq"):
        p = c.args[0]
        if len(p.t) == 1 and p.t[0][1] == 1 and len(p.t[0][0]) == 1:
            a = ALIST[p.t[0][0][0]]
            if a.lo >= 0 and a.hi <= 1:
                if c.kind == "ne" and p.c == 0 or c.kind == "eq" and p.c == -1:
                    return atom_poly(a)
    return atom_poly(mk("b2i", (c,), 0, 1))


def i2b(p):
    """condition: integer term (known 0/1) is nonzero"""
    if isinstance(p, Cond):
        return p
    if not p.t:
        return TRUE if p.c else FALSE
    a = p.atom()
    if a is not None and a.kind == "b2i":
        return a.args[0]
    return c_ne(p)


def c_ite(c, a, b):
    return c_or(c_and(c, a), c_and(c_not(c), b))


# --- operations ---------------------------------------------------------------


def bitlen(n):
    return max(n, 0).bit_length()


def mk_ext(a, l, n):
    """bits l..l+n of atom"""
    if a.kind == "ext":
        return mk_ext(a.args[0], a.args[1] + l, n)
    w = bitlen(a.hi)
    if l == 0 and n >= w:
        return a
    return mk("ext", (a, l, n), 0, (1 << n) - 1)


def bits_of(p, rng=None):
    """Little-endian list of bits: 0, 1 or (atom, i); None if not available"""
    if p.c < 0:
        return None
    n = bitlen(p.c)
    parts = []
    for m, k in p.t:
        if k <= 0 or len(m) != 1 or k & (k - 1):
            return None
        a = ALIST[m[0]]
        if a.lo < 0 or a.hi > USIZE_MAX:
            return None
        w = bitlen(a.hi)
        if rng is not None:
            r = rng(a)
            w = min(w, bitlen(r[1]))
        sh = k.bit_length() - 1
        parts.append((a, w, sh))
        n = max(n, w + sh)
    out = [0] * n
    for i in range(bitlen(p.c)):
        if p.c >> i & 1:
            out[i] = 1
    for a, w, sh in parts:
        if a.kind == "ext":
            src, l, _ = a.args
        else:
            src, l = a, 0
        for i in range(w):
            if out[sh + i] != 0:
                return None
            out[sh + i] = (src, l + i)
    return out


def from_bits(b):
    p = ZERO
    i = 0
    n = len(b)
    c = 0
    d = {}
    while i < n:
        x = b[i]
        if x == 0:
            i += 1
            continue
        if x == 1:
            c |= 1 << i
            i += 1
            continue
        a, l = x
        j = i + 1
        while j < n and b[j] not in (0, 1) and b[j][0] is a and b[j][1] == l + (j - i):
            j += 1
        e = mk_ext(a, l, j - i)
        d[(e.id,)] = d.get((e.id,), 0) + (1 << i)
        i = j
    return from_dict(d, c)


def p_mod(p, k):
    """p mod k for constant k > 0 (result in 0..k)"""
    if k == 1:
        return ZERO
    if not p.t:
        return const(p.c % k)
    d = {m: c % k for m, c in p.t if c % k}
    q = Poly(tuple(sorted(d.items())), p.c % k)
    if not q.t:
        return q
    lo, hi = static_range(q)
    if lo >= 0 and hi < k:
        return q
    if k & (k - 1) == 0:
        b = bits_of(q)
        if b is not None:
            return from_bits(b[: k.bit_length() - 1])
    a = q.atom()
    if a is not None and a.kind == "mod" and a.args[1] % k == 0:
        return p_mod(a.args[0], k)
    return atom_poly(mk("mod", (q, k), 0, k - 1))


def p_div(p, k):
    """floor(p / k) for constant k > 0, p >= 0"""
    if k == 1:
        return p
    if not p.t:
        return const(p.c // k)
    # split off multiples of k when the remainder is within 0..k
    dm = {m: c // k for m, c in p.t if c % k == 0}
    rm = {m: c for m, c in p.t if c % k}
    if dm:
        rest = Poly(tuple(sorted(rm.items())), p.c % k)
        q = Poly(tuple(sorted(dm.items())), p.c // k)
        lo, hi = static_range(rest)
        if lo >= 0 and hi < k:
            return q
        if lo >= 0:
            return q + p_div(rest, k)
    if k & (k - 1) == 0:
        b = bits_of(p)
        if b is not None:
            return from_bits(b[k.bit_length() - 1 :])
    lo, hi = static_range(p)
    if lo >= 0 and hi < k:
        return ZERO
    return atom_poly(mk("div", (p, k), lo // k, hi // k))


def p_and(a, b):
    if not a.t and not b.t:
        return const(a.c & b.c)
    if not a.t:
        a, b = b, a
    if not b.t and b.c == 0:
        return ZERO
    x, y = bits_of(a), bits_of(b)
    if x is not None and y is not None:
        n = max(len(x), len(y))
        x = x + [0] * (n - len(x))
        y = y + [0] * (n - len(y))
        out = []
        for i in range(n):
            u, v = x[i], y[i]
            if u == 0 or v == 0:
                out.append(0)
            elif u == 1:
                out.append(v)
            elif v == 1 or u == v:
                out.append(u)
            else:
                out = None
                break
        if out is not None:
            return from_bits(out)
    if not b.t and b.c >= 0 and b.c & (b.c + 1) == 0:
        return p_mod(a, b.c + 1)
    # a & (2^s - 1)
    if b.c == -1 and len(b.t) == 1 and b.t[0][1] == 1 and len(b.t[0][0]) == 1:
        q = ALIST[b.t[0][0][0]]
        if q.kind == "pow2":
            lo, hi = static_range(a)
            return atom_poly(mk("modp2", (a, q.args[0]), 0, max(0, q.hi - 1)))
    if b.h < a.h:
        a, b = b, a
    ra, rb = static_range(a), static_range(b)
    return atom_poly(mk("and", (a, b), 0, min(ra[1], rb[1])))


def p_or(a, b):
    if not a.t and not b.t:
        return const(a.c | b.c)
    x, y = bits_of(a), bits_of(b)
    if x is not None and y is not None:
        n = max(len(x), len(y))
        x = x + [0] * (n - len(x))
        y = y + [0] * (n - len(y))
        out = []
        for i in range(n):
            u, v = x[i], y[i]
            if u == 1 or v == 1:
                out.append(1)
            elif u == 0:
                out.append(v)
            elif v == 0 or u == v:
                out.append(u)
            else:
                out = None
                break
        if out is not None:
            return from_bits(out)
    if b.h < a.h:
        a, b = b, a
    ra, rb = static_range(a), static_range(b)
    n = max(bitlen(ra[1]), bitlen(rb[1]))
    return atom_poly(mk("or", (a, b), max(ra[0], rb[0], 0), (1 << n) - 1))


def p_xor(a, b, w):
    if not a.t and not b.t:
        return const(a.c ^ b.c)
    x, y = bits_of(a), bits_of(b)
    if x is not None and y is not None:
        n = max(len(x), len(y))
        x = x + [0] * (n - len(x))
        y = y + [0] * (n - len(y))
        out = []
        for i in range(n):
            u, v = x[i], y[i]
            if u == v:
                out.append(0)
            elif u == 0:
                out.append(v)
            elif v == 0:
                out.append(u)
            else:
                out = None
                break
        if out is not None:
            return from_bits(out)
    if b.h < a.h:
        a, b = b, a
    if b == const((1 << w) - 1):
        return b - a
    if a == const((1 << w) - 1):
        return a - b
    return atom_poly(mk("xor", (a, b), 0, (1 << w) - 1))


def p_pow2(s):
    if not s.t:
        return const(1 << s.c) if s.c >= 0 else ZERO
    q = Poly(s.t, 0)
    lo, hi = static_range(q)
    if s.c >= 0 or lo + s.c < 0:
        k, q = (s.c, q) if s.c >= 0 else (0, s)
    else:
        k, q = 0, s
    lo, hi = static_range(q)
    lo = max(lo, 0)
    hi = min(max(hi, 0), 130)
    return atom_poly(mk("pow2", (q,), 1 << lo, 1 << hi)).scale(1 << k)


def p_shr(a, s):
    if not s.t:
        return p_div(a, 1 << s.c)
    ra, rs = static_range(a), static_range(s)
    return atom_poly(mk("shr", (a, s), 0, max(ra[1], 0) >> max(rs[0], 0)))


def p_min(a, b):
    d = a - b
    lo, hi = static_range(d)
    if hi <= 0:
        return a
    if lo >= 0:
        return b
    if repr_key(b) < repr_key(a):
        a, b = b, a
    ra, rb = static_range(a), static_range(b)
    return atom_poly(mk("min", (a, b), min(ra[0], rb[0]), min(ra[1], rb[1])))


def p_max(a, b):
    d = a - b
    lo, hi = static_range(d)
    if lo >= 0:
        return a
    if hi <= 0:
        return b
    if repr_key(b) < repr_key(a):
        a, b = b, a
    ra, rb = static_range(a), static_range(b)
    return atom_poly(mk("max", (a, b), max(ra[0], rb[0]), max(ra[1], rb[1])))


def p_ite(c, a, b):
    if c.kind == "true":
        return a
    if c.kind == "false":
        return b
    if a == b:
        return a
    if a == ONE and b == ZERO:
        return b2i(c)
    if a == ZERO and b == ONE:
        return b2i(c_not(c))
    if c.kind in ("ne", "or") or c.kind == "le" and c.args[0].t[0][1] < 0:
        c, a, b = c_not(c), b, a
    if c.kind == "eq" and (a - b) == c.args[0]:
        return b
    if c.kind == "eq" and (b - a) == c.args[0]:
        return b
    ra, rb = static_range(a), static_range(b)
    return atom_poly(mk("ite", (c, a, b), min(ra[0], rb[0]), max(ra[1], rb[1])))


def repr_key(p):
    return (len(p.t), p.c, p.t)


def static_range(p):
    lo = hi = p.c
    for m, k in p.t:
        if len(m) == 1:
            a = ALIST[m[0]]
            l, h = a.lo, a.hi
        else:
            l = h = 1
            for x in m:
                a = ALIST[x]
                c = (l * a.lo, l * a.hi, h * a.lo, h * a.hi)
                l, h = min(c), max(c)
        if k > 0:
            lo += k * l
            hi += k * h
        else:
            lo += k * h
            hi += k * l
    return lo, hi


# --- sequence bases ------------------------------------------------------------


def base_sym(name, info=()):
    """Symbolic sequence; info is a hashable description of its elements"""
    return mk("bsym", (name, info), 0, 0, root=True)


def base_el(b, idx):
    return mk("bel", (b, idx), 0, 0)


def base_fld(b, f):
    return mk("bfld", (b, f), 0, 0)


def sel(b, idx, lo, hi):
    """Integer element of a base; lo and hi are the range of its type"""
    nat = (lo, hi)
    x = elem_info(b)
    if x is not None:
        lo, hi = max(lo, x[0]), min(hi, x[1])
    a = mk("sel", (b, idx), lo, hi)
    a.nat = nat
    return atom_poly(a)


def elem_info(b):
    """What holds for all elements: (least, greatest, less than their index)"""
    path = ()
    while b.kind == "bfld":
        path = (b.args[1],) + path
        b = b.args[0]
    if b.kind == "bsym":
        for q in b.args[1]:
            if q[0] == path:
                return q[1:]
    return None


def len_info(b):
    """What holds for the lengths of all elements"""
    path = ("len",)
    while b.kind in ("bfld", "bel"):
        path = (b.args[1] if b.kind == "bfld" else "[]",) + path
        b = b.args[0]
    if b.kind == "bsym":
        for q in b.args[1]:
            if q[0] == path:
                return q[1:]
    return None


def tag_of(b, idx, n):
    return atom_poly(mk("tag", (b, idx), 0, n - 1))


def len_of(b):
    lo, hi = 0, LEN_MAX
    if b.kind == "bel":
        x = len_info(b.args[0])
        if x is not None and x[0] <= x[1]:
            lo, hi = x[0], min(hi, x[1])
    return atom_poly(mk("len", (b,), lo, hi))


# --- substitution ---------------------------------------------------------------


class Subst:
    """Deep substitution of atoms by polynomials (bases by bases)"""

    def __init__(self, m):
        self.m = m  # atom id -> Poly or Atom (base)
        self.keys = frozenset(m)
        self.memo = {}

    def poly(self, p):
        if not p.t:
            return p
        d = p.deps()
        if self.keys.isdisjoint(d):
            return p
        r = self.memo.get(p)
        if r is not None:
            return r
        out = const(p.c)
        for m, k in p.t:
            q = None
            for x in m:
                v = self.atom(ALIST[x])
                if isinstance(v, Atom):
                    v = atom_poly(v)
                q = v if q is None else q * v
            out = out + q.scale(k)
        self.memo[p] = out
        return out

    def atom(self, a):
        v = self.m.get(a.id)
        if v is not None:
            return v
        if self.keys.isdisjoint(a.deps):
            return a
        v = self.memo.get(a)
        if v is None:
            v = rebuild(a.kind, tuple(self.any(x) for x in a.args), a)
            self.memo[a] = v
        return v

    def any(self, x):
        if isinstance(x, Poly):
            return self.poly(x)
        if isinstance(x, Atom):
            v = self.atom(x)
            if isinstance(v, Poly) and not x.kind.startswith("b"):
                return v
            return v
        if isinstance(x, Cond):
            return self.cond(x)
        if isinstance(x, tuple):
            return tuple(self.any(y) for y in x)
        return x

    def cond(self, c):
        k = c.kind
        if k in ("true", "false"):
            return c
        if self.keys.isdisjoint(c.deps()):
            return c
        r = self.memo.get(c)
        if r is not None:
            return r
        if k == "le":
            r = c_le0(self.poly(c.args[0]))
        elif k == "eq":
            r = c_eq(self.poly(c.args[0]))
        elif k == "ne":
            r = c_ne(self.poly(c.args[0]))
        elif k == "and":
            r = c_and(*[self.cond(x) for x in c.args])
        elif k == "or":
            r = c_or(*[self.cond(x) for x in c.args])
        elif k == "not":
            r = c_not(self.cond(c.args[0]))
        else:
            r = Cond(k, tuple(self.any(x) for x in c.args))
        self.memo[c] = r
        return r


def ext_poly(p, l, n):
    b = bits_of(p)
    if b is None:
        return p_mod(p_div(p, 1 << l), 1 << n)
    return from_bits(b[l : l + n])


def rebuild(kind, args, old):
    if kind == "ext":
        a, l, n = args
        if isinstance(a, Atom):
            return atom_poly(mk_ext(a, l, n))
        return ext_poly(a, l, n)
    if kind == "mod":
        return p_mod(*args)
    if kind == "div":
        return p_div(*args)
    if kind == "and":
        return p_and(*args)
    if kind == "or":
        return p_or(*args)
    if kind == "modp2":
        return p_and(args[0], p_pow2(args[1]) - 1)
    if kind == "pow2":
        return p_pow2(*args)
    if kind == "shr":
        return p_shr(*args)
    if kind == "min":
        return p_min(*args)
    if kind == "max":
        return p_max(*args)
    if kind == "ite":
        return p_ite(*args)
    if kind == "b2i":
        return b2i(*args)
    if kind in ("bel", "bfld", "bsym"):
        return mk(kind, args, 0, 0)
    if kind == "sel":
        return sel(args[0], args[1], *old.nat)
    hook = REBUILD.get(kind)
    if hook:
        return hook(args, old)
    return atom_poly(mk(kind, args, old.lo, old.hi))


REBUILD = {}


def lemmas(a):
    """Linear facts (p <= 0) which always hold for an atom"""
    if a.lem is not None:
        return a.lem
    x = atom_poly(a)
    out = []
    k = a.kind
    if k == "min":
        out = [x - a.args[0], x - a.args[1]]
    elif k == "max":
        out = [a.args[0] - x, a.args[1] - x]
    elif k == "div":
        p, c = a.args
        out = [x.scale(c) - p, p - x.scale(c) - (c - 1)]
    elif k == "mod":
        p, c = a.args
        lo, _ = static_range(p)
        if lo >= 0:
            out = [x - p]
    elif k == "and":
        out = [x - a.args[0], x - a.args[1]]
    elif k == "modp2":
        lo, _ = static_range(a.args[0])
        out = [x - p_pow2(a.args[1]) + 1]
        if lo >= 0:
            out.append(x - a.args[0])
    elif k == "or":
        out = [a.args[0] - x, a.args[1] - x, x - a.args[0] - a.args[1]]
    elif k == "shr":
        out = [x - a.args[0]]
    elif k == "ext":
        b, l, n = a.args
        bp = atom_poly(b)
        out = [x.scale(1 << l) - bp]
        if l + n >= bitlen(b.hi):
            out.append(bp - x.scale(1 << l) - ((1 << l) - 1))
    elif k == "pow2":
        # 2^s >= s + 1
        out = [a.args[0] + 1 - x]
    elif k == "sel":
        i = elem_info(a.args[0])
        if i is not None and i[2]:
            out = [x - a.args[1] + 1]
    h = LEMMA_HOOK.get(k)
    if h:
        out = out + h(a)
    a.lem = out
    return out


LEMMA_HOOK = {}


# --- printing -------------------------------------------------------------------


def show_atom(a):
    k = a.kind
    if k == "sym":
        return a.args[0]
    if k == "bsym":
        return str(a.args[0])
    if k == "ext":
        return "%r[%d+%d]" % a.args
    if k == "sel":
        return "%r{%r}" % a.args
    return "%s(%s)" % (k, ", ".join(map(repr, a.args)))


def show(p):
    if not p.t:
        return str(p.c)
    s = []
    for m, k in p.t:
        mm = "*".join(repr(ALIST[x]) for x in m)
        if k == 1:
            s.append("+" + mm)
        elif k == -1:
            s.append("-" + mm)
        else:
            s.append("%+d*%s" % (k, mm))
    if p.c:
        s.append("%+d" % p.c)
    r = "".join(s)
    return r[1:] if r.startswith("+") else r
