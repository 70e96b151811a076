"""Facts about atoms: intervals, linear inequalities, equalities, disequalities.

Entailment is decided inside the domain (interval evaluation plus a bounded
elimination of monomials with known inequalities); nothing is executed.
"""
from terms import *
import terms as T
from heapq import heappush, heappop

FUEL = 40


class Infeasible(Exception):
    pass


DYN = frozenset(("pow2", "min", "max", "ite", "div", "mod", "shr"))


# elements under focus (see natives)
FOCUS = set()


class Facts:
    __slots__ = ("bnd", "sub", "le", "ne", "dis", "_s", "_idx", "cache", "pre", "lvl")

    def __init__(self):
        self.bnd = {}
        self.sub = {}
        self.le = {}
        self.ne = {}
        self.dis = ()
        self._s = None
        self._idx = None
        self.cache = {}
        self.pre = None
        self.lvl = 0

    def copy(self):
        f = Facts.__new__(Facts)
        f.bnd = dict(self.bnd)
        f.sub = dict(self.sub)
        f.le = dict(self.le)
        f.ne = dict(self.ne)
        f.dis = self.dis
        f._s = self._s
        f._idx = self._idx
        f.cache = dict(self.cache) if len(self.cache) < 400 else {}
        f.pre = None
        f.lvl = self.lvl
        return f

    def touch(self):
        self._idx = None
        self.cache = {}

    # -- ranges

    def arng(self, a):
        return self.mrng((a.id,))

    def mrng(self, m):
        if len(m) == 1:
            i = m[0]
            r = self.bnd.get(i)
            a = ALIST[i]
            if a.kind in DYN:
                ck = ("R", i)
                d = self.cache.get(ck)
                if d is None:
                    l, h = r if r is not None else (a.lo, a.hi)
                    self.cache[ck] = (l, h)
                    dl, dh = self.dyn_range(a)
                    d = (max(l, dl), min(h, dh))
                    if d[0] > d[1]:
                        d = (l, h)
                    self.cache[ck] = d
                return d
            if r is not None:
                return r
            return a.lo, a.hi
        r = self.bnd.get(m)
        l = h = 1
        for x in m:
            al, ah = self.mrng((x,))
            c = (l * al, l * ah, h * al, h * ah)
            l, h = min(c), max(c)
        if r is not None:
            l, h = max(l, r[0]), min(h, r[1])
        return l, h

    def dyn_range(self, a):
        """Range of a compound atom from the ranges of its arguments"""
        k = a.kind
        if k == "pow2":
            l, h = self.frng(self.norm(a.args[0]))
            return 1 << max(min(l, 300), 0), 1 << max(min(h, 300), 0)
        if k in ("min", "max"):
            l1, h1 = self.frng(self.norm(a.args[0]))
            l2, h2 = self.frng(self.norm(a.args[1]))
            if k == "min":
                return min(l1, l2), min(h1, h2)
            return max(l1, l2), max(h1, h2)
        if k == "ite":
            l1, h1 = self.frng(self.norm(a.args[1]))
            l2, h2 = self.frng(self.norm(a.args[2]))
            return min(l1, l2), max(h1, h2)
        if k == "div":
            l, h = self.frng(self.norm(a.args[0]))
            return l // a.args[1], h // a.args[1]
        if k == "mod":
            l, h = self.frng(self.norm(a.args[0]))
            return 0, max(min(h, a.args[1] - 1), 0) if l >= 0 else a.args[1] - 1
        if k == "shr":
            l, h = self.frng(self.norm(a.args[0]))
            l2, h2 = self.frng(self.norm(a.args[1]))
            if l >= 0 and l2 >= 0:
                return l >> min(h2, 4096), h >> min(l2, 4096)
        return a.lo, a.hi

    def frng(self, p):
        """Range from inequalities of the same form, too"""
        lo, hi = self.rng(p)
        if len(p.t) > 1:
            n = (-p).t
            for q in self.le:
                if q.t == p.t:
                    hi = min(hi, p.c - q.c)
                elif q.t == n:
                    lo = max(lo, p.c + q.c)
        return lo, hi

    def rng(self, p):
        lo = hi = p.c
        for m, k in p.t:
            l, h = self.mrng(m)
            if k > 0:
                lo += k * l
                hi += k * h
            else:
                lo += k * h
                hi += k * l
        return lo, hi

    # -- normalisation

    def subst(self):
        if self._s is None:
            self._s = Subst(self.sub)
        return self._s

    def norm(self, p):
        if not self.sub:
            return p
        s = self.subst()
        for _ in range(6):
            q = s.poly(p)
            if q is p or q == p:
                return q
            p = q
        return p

    def normc(self, c):
        if not self.sub:
            return c
        s = self.subst()
        for _ in range(6):
            q = s.cond(c)
            if q is c or q == c:
                return q
            c = q
        return c

    def norma(self, x):
        """Normalise any term (base, tuple, ...)"""
        if not self.sub:
            return x
        s = self.subst()
        for _ in range(6):
            q = s.any(x)
            if q is x or q == x:
                return q
            x = q
        return x

    # -- assumptions

    def set_bound(self, key, lo, hi):
        """key: monomial tuple"""
        k = key[0] if len(key) == 1 else key
        l, h = self.mrng(key)
        nl, nh = max(l, lo), min(h, hi)
        if nl > nh:
            raise Infeasible()
        if (nl, nh) == (l, h):
            return False
        self.touch()
        if nl == nh and len(key) == 1:
            self.add_sub(ALIST[key[0]], const(nl))
            return True
        self.bnd[k] = (nl, nh)
        # trim disequalities
        return True

    def add_sub(self, a, p):
        """a == p"""
        old = self.bnd.pop(a.id, (a.lo, a.hi))
        self.sub[a.id] = p
        # keep substitution triangular
        s1 = Subst({a.id: p})
        for k, v in list(self.sub.items()):
            if k != a.id and not s1.keys.isdisjoint(v.deps()):
                self.sub[k] = s1.poly(v)
        self._s = None
        self.touch()
        # re-normalise facts which mention the atom
        if old[0] > -(1 << 200):
            self.assume_le(const(old[0]) - p)
            self.assume_le(p - old[1])
        for q in list(self.le):
            if q in self.le and not s1.keys.isdisjoint(q.deps()):
                del self.le[q]
                self.assume_le(s1.poly(q))
        for q in list(self.ne):
            if q in self.ne and not s1.keys.isdisjoint(q.deps()):
                del self.ne[q]
                self.assume_ne(s1.poly(q))
        for k in list(self.bnd):
            if k not in self.bnd:
                continue
            if isinstance(k, tuple):
                if any(a.id in ALIST[x].deps for x in k):
                    r = self.bnd.pop(k)
                    q = ONE
                    for x in k:
                        q = q * atom_poly(ALIST[x])
                    q = self.norm(q)
                    self.assume_le(q - r[1])
                    self.assume_le(const(r[0]) - q)
            elif k != a.id and a.id in ALIST[k].deps:
                r = self.bnd.pop(k)
                q = self.norm(atom_poly(ALIST[k]))
                self.assume_le(q - r[1])
                self.assume_le(const(r[0]) - q)
        if a.kind == "b2i" or True:
            pass
        if self.dis:
            ds = [d for d in self.dis if not s1.keys.isdisjoint(d.deps())]
            if ds:
                self.dis = tuple(d for d in self.dis if s1.keys.isdisjoint(d.deps()))
                for d in ds:
                    self.assume(s1.cond(d))
        # atoms which were replaced and mention the atom
        for k, v in list(self.sub.items()):
            if k != a.id and a.id in ALIST[k].deps:
                q = s1.poly(atom_poly(ALIST[k]))
                if q != atom_poly(ALIST[k]):
                    self.assume_eq(q - v)
        # equalities on special atoms imply more
        if a.kind == "b2i" and not p.t:
            self.assume(a.args[0] if p.c else c_not(a.args[0]))
        elif a.kind == "ite" and not p.t:
            c, x, y = a.args
            x, y = self.norm(x), self.norm(y)
            if self.disproves(c_eq(x, p)):
                self.assume(c_not(c))
                self.assume(c_eq(y, p))
            elif self.disproves(c_eq(y, p)):
                self.assume(c)
                self.assume(c_eq(x, p))
        elif a.kind == "pow2" and not p.t:
            if p.c > 0 and p.c & (p.c - 1) == 0:
                self.assume(c_eq(a.args[0], const(p.c.bit_length() - 1)))
        elif a.kind == "mod" and not p.t:
            pass

    def assume(self, c):
        c = self.normc(c)
        k = c.kind
        if k == "true":
            return
        if k == "false":
            raise Infeasible()
        if k == "le":
            self.assume_le(c.args[0])
        elif k == "eq":
            self.assume_eq(c.args[0])
        elif k == "ne":
            self.assume_ne(c.args[0])
        elif k == "and":
            for x in c.args:
                self.assume(x)
        elif k == "or":
            live = [x for x in c.args if not self.disproves(x)]
            if not live:
                raise Infeasible()
            if len(live) == 1:
                self.assume(live[0])
            elif not any(self.proves(x) for x in live):
                d = c_or(*live)
                if d not in self.dis:
                    self.dis = self.dis + (d,)
                    self.touch()
        else:
            if c not in self.dis:
                if c_not(c) in self.dis:
                    raise Infeasible()
                self.dis = self.dis + (c,)
                self.touch()

    def assume_le(self, p):
        p = self.norm(p)
        if not p.t:
            if p.c > 0:
                raise Infeasible()
            return
        p = gcd_norm(p, "le")
        lo, hi = self.rng(p)
        if hi <= 0:
            return
        if lo > 0:
            raise Infeasible()
        if len(p.t) == 1:
            m, k = p.t[0]
            if k > 0:
                self.set_bound(m, -(1 << 300), (-p.c) // k)
            else:
                self.set_bound(m, -(p.c // k) if p.c % k == 0 else -((p.c) // k), 1 << 300)
            return
        if p in self.le:
            return
        for q in self.le:
            if q.t == p.t:
                if q.c >= p.c:
                    return
                del self.le[q]
                break
        np = -p
        for q in self.le:
            if q.t == np.t and q.c + p.c > 0:
                raise Infeasible()
        # equality?
        if np in self.le:
            del self.le[np]
            self.touch()
            self.assume_eq(p)
            return
        self.le[p] = True
        self.touch()
        # bound propagation
        for m, k in p.t:
            l, h = self.mrng(m)
            if k > 0:
                # k*m <= -(rest lower bound)
                rest = lo - k * l
                b = (-rest) // k
                if b < h:
                    self.set_bound(m, -(1 << 300), b)
                    lo, hi = self.rng(p)
            else:
                rest = lo - k * h
                # k*m + rest <= 0 -> m >= rest / -k
                b = -((-rest) // (-k))
                if b > l:
                    self.set_bound(m, b, 1 << 300)
                    lo, hi = self.rng(p)
            if m[0] in self.sub:
                # became a point; normalise again
                q = self.norm(p)
                if q != p:
                    self.le.pop(p, None)
                    self.touch()
                    self.assume_le(q)
                    return
        # a <= 0 with a != 0 known
        for s in (p, -p):
            if s in self.ne:
                self.le.pop(p, None)
                self.touch()
                self.assume_le(p + 1)
                return

    def assume_ge(self, p):
        self.assume_le(-p)

    def assume_eq(self, p):
        p = self.norm(p)
        if not p.t:
            if p.c != 0:
                raise Infeasible()
            return
        p = gcd_norm(p, "eq")
        if p is None:
            raise Infeasible()
        lo, hi = self.rng(p)
        if lo > 0 or hi < 0:
            raise Infeasible()
        # solve for an atom with unit coefficient
        best = None
        for m, k in p.t:
            if len(m) != 1 or k not in (1, -1):
                continue
            a = ALIST[m[0]]
            rest = p - atom_poly(a).scale(k)
            if a.id in rest.deps():
                continue
            # prefer fresh plain symbols, then others
            rank = (0 if a.kind == "sym" else 1, -a.id)
            if best is None or rank < best[0]:
                best = (rank, a, rest.scale(-k))
        if best is not None:
            self.add_sub(best[1], best[2])
            return
        if len(p.t) == 1:
            m, k = p.t[0]
            if p.c % k:
                raise Infeasible()
            v = -p.c // k
            if len(m) == 1:
                self.set_bound(m, v, v)
                return
            if v == 0:
                # product is zero
                live = [x for x in m if self.mrng((x,))[0] <= 0 <= self.mrng((x,))[1]]
                if not live:
                    raise Infeasible()
                if len(live) == 1:
                    self.assume_eq(atom_poly(ALIST[live[0]]))
                    return
        self.touch()
        self.le[p] = True
        self.le[-p] = True

    def assume_ne(self, p):
        p = self.norm(p)
        if not p.t:
            if p.c == 0:
                raise Infeasible()
            return
        q = gcd_norm(p, "eq")
        if q is None:
            return
        p = q
        lo, hi = self.rng(p)
        if lo > 0 or hi < 0:
            return
        if len(p.t) == 1:
            m, k = p.t[0]
            if p.c % k:
                return
            v = -p.c // k
            l, h = self.mrng(m)
            if v == l:
                self.set_bound(m, l + 1, h)
                return
            if v == h:
                self.set_bound(m, l, h - 1)
                return
        if p in self.ne or -p in self.ne:
            return
        if self.prove_le(p):
            self.assume_le(p + 1)
            return
        if self.prove_le(-p):
            self.assume_le(1 - p)
            return
        self.ne[p] = True
        self.touch()

    # -- queries

    def proves(self, c, depth=0):
        c = self.normc(c)
        k = c.kind
        if k == "true":
            return True
        if k == "false":
            return False
        ck = ("P", c)
        r = self.cache.get(ck)
        if r is None:
            r = self._proves(c, depth)
            self.cache[ck] = r
        return r

    def _proves(self, c, depth):
        k = c.kind
        depth = max(depth, self.lvl)
        if k == "le":
            if self.prove_le(c.args[0]):
                return True
        elif k == "eq":
            p = c.args[0]
            lo, hi = self.rng(p)
            if lo > 0 or hi < 0:
                return False
            if self.prove_le(p) and self.prove_le(-p):
                return True
            if self.prove_zero_product(p):
                return True
        elif k == "ne":
            p = c.args[0]
            lo, hi = self.rng(p)
            if lo > 0 or hi < 0:
                return True
            if p in self.ne or -p in self.ne:
                return True
            if self.prove_le(p + 1) or self.prove_le(1 - p):
                return True
        elif k == "and":
            return all(self.proves(x, depth) for x in c.args)
        elif k == "or":
            if any(self.proves(x, depth) for x in c.args):
                return True
            if c in self.dis:
                return True
            for d in self.dis:
                if d.kind == "or" and all(x in c.args for x in d.args):
                    return True
            # assume the negation of all but one
            if depth < 2:
                for i, x in enumerate(c.args):
                    f = self.copy()
                    f.lvl = depth + 1
                    try:
                        for j, y in enumerate(c.args):
                            if j != i:
                                f.assume(c_not(y))
                        if f.proves(x, depth + 1):
                            return True
                    except Infeasible:
                        return True
                    if depth or len(c.args) > 2:
                        break
        elif k in ("not",) or True:
            if c in self.dis:
                return True
        if depth < 3:
            # case analysis on atoms with two-way definitions
            for cond in self.split_conds(c):
                ok = True
                for s in (cond, c_not(cond)):
                    f = self.copy()
                    f.lvl = depth + 1
                    try:
                        f.assume(s)
                        if s is not cond:
                            for d in self.dis:
                                if d.kind == "or" and d.args[0] == cond:
                                    f.assume(c_or(*d.args[1:]))
                    except Infeasible:
                        continue
                    if not f.proves(c, depth + 1):
                        ok = False
                        break
                if ok:
                    return True
                if depth >= 1:
                    break
        return False

    def split_conds(self, c):
        """Conditions worth a case distinction for proving c"""
        out = []
        for i in sorted(c.deps()):
            a = ALIST[i]
            if i in self.sub:
                continue
            if a.kind == "ite":
                if a.args[0] not in out:
                    out.append(a.args[0])
            elif a.kind == "b2i":
                if a.args[0] not in out:
                    out.append(a.args[0])
            elif a.kind in ("min", "max"):
                x = c_le(a.args[0], a.args[1])
                if x not in out:
                    out.append(x)
        deps = c.deps()
        if not FOCUS.isdisjoint(deps):
            # is it the element at the focus?
            sels = [ALIST[i] for i in sorted(deps) if ALIST[i].kind == "sel"]
            for a in sels:
                for b in sels:
                    if a.id in FOCUS and b.id not in FOCUS and a.args[0] is b.args[0]:
                        p = a.args[1] - b.args[1]
                        if not (p in self.ne or -p in self.ne or self.prove_le(p + 1) or self.prove_le(1 - p)):
                            out.append(c_eq(p))
        for d in self.dis:
            if d.kind == "or" and not deps.isdisjoint(d.deps()):
                out.append(d.args[0])
        return out[:4]

    def disproves(self, c):
        return self.proves(c_not(c))

    def prove_zero_product(self, p):
        return False

    def index(self):
        if self._idx is None:
            idx = {}
            for q in self.le:
                for m, k in q.t:
                    idx.setdefault(m, []).append((q, k))
            self._idx = idx
        return self._idx

    def prove_le(self, p):
        p = self.norm(p)
        if not p.t:
            return p.c <= 0
        lo, hi = self.rng(p)
        if hi <= 0:
            return True
        if lo > 0:
            return False
        ck = ("L", p)
        r = self.cache.get(ck)
        if r is not None:
            return r
        # p <= 0 follows from p <= 1 and p != 1
        if (p - 1) in self.ne or (1 - p) in self.ne:
            self.cache[ck] = False
            if self.search(p - 1, FUEL):
                self.cache[ck] = True
                return True
        r = self.search(p, FUEL)
        self.cache[ck] = r
        return r

    def search(self, p, fuel):
        """Best-first elimination of monomials"""
        lo, hi = self.rng(p)
        if hi <= 0:
            return True
        if lo > 0:
            return False
        seen = {p}
        heap = [(len(p.t), hi, 0, p)]
        n = 0
        while heap and fuel > 0:
            fuel -= 1
            p = heappop(heap)[3]
            for r in self.steps(p):
                if r in seen:
                    continue
                l2, h2 = self.rng(r)
                if h2 <= 0:
                    return True
                seen.add(r)
                if l2 > 0 or len(r.t) > 12:
                    continue
                n += 1
                heappush(heap, (len(r.t), h2, n, r))
        return False

    def steps(self, p):
        """Upper bounds of p with one monomial replaced"""
        idx = self.index()
        for m, k in p.t:
            cands = list(idx.get(m, ()))
            if len(m) == 1:
                cands.extend(self.lemmas(m))
            else:
                # lift linear facts over one factor by the other factors
                for i, x in enumerate(m):
                    rest = m[:i] + m[i + 1 :]
                    if i and x == m[i - 1]:
                        continue
                    if self.mrng(rest)[0] < 0:
                        continue
                    rp = Poly(((rest, 1),), 0)
                    for q, kk in idx.get((x,), ()):
                        cands.append((q * rp, kk))
                    l, h = self.mrng((x,))
                    xp = atom_poly(ALIST[x])
                    if k > 0 and h < (1 << 62):
                        cands.append(((xp - h) * rp, 1))
                    if k < 0 and l > 0:
                        cands.append(((const(l) - xp) * rp, -1))
                    for q, kk in self.lemmas((x,)):
                        cands.append((q * rp, kk))
            for q, kq in cands:
                if len(m) > 1:
                    kq = None
                    for mm, kx in q.t:
                        if mm == m:
                            kq = kx
                if kq is None or (kq > 0) != (k > 0):
                    continue
                # p <= p - (k/kq) q ; keep integral by scaling
                ak, akq = abs(k), abs(kq)
                if ak % akq == 0:
                    yield p - q.scale(ak // akq)
                else:
                    yield p.scale(akq) - q.scale(ak)

    def lemmas(self, m):
        ck = ("M", m)
        r = self.cache.get(ck)
        if r is None:
            r = []
            for q in lemmas(ALIST[m[0]]):
                q = self.norm(q)
                for mm, kk in q.t:
                    if mm == m:
                        r.append((q, kk))
            self.cache[ck] = r
        return r

    def show(self):
        s = []
        for k, (l, h) in self.bnd.items():
            nm = "*".join(repr(ALIST[x]) for x in (k if isinstance(k, tuple) else (k,)))
            s.append("%d<=%s<=%d" % (l, nm, h))
        for k, p in self.sub.items():
            s.append("%r=%r" % (ALIST[k], p))
        for p in self.le:
            s.append("%r<=0" % p)
        for p in self.ne:
            s.append("%r!=0" % p)
        for d in self.dis:
            s.append(repr(d))
        return "; ".join(s)
