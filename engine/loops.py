"""Joins and loop fixpoints.

A Template is an abstract state with parameters (phi atoms and phi bases).
Incoming states are matched against it; places which do not match are
generalised, facts about the parameters are kept only if every incoming state
satisfies them (Houdini style).  A loop is stable when all states on its back
edges match the templates of its header.
"""
from math import gcd
from terms import *
from facts import Facts, Infeasible
from values import *
from seqs import seq_len, clen

BIG = 1 << 70


# --- facts ---------------------------------------------------------------------


def fact_conds(F):
    """All facts as conditions"""
    out = []
    for k, (l, h) in F.bnd.items():
        if isinstance(k, tuple):
            p = ONE
            for x in k:
                p = p * atom_poly(ALIST[x])
            sl, sh = -BIG * BIG, BIG * BIG
        else:
            a = ALIST[k]
            p = atom_poly(a)
            sl, sh = a.lo, a.hi
        if l > sl:
            out.append(c_le(const(l), p))
        if h < sh:
            out.append(c_le(p, const(h)))
    for k, p in F.sub.items():
        out.append(c_eq(atom_poly(ALIST[k]), p))
    for p in F.le:
        out.append(c_le0(p))
    for p in F.ne:
        out.append(c_ne(p))
    out.extend(F.dis)
    return out


def extra_conds(F, r):
    """Facts of F which are not in r, as conditions"""
    x = Facts()
    x.bnd = {k: v for k, v in F.bnd.items() if r.bnd.get(k) != v}
    x.sub = {k: p for k, p in F.sub.items() if k not in r.sub}
    x.le = {p: True for p in F.le if p not in r.le}
    x.ne = {p: True for p in F.ne if p not in r.ne}
    x.dis = tuple(d for d in F.dis if d not in r.dis)
    return fact_conds(x)


def merge_facts(fs):
    """Facts implied by each of fs"""
    if len(fs) == 1:
        return fs[0]
    base = fs[0]
    same = all(f is base for f in fs[1:])
    if same:
        return base
    # facts present in all states
    r = Facts()
    rest = fs[1:]
    r.sub = {k: p for k, p in base.sub.items() if all(f.sub.get(k) == p for f in rest)}
    r.le = {p: True for p in base.le if all(p in f.le for f in rest)}
    r.ne = {p: True for p in base.ne if all(p in f.ne for f in rest)}
    r.dis = tuple(d for d in base.dis if all(d in f.dis for f in rest))
    for k, v in base.bnd.items():
        l, h = v
        for f in rest:
            w = f.bnd.get(k)
            if w is None:
                break
            l, h = min(l, w[0]), max(h, w[1])
        else:
            r.bnd[k] = (l, h)
    # facts known in all states
    seen = set()
    keep = []
    for f in fs:
        for c in extra_conds(f, r):
            if c not in seen:
                seen.add(c)
                if all(g is f or g.proves(c) for g in fs):
                    keep.append(c)
    # interval hulls
    ids = set()
    for f in fs:
        ids.update(k for k in f.bnd if not isinstance(k, tuple) and k not in r.bnd)
        ids.update(k for k in f.sub if k not in r.sub)
    for i in ids:
        p = atom_poly(ALIST[i])
        lo = hi = None
        for f in fs:
            l, h = f.rng(f.norm(p))
            lo = l if lo is None else min(lo, l)
            hi = h if hi is None else max(hi, h)
        a = ALIST[i]
        if lo > a.lo:
            keep.append(c_le(const(lo), p))
        if hi < a.hi:
            keep.append(c_le(p, const(hi)))
    keep.sort(key=lambda c: 0 if c.kind == "eq" else 1)
    for c in keep:
        r.assume(c)
    if len(fs) <= 4:
        alts = []
        for f in fs:
            d = [c for c in extra_conds(f, r) if c.kind != "or" and not r.proves(c)]
            if not d or len(d) > 5:
                return r
            alts.append(c_and(*d))
        r.assume(c_or(*alts))
    return r


def merge(I, ss):
    """Join states with equal memory"""
    if len(ss) < 2:
        return ss
    g = {}
    for s in ss:
        k = frozenset(s.mem.items())
        g.setdefault(k, []).append(s)
    if len(g) == len(ss):
        return ss
    out = []
    for l in g.values():
        if len(l) == 1:
            out.append(l[0])
        else:
            s = l[0]
            s.facts = merge_facts([x.facts for x in l])
            s.shared = True
            out.append(s)
    return out


# --- shapes --------------------------------------------------------------------

_shape = {}


def shape(v):
    if isinstance(v, Poly):
        return "i"
    if isinstance(v, Cond):
        return v.kind if v.kind in ("true", "false") else "c"
    try:
        r = _shape.get(v)
    except TypeError:
        return "?"
    if r is None:
        r = _shape_of(v)
        _shape[v] = r
    return r


def _shape_of(v):
    if isinstance(v, Agg):
        return ("A", v.ty, v.var) + tuple(shape(x) for x in v.f)
    if isinstance(v, Nat):
        return ("N", v.kind) + tuple(shape(x) for x in v.f)
    if isinstance(v, Lazy):
        return ("L", v.ty)
    if isinstance(v, Seq):
        return ("Q", v.ety)
    if isinstance(v, VecV):
        return ("V", v.seq.ety)
    if isinstance(v, BoxV):
        return ("B", shape(v.v))
    if isinstance(v, Ptr):
        return ("P", v.root, tuple(("i",) if p[0] == "i" else p for p in v.path), v.meta is None)
    if isinstance(v, Opq):
        return ("O", v.ty)
    if isinstance(v, Fn):
        return ("F", v.key())
    return v.__class__.__name__


def expand_lazies(I, v, F):
    """Structs are compared field by field"""
    if isinstance(v, Lazy) and not I.prog.is_enum(v.ty):
        v = I.q.expand(v, F)
    if isinstance(v, Agg):
        f = tuple(expand_lazies(I, x, F) for x in v.f)
        if any(a is not b for a, b in zip(f, v.f)):
            return Agg(v.ty, v.var, f)
    return v


def norm_state(I, s):
    """Normalise values with the equalities of the state"""
    F = s.facts
    if F.sub:
        class M:
            poly = staticmethod(F.norm)
            cond = staticmethod(F.normc)
            any = staticmethod(F.norma)
        for k, v in s.mem.items():
            if isinstance(v, (Poly, Cond, Val)):
                w = map_value(v, M)
                if w is not v:
                    s.mem[k] = w
    for k, v in s.mem.items():
        if isinstance(v, Cond) and v.kind not in ("true", "false"):
            if F.proves(v):
                s.mem[k] = TRUE
            elif F.disproves(v):
                s.mem[k] = FALSE
        elif isinstance(v, (Lazy, Agg)):
            w = expand_lazies(I, v, F)
            if w is not v:
                s.mem[k] = w


def state_key(s):
    return frozenset((k, shape(v)) for k, v in s.mem.items())


# --- templates -------------------------------------------------------------------


class Mismatch(Exception):
    pass


class Adopt(Subst):
    """Renaming of inner symbols; contents of inner bases become parameters"""

    def __init__(self, m, T):
        super().__init__(m)
        self.T = T
        self.inner = frozenset(i for i in m if ALIST[i].kind == "bsym")
        self.polys = {}

    def poly(self, p):
        if self.inner.isdisjoint(p.deps()):
            return super().poly(p)
        if len(p.t) == 1 and len(p.t[0][0]) == 1:
            # k * atom + c
            m, k = p.t[0]
            a = ALIST[m[0]]
            if a.kind == "pow2":
                return p_pow2(self.poly(a.args[0])).scale(k) + p.c
            p, k, c = atom_poly(a), k, p.c
        else:
            k, c = 1, 0
        r = self.polys.get(p)
        if r is None:
            r = self.polys[p] = self.T.new_phi()
        return r.scale(k) + c


# atoms which take part in relations between parameters
LINEAR = ("sym", "sel", "len", "tag", "ext", "pow2")


class Template:
    def __init__(self, I, st, mark):
        self.I = I
        self.mem = dict(st.mem)
        self.phis = set()  # int parameters (atom ids)
        self.bases = set()  # base parameters (atom ids)
        self.E = None
        self.cands = {}
        self.own = {}
        self.memo = {}
        self.groups = {}
        self.mark = mark
        self.gen = 0
        self.hard = set()
        self.fitted = []
        self.inner = False

    # renaming of symbols created inside of the loop

    def adopt(self, F):
        """Make values born inside of the loop parameters"""
        ids = set()
        for v in self.mem.values():
            value_atoms(v, ids)
        m = {}
        for i in ids:
            if i >= self.mark and i not in self.phis and i not in self.bases:
                a = ALIST[i]
                if a.kind == "sym":
                    m[i] = self.new_phi()
                elif a.kind == "bsym":
                    q = base_sym(fresh_name("B"), a.args[1])
                    self.bases.add(q.id)
                    m[i] = q
        if m:
            s = Adopt(m, self)
            for k, v in self.mem.items():
                self.mem[k] = map_value(v, s)

    # matching

    def pairs(self, t, v, F, out, path):
        """Collect leaf pairs; raises Mismatch on different skeletons"""
        if t is v:
            if isinstance(t, Poly):
                if t.t:
                    out.append((path, "i", t, v))
                return
            if not self.has_params(t):
                return
        c = t.__class__
        if c is not v.__class__:
            raise Mismatch()
        if c is Poly:
            out.append((path, "i", t, v))
        elif c is Cond:
            if t.kind in ("true", "false") and t is v:
                return
            out.append((path, "c", t, v))
        elif c is Agg or c is Nat:
            if len(t.f) != len(v.f):
                raise Mismatch()
            for i in range(len(t.f)):
                self.pairs(t.f[i], v.f[i], F, out, path + (i,))
        elif c is VecV:
            self.pairs(t.seq, v.seq, F, out, path + ("s",))
        elif c is BoxV:
            self.pairs(t.v, v.v, F, out, path + ("b",))
        elif c is Ptr:
            j = 0
            for p, q in zip(t.path, v.path):
                if p[0] == "i":
                    out.append((path + ("p", j), "i", p[1], q[1]))
                j += 1
            if t.meta is not None:
                out.append((path + ("m", 0), "i", t.meta[0], v.meta[0]))
                out.append((path + ("m", 1), "i", t.meta[1], v.meta[1]))
        elif c is Seq:
            out.append((path, "q", t, v))
        elif c is Lazy:
            out.append((path, "z", t, v))
        elif c is Opq:
            if t != v:
                out.append((path, "o", t, v))
        elif t != v:
            raise Mismatch()

    def has_params(self, v):
        ids = set()
        value_atoms(v, ids)
        return not (self.phis.isdisjoint(ids) and self.bases.isdisjoint(ids))

    def match(self, st):
        """(sigma, list of mismatching leaves)"""
        F = st.facts
        out = []
        for k, t in self.mem.items():
            self.pairs(t, st.mem[k], F, out, (k,))
        sig = {}
        bad = []
        ints = []
        later = []
        for x in out:
            path, kind, t, v = x
            if kind == "i":
                ints.append(x)
            elif kind == "c":
                ints.append((path, "c", b2i(t), b2i(v)))
            elif kind == "q":
                r = self.align_simple(t, v, F)
                if r is None:
                    later.append(x)
                else:
                    for i, (p, q) in enumerate(r):
                        for j, (a, b) in enumerate(zip(p, q)):
                            ints.append((path + ("q", i, j), "i", a, b))
            else:
                later.append(x)
        # solve for parameters
        pend = ints
        prog = True
        while prog and pend:
            prog = False
            nxt = []
            S = Subst(sig) if sig else None
            for x in pend:
                t = x[2]
                d = t.deps()
                un = [i for i in d if i in self.phis and i not in sig]
                if not un:
                    nxt.append(x)
                    continue
                if len(un) == 1:
                    i = un[0]
                    co = dict(t.t).get((i,))
                    if co is not None:
                        rest = t - atom_poly(ALIST[i]).scale(co)
                        if i not in rest.deps():
                            if S is not None:
                                rest = Subst(sig).poly(rest)
                            val = F.norm(x[3] - rest)
                            val = div_exact(val, co)
                            if val is not None:
                                sig[i] = val
                                prog = True
                                continue
                    a = self.pow2_arg(t, i, x[3])
                    if a is not None:
                        sig[i] = F.norm(a)
                        prog = True
                        continue
                nxt.append(x)
            pend = nxt
        S = Subst(sig)
        for x in pend:
            path, kind, t, v = x
            if any(i in self.phis and i not in sig for i in t.deps()):
                bad.append(x)
                continue
            t2 = S.poly(t)
            if t2 == v or F.proves(c_eq(t2, v)):
                continue
            bad.append(x)
        # sequences and lazies with base parameters
        for x in later:
            path, kind, t, v = x
            if kind == "q":
                if not self.match_seq(t, v, sig, F):
                    bad.append(x)
            elif kind == "z":
                if not self.match_lazy(t, v, sig, F):
                    bad.append(x)
            else:
                bad.append(x)
        return sig, bad

    def pow2_arg(self, t, i, v):
        """q if t is k*pow2(phi)+c and v is k*pow2(q)+c"""
        if len(t.t) != 1 or len(v.t) != 1 or t.c != v.c or t.t[0][1] != v.t[0][1]:
            return None
        m, n = t.t[0][0], v.t[0][0]
        if len(m) != 1 or len(n) != 1:
            return None
        a, b = ALIST[m[0]], ALIST[n[0]]
        if a.kind != "pow2" or b.kind != "pow2":
            return None
        p = a.args[0]
        co = dict(p.t).get((i,))
        if co not in (1, -1):
            return None
        rest = p - atom_poly(ALIST[i]).scale(co)
        if any(j in self.phis for j in rest.deps()):
            return None
        return (b.args[0] - rest).scale(co)

    def sig_ok(self, sig, i, val, F):
        old = sig.get(i)
        if old is None:
            sig[i] = val
            return True
        return old == val or F.proves(c_eq(old, val))

    def align_simple(self, t, v, F):
        """Pairs of (ints, ints) when the chunk lists have the same structure"""
        if len(t.ch) != len(v.ch):
            return None
        out = []
        for c, d in zip(t.ch, v.ch):
            if c[0] != d[0]:
                return None
            if c[0] == "S":
                if c[1].id in self.bases:
                    return None
                if c[1] is d[1]:
                    out.append(((c[2], c[3]), (d[2], d[3])))
                else:
                    p, q = [], []
                    if not base_pairs(c[1], d[1], p, q):
                        return None
                    if any(i in self.bases for i in c[1].deps):
                        return None
                    out.append(((c[2], c[3]) + tuple(p), (d[2], d[3]) + tuple(q)))
            else:
                o = []
                try:
                    self.pairs(c[1], d[1], F, o, ())
                except Mismatch:
                    return None
                p, q = [], []
                for _, k, a, b in o:
                    if k == "i":
                        p.append(a)
                        q.append(b)
                    elif k == "c":
                        p.append(b2i(a))
                        q.append(b2i(b))
                    elif k == "q":
                        r = self.align_simple(a, b, F)
                        if r is None:
                            return None
                        for x, y in r:
                            p.extend(x)
                            q.extend(y)
                    else:
                        return None
                if c[0] == "F":
                    p.append(c[2])
                    q.append(d[2])
                out.append((tuple(p), tuple(q)))
        return out

    def match_seq(self, t, v, sig, F):
        """Template with a base parameter chunk as last element"""
        I = self.I
        ch = list(v.ch)
        n = len(t.ch)
        for j, c in enumerate(t.ch):
            if c[0] == "S" and c[1].id in self.bases:
                if j != n - 1 or c[2] != ZERO:
                    return False
                rest = Seq(v.ety, ch)
                L = F.norm(seq_len(rest))
                lt = c[3]
                un = [i for i in lt.deps() if i in self.phis and i not in sig]
                if un:
                    if len(un) != 1 or lt != atom_poly(ALIST[un[0]]):
                        return False
                    sig[un[0]] = L
                else:
                    lt = Subst(sig).poly(lt)
                    if lt != L and not F.proves(c_eq(lt, L)):
                        return False
                old = sig.get(c[1].id)
                if old is None:
                    if c[1].args[1] and not I.q.conforms(rest, c[1].args[1], F):
                        return False
                    sig[c[1].id] = rest
                    return True
                if not isinstance(old, Seq):
                    return False
                return seq_same(I, old, rest, F)
            # exact prefix
            S = Subst({k: p for k, p in sig.items() if isinstance(p, Poly)})
            c = map_chunk(c, S)
            if c[0] != "E" and F.norm(clen(c)) == ZERO:
                continue
            if not ch:
                return False
            d = ch[0]
            try:
                if c == d:
                    ch.pop(0)
                    continue
                l, r = I.q.split(Seq(v.ety, ch), clen(c), F)
                if not seq_same(I, Seq(v.ety, [c]), Seq(v.ety, l), F):
                    return False
                ch = r
            except (NeedSplit, Undecided):
                return False
        return not ch

    def match_lazy(self, t, v, sig, F):
        if t.ty != v.ty:
            return False
        if t.base.id in self.bases:
            old = sig.get(t.base.id)
            if old is None:
                if t.base.args[1]:
                    return False
                sig[t.base.id] = v
                return True
            return old == v
        if t.base is not v.base:
            p, q = [], []
            if not base_pairs(t.base, v.base, p, q):
                return False
        else:
            p, q = [], []
        p.append(t.idx)
        q.append(v.idx)
        S = Subst({k: x for k, x in sig.items() if isinstance(x, Poly)})
        for a, b in zip(p, q):
            a = S.poly(a)
            if a != b and not F.proves(c_eq(a, b)):
                return False
        return True

    # generalisation

    def generalise(self, st, sig, bad):
        self.gen += 1
        F = st.facts
        pol = {k: x for k, x in sig.items() if isinstance(x, Poly)}
        S = Subst(pol)
        todo = {}
        for x in bad:
            path = x[0]
            # a leaf inside of a sequence generalises the sequence
            for j, e in enumerate(path):
                if e == "q" and j and j + 2 < len(path) + 0:
                    path = path[:j]
                    break
            todo.setdefault(path[0], {}).setdefault(path, []).append(x)
        for k, leaves in todo.items():
            self.mem[k] = self.rebuild(self.mem[k], st.mem[k], (k,), leaves, F, S, pol)

    def rebuild(self, t, v, path, bad, F, S, sig):
        c = t.__class__
        if c is Poly:
            return self.gen_int(t, v, path, F, S) if path in bad else t
        if c is Cond:
            if path not in bad:
                return t
            p = self.gen_int(b2i(t), b2i(v), path, F, S, (0, 1))
            return i2b(p)
        if c is Agg:
            return Agg(t.ty, t.var, [self.rebuild(a, b, path + (i,), bad, F, S, sig) for i, (a, b) in enumerate(zip(t.f, v.f))])
        if c is Nat:
            return Nat(t.kind, [self.rebuild(a, b, path + (i,), bad, F, S, sig) for i, (a, b) in enumerate(zip(t.f, v.f))])
        if c is VecV:
            return VecV(self.rebuild(t.seq, v.seq, path + ("s",), bad, F, S, sig))
        if c is BoxV:
            return BoxV(self.rebuild(t.v, v.v, path + ("b",), bad, F, S, sig))
        if c is Ptr:
            np = []
            for j, (p, q) in enumerate(zip(t.path, v.path)):
                if p[0] == "i" and path + ("p", j) in bad:
                    p = ("i", self.gen_int(p[1], q[1], path + ("p", j), F, S))
                np.append(p)
            m = t.meta
            if m is not None:
                m = tuple(
                    self.gen_int(m[j], v.meta[j], path + ("m", j), F, S) if path + ("m", j) in bad else m[j]
                    for j in (0, 1)
                )
            return Ptr(t.root, tuple(np), m)
        if c is Seq:
            return self.gen_seq(t, v, path, F, S) if path in bad else t
        if c is Lazy:
            return self.gen_lazy(t, v, path, F, S) if path in bad else t
        if c is Opq:
            if path in bad:
                return Opq(t.ty, ("any", fresh_name("o")))
            return t
        return t

    def gen_int(self, t, v, path, F, S, rng=None):
        cnt = self.own.get(path, 0)
        self.own[path] = cnt + 1
        v = F.norm(v)
        mk_ = ("i", t, v, cnt > 1)
        r = self.memo.get(mk_)
        if r is not None:
            return r
        if self.I.hasty and cnt == 0 and (self.fitted or v.atom() is not None):
            # a name which was replaced in the states
            for r in [v] + [atom_poly(ALIST[i]) for i, p in F.sub.items() if p == v]:
                if self.same(t, r):
                    self.memo[mk_] = r
                    return r
        if cnt == 0 and rng is None:
            r = self.antiunify(t, v, F, S)
        else:
            r = self.new_phi(rng)
        self.memo[mk_] = r
        return r

    def same(self, t, v):
        if not self.phis.isdisjoint(t.deps()) or not self.phis.isdisjoint(v.deps()):
            return False
        if any(i >= self.mark for i in v.deps()):
            return False
        return all(s.facts.norm(t) == s.facts.norm(v) for s in self.fitted)

    def new_phi(self, rng=None):
        lo, hi = rng if rng is not None else (-BIG, BIG)
        q = fresh("p", lo, hi)
        self.phis.add(q.atom().id)
        return q

    def antiunify(self, t, v, F, S):
        t2 = S.poly(t) if not any(i in self.phis and i not in S.m for i in t.deps()) else None
        if t2 is not None and (t2 == v):
            return t
        # structural
        if t2 is not None:
            a, b = t.atom(), v.atom()
            if a is not None and b is not None and a.kind == b.kind and a.kind in ("sel", "len", "tag", "pow2", "ext"):
                r = self.anti_atom(a, b, F, S)
                if r is not None:
                    return r
            d = F.norm(v - t2)
            g, m = primitive(d)
            if d == ZERO:
                return t
            if not d.t:
                g, m = ("c",), d.c
                if self.I.plain:
                    g = ("c", abs(d.c))
                    m = d.c // abs(d.c)
            elif self.I.plain or not all(ALIST[i].kind in LINEAR for mm, _ in d.t for i in mm):
                r = self.memo.get(("a", t, v))
                if r is None:
                    r = self.memo[("a", t, v)] = self.new_phi()
                return r
            ph = self.groups.get(g)
            if ph is None:
                ph = self.new_phi()
                self.groups[g] = ph
            r = t + ph.scale(m)
            if ph.atom().id in S.m and S.poly(r) != v:
                return self.new_phi()
            return r
        return self.new_phi()

    def anti_atom(self, a, b, F, S):
        if a.kind in ("sel", "tag"):
            ba = self.anti_base(a.args[0], b.args[0], F, S)
            if ba is None:
                return None
            ix = self.antiunify(a.args[1], b.args[1], F, S)
            if a.kind == "sel":
                return sel(ba, ix, min(a.nat[0], b.nat[0]), max(a.nat[1], b.nat[1]))
            return atom_poly(mk(a.kind, (ba, ix), min(a.lo, b.lo), max(a.hi, b.hi)))
        if a.kind == "len":
            ba = self.anti_base(a.args[0], b.args[0], F, S)
            return None if ba is None else len_of(ba)
        if a.kind == "pow2":
            return p_pow2(self.antiunify(a.args[0], b.args[0], F, S))
        return None

    def anti_base(self, a, b, F, S):
        if a is b:
            return a
        if a.kind != b.kind:
            return None
        if a.kind == "bel":
            x = self.anti_base(a.args[0], b.args[0], F, S)
            if x is None:
                return None
            return base_el(x, self.antiunify(a.args[1], b.args[1], F, S))
        if a.kind == "bfld" and a.args[1] == b.args[1]:
            x = self.anti_base(a.args[0], b.args[0], F, S)
            return None if x is None else base_fld(x, a.args[1])
        return None

    def gen_lazy(self, t, v, path, F, S):
        mk_ = ("z", t, v)
        r = self.memo.get(mk_)
        if r is None:
            b = self.anti_base(t.base, v.base, F, S) if self.own.get(path, 0) == 0 else None
            self.own[path] = self.own.get(path, 0) + 1
            if b is not None:
                r = Lazy(t.ty, b, self.antiunify(t.idx, v.idx, F, S))
            else:
                q = base_sym(fresh_name("B"))
                self.bases.add(q.id)
                r = Lazy(t.ty, q, ZERO)
            self.memo[mk_] = r
        return r

    def gen_seq(self, t, v, path, F, S):
        cnt = self.own.get(path, 0)
        self.own[path] = cnt + 1
        n = 0
        if cnt < 6:
            for c, d in zip(t.ch, v.ch):
                if c[0] != "E" or c != d or self.chunk_params(c):
                    break
                n += 1
        pre = list(t.ch[:n])
        t, v = Seq(t.ety, t.ch[n:]), Seq(v.ety, v.ch[n:])
        mk_ = ("q", t, v, cnt >= 12)
        r = self.memo.get(mk_)
        if r is None:
            if cnt < 4 and not any(c[0] == "S" and c[1].id in self.bases for c in t.ch):
                r = self.gen_chunks(t, v, path, F, S)
            if r is None:
                r = self.collapse(t, v, F, S, cnt)
            self.memo[mk_] = r
        return Seq(t.ety, pre + list(r.ch))

    def collapse(self, t, v, F, S, cnt):
        """Fresh contents after a common prefix"""
        pre = []
        for c, d in zip(t.ch, v.ch):
            if c == d and not self.chunk_params(c):
                pre.append(c)
            else:
                break
        if len(pre) == len(t.ch) == len(v.ch):
            pre = []
        if any(c[0] == "S" and c[1].id in self.bases for c in t.ch):
            # the prefix did not match
            k = [c for c in t.ch[:-1]]
            if tuple(pre) == tuple(k):
                pre = pre[:0]
        info = [c[1].args[1] for c in t.ch if c[0] == "S" and c[1].id in self.bases]
        rest = Seq(v.ety, v.ch[len(pre):])
        q = base_sym(fresh_name("X"), self.I.q.info(rest, F, info, cnt))
        self.bases.add(q.id)
        n = self.len_template(t, v, pre, F, S) if cnt < 3 else self.new_phi()
        return Seq(t.ety, pre + [("S", q, ZERO, n)])

    def chunk_params(self, c):
        s = set()
        value_atoms(Seq(0, [c]), s)
        return not (self.phis.isdisjoint(s) and self.bases.isdisjoint(s))

    def len_template(self, t, v, pre, F, S):
        n = seq_len(Seq(t.ety, pre))
        lt = seq_len(t) - n
        lv = F.norm(seq_len(v) - n)
        if not any(i in self.phis and i not in S.m for i in lt.deps()):
            l2 = F.norm(S.poly(lt))
            if l2 == lv:
                return lt
        return self.antiunify(lt, lv, F, S)

    def gen_chunks(self, t, v, path, F, S):
        """Align chunk lists by inserting empty chunks"""
        T, V = list(t.ch), list(v.ch)
        A = self.align(t.ety, T, V)
        if A is None:
            return None
        out = []
        for c, d in A:
            if c is None:
                c = empty_like(d, self)
                if c is None:
                    return None
                # position of an inserted chunk
                if c[0] == "S":
                    c = ("S", c[1], d[2], ZERO)
                    if self.foreign(d[2]) or self.foreign_base(d[1]):
                        return None
                else:
                    c = ("F", d[1], ZERO)
                    s = set()
                    value_atoms(d[1], s)
                    if any(i >= self.mark for i in s if ALIST[i].kind in ("sym", "bsym")):
                        return None
            if d is None:
                if c[0] == "S":
                    d = ("S", c[1], S.poly(c[2]) if not self.unsolved(c[2], S) else c[2], ZERO)
                else:
                    d = ("F", c[1], ZERO)
            if c[0] != d[0]:
                return None
            if c[0] == "S":
                b = self.anti_base(c[1], d[1], F, S)
                if b is None:
                    return None
                out.append(("S", b, self.anti2(c[2], d[2], F, S), self.anti2(c[3], d[3], F, S)))
            else:
                w = self.anti_value(c[1], d[1], path, F, S)
                if w is None:
                    return None
                if c[0] == "E":
                    out.append(("E", w))
                else:
                    out.append(("F", w, self.anti2(c[2], d[2], F, S)))
        r = Seq(t.ety, out)
        if r == t:
            return None
        return r

    def unsolved(self, p, S):
        return any(i in self.phis and i not in S.m for i in p.deps())

    def foreign(self, p):
        return any(i >= self.mark and ALIST[i].kind in ("sym", "bsym") for i in p.deps())

    def foreign_base(self, b):
        return any(i >= self.mark and ALIST[i].kind in ("sym", "bsym") for i in b.deps)

    def anti2(self, a, b, F, S):
        b = F.norm(b)
        if a == b and not self.param_poly(a):
            return a
        k = ("i", a, b, False)
        r = self.memo.get(k)
        if r is None:
            r = self.antiunify(a, b, F, S)
            self.memo[k] = r
        return r

    def param_poly(self, p):
        return not self.phis.isdisjoint(p.deps())

    def anti_value(self, a, b, path, F, S):
        if a.__class__ is not b.__class__:
            return None
        if a == b and not self.chunk_params(("E", a)):
            return a
        if isinstance(a, Poly):
            return self.anti2(a, b, F, S)
        if isinstance(a, Cond):
            p = self.memo.get(("c", a, b))
            if p is None:
                p = self.new_phi((0, 1))
                self.memo[("c", a, b)] = p
            return i2b(p)
        if isinstance(a, Agg):
            if a.ty != b.ty or a.var != b.var:
                return None
            f = [self.anti_value(x, y, path, F, S) for x, y in zip(a.f, b.f)]
            if any(x is None for x in f):
                return None
            return Agg(a.ty, a.var, f)
        if isinstance(a, Seq) and len(a.ch) == len(b.ch) and all(c[0] == "E" for c in a.ch + b.ch):
            f = [self.anti_value(x[1], y[1], path, F, S) for x, y in zip(a.ch, b.ch)]
            if any(x is None for x in f):
                return None
            return Seq(a.ety, [("E", x) for x in f])
        return None

    def sig_of(self, ety, c):
        if c[0] == "S":
            return ("S", base_skel(c[1]))
        return (c[0], shape(c[1]))

    def align(self, ety, T, V):
        st, sv = [self.sig_of(ety, c) for c in T], [self.sig_of(ety, c) for c in V]
        if st == sv:
            return list(zip(T, V))
        T = [self.soft(ety, c) for c in T]
        V = [self.soft(ety, c) for c in V]
        st, sv = [self.sig_of(ety, c) for c in T], [self.sig_of(ety, c) for c in V]
        # merge sequences; common subsequence by dynamic programming
        n, m = len(T), len(V)
        L = [[0] * (m + 1) for _ in range(n + 1)]
        for i in range(n - 1, -1, -1):
            for j in range(m - 1, -1, -1):
                L[i][j] = 1 + L[i + 1][j + 1] if st[i] == sv[j] else max(L[i + 1][j], L[i][j + 1])
        i = j = 0
        out = []
        sigs = []
        while i < n or j < m:
            if i < n and j < m and st[i] == sv[j] and L[i][j] == 1 + L[i + 1][j + 1]:
                out.append((T[i], V[j]))
                sigs.append(st[i])
                i += 1
                j += 1
            elif j < m and (i >= n or L[i][j + 1] >= L[i + 1][j]):
                out.append((None, V[j]))
                sigs.append(sv[j])
                j += 1
            else:
                out.append((T[i], None))
                sigs.append(st[i])
                i += 1
        if len(out) > max(n, m) + 2:
            return None
        # growing lists do not converge
        for s in set(sigs):
            if sigs.count(s) > max(st.count(s), 1):
                return None
        return out

    def soft(self, ety, c):
        """Single elements as chunks which may be empty"""
        if c[0] != "E":
            return c
        v = c[1]
        if isinstance(v, Poly):
            a = v.atom()
            if a is not None and a.kind == "sel":
                return ("S", a.args[0], a.args[1], ONE)
        elif isinstance(v, Lazy):
            return ("S", v.base, v.idx, ONE)
        elif isinstance(v, VecV) and len(v.seq.ch) == 1 and v.seq.ch[0][0] == "S":
            b = v.seq.ch[0][1]
            if b.kind == "bel" and v.seq.ch[0][2] == ZERO and v.seq.ch[0][3] == len_of(b):
                return ("S", b.args[0], b.args[1], ONE)
        return ("F", v, ONE)

    # facts

    def gather(self, st, sig):
        """Candidate facts about parameters implied by an incoming state"""
        F = st.facts
        piv = {}
        tmp = {}
        eqs = []
        rngs = []
        for i in sorted(self.phis):
            v = sig.get(i)
            if not isinstance(v, Poly):
                continue
            if len(v.t) > 1:
                l, h = F.rng(v)
                if l > -BIG:
                    rngs.append(c_le(const(l), atom_poly(ALIST[i])))
                if h < BIG and not self.I.hasty:
                    rngs.append(c_le(atom_poly(ALIST[i]), const(h)))
            v = Subst(piv).poly(v) if piv else v
            best = None
            for m, k in v.t:
                if len(m) != 1 or k not in (1, -1):
                    continue
                a = ALIST[m[0]]
                if a.id in tmp.values() or a.id in piv:
                    continue
                if a.id < self.mark:
                    continue
                rest = v - atom_poly(a).scale(k)
                if a.id in rest.deps():
                    continue
                rank = (0 if a.kind == "sym" else 1, 0 if a.id not in self.phis else 1, -a.id)
                if best is None or rank < best[0]:
                    best = (rank, a, rest, k)
            if best is None:
                # depends on other parameters
                eqs.append((i, v))
                continue
            t = tmp.get(i)
            tp = sym("~%d" % i, ALIST[i].lo, ALIST[i].hi)
            tmp[i] = tp.atom().id
            _, a, rest, k = best
            val = (tp - rest).scale(k)
            s1 = Subst({a.id: val})
            for kk in list(piv):
                piv[kk] = s1.poly(piv[kk])
            piv[a.id] = val
        if not piv and not self.inner:
            return rngs
        S = Subst(piv)
        back = Subst({t: atom_poly(ALIST[i]) for i, t in tmp.items()})
        tids = set(tmp.values())
        out = rngs
        for i, v in eqs:
            d = v.deps()
            if d.isdisjoint(tids) or len(v.t) > 3:
                continue
            if not any(j not in tids and j >= self.mark and ALIST[j].kind in ("sym", "bsym") for j in d):
                out.append(c_eq(atom_poly(ALIST[i]), back.poly(v)))
        conds = fact_conds(F)
        for k in list(piv):
            a = ALIST[k]
            l, h = F.arng(a)
            conds.append(c_le(const(l), atom_poly(a)))
            conds.append(c_le(atom_poly(a), const(h)))
        for c in conds:
            if c.kind not in ("le", "eq", "ne", "or", "and"):
                continue
            d = c.deps()
            if d.isdisjoint(piv):
                if self.inner and not any(i >= self.mark and ALIST[i].kind in ("sym", "bsym") for i in d):
                    # learned in the loop about its surroundings
                    if not self.E.proves(c):
                        out.append(c)
                continue
            try:
                c2 = S.cond(c)
            except Exception:
                continue
            d = c2.deps()
            if d.isdisjoint(tids):
                continue
            ok = True
            for i in d:
                a = ALIST[i]
                if i in tids or a.kind not in ("sym", "bsym"):
                    continue
                if i >= self.mark:
                    ok = False
                    break
            if not ok:
                continue
            c2 = back.cond(c2)
            if c2.kind not in ("true", "false"):
                out.append(c2)
        return out

    THR = (0, 1, 2, 255, 256, 65535, 65536, (1 << 31) - 1, (1 << 32) - 1, LEN_MAX, USIZE_MAX)

    def std_keep(self, incoming, sigs, dropped=()):
        """Bounds of leaves which hold in all incoming states"""
        out = {}
        for chain in self.std_cands():
            for c in chain:
                if c in dropped or not all(self.holds(c, s, sig) for s, sig in zip(incoming, sigs)):
                    break
                out[c] = True
        return out

    def rungs(self, forms):
        """Bounds of leaves by constants of the program"""
        leaves = []
        for v in self.mem.values():
            self.int_leaves(v, leaves)
        out = []
        ks = sorted(self.I.consts)
        for p in set(leaves):
            if p.t in forms:
                out.append([c_le(p, const(k)) for k in ks])
            if (-p).t in forms:
                out.append([c_le(ZERO, p)])
        return out

    def std_cands(self):
        """Chains of conditions, each one implied by the next"""
        out = []
        leaves = []
        for k, v in self.mem.items():
            self.int_leaves(v, leaves)
        seen = set()
        thr = self.THR if not self.I.hasty else self.THR[:5] + self.THR[-1:]
        if self.I.rungs:
            thr = sorted(self.I.consts.union(thr))
        for p in leaves:
            if not self.param_poly(p) or p in seen:
                continue
            seen.add(p)
            out.append([c_le(ZERO, p)])
            out.append([c_le(p, const(h)) for h in reversed(thr)])
        for i in self.phis:
            p = atom_poly(ALIST[i])
            if p not in seen:
                out.append([c_le(ZERO, p)])
                out.append([c_le(p, ZERO)])
        if self.I.plain:
            for v in self.mem.values():
                self.index_cands(v, out)
        f = self.mem.get((-1, "focus"))
        if f is not None and len(seen) <= 12:
            # the element at the focus was seen and is covered by a maximum
            i, x = f.f
            for p in seen:
                for m in seen:
                    if p is not m:
                        out.append([c_or(c_le(p, i), c_le(x, m))])
        f = self.mem.get((-1, "pixel"))
        if f is not None:
            # the element in focus changes when its turn comes
            k, n = f.f[0], len(f.f) // 2
            for v in self.mem.values():
                for e in self.tracked(v):
                    l = []
                    self.int_leaves(e, l)
                    if len(l) == n:
                        for p in (atom_poly(ALIST[i]) for i in self.phis):
                            if p not in seen:
                                continue
                            old = c_and(*(c_eq(m, a) for m, a in zip(l, f.f[1:])))
                            new = c_and(*(c_eq(m, b) for m, b in zip(l, f.f[n + 1 :])))
                            for c in (c_or(c_le(p, k), new), c_or(c_lt(k, p), old)):
                                self.hard.add(c)
                                out.append([c])
        return out

    def tracked(self, v):
        """Elements known among elements which are not"""
        if isinstance(v, (Agg, Nat)):
            for x in v.f:
                yield from self.tracked(x)
        elif isinstance(v, BoxV):
            yield from self.tracked(v.v)
        elif isinstance(v, VecV):
            yield from self.tracked(v.seq)
        elif isinstance(v, Seq) and any(c[0] == "F" and isinstance(c[1], Opq) and c[1].tag == JUNK for c in v.ch):
            for c in v.ch:
                if c[0] == "E":
                    yield c[1]

    def index_cands(self, v, out):
        """Integers which may be indices of a vector in the same structure"""
        if isinstance(v, BoxV):
            self.index_cands(v.v, out)
        if not isinstance(v, Agg):
            return
        for x in v.f:
            if isinstance(x, VecV):
                n = seq_len(x.seq)
                l = []
                for y in v.f:
                    if not isinstance(y, (VecV, Seq, Ptr)):
                        self.int_leaves(y, l)
                for p in l:
                    c = c_lt(p, n)
                    if c.kind == "le" and self.param_poly(c.args[0]):
                        out.append([c])
            else:
                self.index_cands(x, out)

    def int_leaves(self, v, out):
        if isinstance(v, Poly):
            out.append(v)
        elif isinstance(v, (Agg, Nat)):
            for x in v.f:
                self.int_leaves(x, out)
        elif isinstance(v, VecV):
            self.int_leaves(v.seq, out)
        elif isinstance(v, BoxV):
            self.int_leaves(v.v, out)
        elif isinstance(v, Seq):
            for c in v.ch:
                if c[0] == "S":
                    out.append(c[2])
                    out.append(c[3])
                else:
                    self.int_leaves(c[1], out)
                    if c[0] == "F":
                        out.append(c[2])
            if v.ch and any(c[0] != "E" for c in v.ch):
                out.append(seq_len(v))
        elif isinstance(v, Ptr):
            for p in v.path:
                if p[0] == "i":
                    out.append(p[1])
            if v.meta is not None:
                out.extend(v.meta)

    def holds(self, c, st, sig):
        if any(i in self.phis and i not in sig for i in c.deps()):
            return False
        pol = {k: x for k, x in sig.items() if isinstance(x, Poly)}
        if any(i in self.bases for i in c.deps()):
            return False
        d = Subst(pol).cond(c)
        if st.facts.proves(d):
            return True
        if c not in self.hard:
            return False
        # all alternatives excluded together
        F = st.facts.copy()
        try:
            for x in d.args if d.kind == "or" else (d,):
                F.assume(c_not(x))
        except Infeasible:
            return True
        return False

    def facts(self):
        F = self.E.copy()
        for c in self.cands:
            try:
                F.assume(c)
            except Infeasible:
                return None
        return F


def div_exact(p, k):
    if k == 1:
        return p
    if k == -1:
        return -p
    if p.c % k:
        return None
    for _, c in p.t:
        if c % k:
            return None
    return Poly(tuple((m, c // k) for m, c in p.t), p.c // k)


def primitive(d):
    g = 0
    for _, k in d.t:
        g = gcd(g, k)
    g = gcd(g, d.c)
    if g == 0:
        return d, 0
    if d.t and d.t[0][1] < 0:
        g = -g
    return div_exact(d, g), g


def base_skel(b):
    if b.kind == "bel":
        return ("bel", base_skel(b.args[0]))
    if b.kind == "bfld":
        return ("bfld", base_skel(b.args[0]), b.args[1])
    return b.id


def base_pairs(a, b, p, q):
    if a is b:
        return True
    if a.kind != b.kind:
        return False
    if a.kind == "bel":
        p.append(a.args[1])
        q.append(b.args[1])
        return base_pairs(a.args[0], b.args[0], p, q)
    if a.kind == "bfld":
        return a.args[1] == b.args[1] and base_pairs(a.args[0], b.args[0], p, q)
    return False


def empty_like(d, T):
    if d[0] == "S":
        return ("S", d[1], d[2], ZERO)
    if d[0] == "F":
        return ("F", d[1], ZERO)
    return None


def seq_same(I, a, b, F):
    if a == b:
        return True
    try:
        return F.proves(I.q.eq(a, b, F))
    except (NeedSplit, Undecided, Infeasible):
        return False


def fit(I, T, states):
    """Generalise the template until all states match; list of sigmas"""
    for rnd in range(60):
        sigs = []
        changed = False
        for s in states:
            sig, bad = T.match(s)
            if bad:
                T.fitted = states[: len(sigs)]
                T.generalise(s, sig, bad)
                changed = True
                break
            sigs.append(sig)
        if not changed:
            return sigs
    raise Undecided("join does not converge")


def dead_roots(I, fr, b, s):
    pass


def reduce(I, fr, b, ss):
    """Join states of equal shape"""
    g = {}
    for s in ss:
        norm_state(I, s)
        g.setdefault(state_key(s), []).append(s)
    out = []
    for l in g.values():
        if len(l) == 1:
            out.append(l[0])
        else:
            out.append(join(I, l))
    return out


def join(I, l):
    mark = len(ALIST)
    T = Template(I, l[0], mark)
    sigs = fit(I, T, l)
    T.E = merge_facts([s.facts for s in l])
    cands = {}
    for s, sig in zip(l, sigs):
        for c in T.gather(s, sig):
            cands[c] = True
    T.cands = {c: True for c in cands if all(T.holds(c, s, sig) for s, sig in zip(l, sigs))}
    T.cands.update(T.std_keep(l, sigs))
    st = l[0].__class__(T.mem, T.facts())
    return st


# --- loops ------------------------------------------------------------------------


class Head:
    def __init__(self):
        self.T = None
        self.entries = []
        self.backs = {}  # source key -> states
        self.exits = None
        self.dirty = True
        self.rounds = 0
        self.dropped = set()
        self.widened = {}  # form -> bounds to try again after widening
        self.entry_key = None


    def is_wide(self, c):
        return c.kind == "le" and c.args[0].t in self.widened

    def widen(self, c, keep, rungs):
        """A bound keeps moving: drop all bounds of the form but the weakest and
        the thresholds, once, and try them again in the next round"""
        t = c.args[0].t
        if t in self.widened:
            return
        l = sorted((x for x in keep if x.kind == "le" and x.args[0].t == t), key=lambda x: -x.args[0].c)[:-1]
        l = [x for x in l if x not in rungs]
        for x in l:
            del keep[x]
        self.widened[t] = l

    def retry(self):
        out = {}
        for t, l in self.widened.items():
            for x in l:
                out[x] = True
            self.widened[t] = ()
        return out


UNROLL = 40
# rounds before bounds are widened
WIDEN = 3
PEEL = 2
PEEL_STATES = 12
PATIENCE = 24
PEEL_COST = 400


def solve(I, fr, h, states):
    fn = fr.fn
    body = fn.loops[h]
    State = states[0].__class__
    I.stats["loops"] += 1
    snap_ev, snap_si = dict(I.events), dict(I.sites)
    saved = [s.copy() for s in states]
    # unrolling while the control flow of an iteration is decided
    r = unroll(I, fr, h, body, states)
    if r is not None:
        return r
    I.events, I.sites = dict(snap_ev), dict(snap_si)
    states = saved
    mark = len(ALIST)
    heads = {}
    I.trim(fr, h, states)
    for s in states:
        norm_state(I, s)
        k = state_key(s)
        heads.setdefault(k, Head()).entries.append(s)
    if len(heads) > 60:
        raise Undecided("too many shapes at loop")
    for k, H in heads.items():
        setup(I, H, mark)
    rnd = 0
    while True:
        rnd += 1
        I.stats["iters"] += 1
        if rnd > 60:
            raise Undecided("loop does not converge")
        todo = [k for k, H in heads.items() if H.dirty]
        if not todo:
            break
        for k in todo:
            H = heads[k]
            H.dirty = False
            H.ev = ({}, {})
            F = H.T.facts()
            for X in heads.values():
                X.backs.pop(k, None)
            if F is None:
                H.exits = {}
                continue
            st = State(dict(H.T.mem), F)
            st.shared = True
            keep = I.events, I.sites
            I.events, I.sites = {}, {}
            res = I.region(fr, body, h, [st], h)
            H.ev = (I.events, I.sites)
            I.events, I.sites = keep
            backs = res.pop("back", [])
            H.exits = res
            if backs:
                I.trim(fr, h, backs)
                backs = merge(I, backs)
            for s in backs:
                norm_state(I, s)
                kk = state_key(s)
                X = heads.get(kk)
                if X is None:
                    if len(heads) > 60:
                        raise Undecided("too many shapes at loop")
                    X = heads[kk] = Head()
                X.backs.setdefault(k, []).append(s)
        for k, H in list(heads.items()):
            update(I, H, heads, mark)
    I.stats["heads"] += len(heads)
    I.events, I.sites = dict(snap_ev), dict(snap_si)
    out = {}
    for H in heads.values():
        ev, si = H.ev
        for a, b in ev.items():
            I.events.setdefault(a, b)
        for a, b in si.items():
            I.sites[a] = I.sites.get(a, 0) + b
        for k, v in H.exits.items():
            out.setdefault(k, []).extend(s.copy() for s in v)
    I.loop_done(fr, h, heads)
    return out


def setup(I, H, mark):
    l = H.entries
    H.T = Template(I, l[0], mark)
    sigs = fit(I, H.T, l)
    H.T.E = merge_facts([s.facts for s in l])
    cands = {}
    if H.T.phis:
        for s, sig in zip(l, sigs):
            for c in H.T.gather(s, sig):
                cands[c] = True
    H.T.cands = {c: True for c in cands if all(H.T.holds(c, s, sig) for s, sig in zip(l, sigs))}
    if H.T.phis:
        H.T.cands.update(H.T.std_keep(l, sigs))


def update(I, H, heads, mark):
    backs = [s for l in H.backs.values() for s in l]
    incoming = H.entries + backs
    if not incoming:
        return
    new = False
    if H.T is None:
        H.T = Template(I, incoming[0], mark)
        H.T.adopt(incoming[0].facts)
        new = True
    T = H.T
    if not H.entries:
        # facts about the surroundings of the loop
        T.inner = True
        E = merge_facts([heads[k].T.E for k in H.backs])
        if T.E is None or E is not T.E:
            if T.E is None or set(fact_conds(E)) != set(fact_conds(T.E)):
                H.dirty = True
            T.E = E
    gen0 = T.gen
    sigs = fit(I, T, incoming)
    changed = new or T.gen != gen0
    H.rounds += 1
    cands = dict(T.cands)
    if changed or H.rounds <= 4:
        for s, sig in zip(incoming, sigs):
            for c in T.gather(s, sig):
                if c not in cands and c not in H.dropped and not H.is_wide(c):
                    cands[c] = True
    retry = H.retry()
    cands.update(retry)
    keep = {}
    wide = []
    for c in cands:
        ok = True
        for s, sig in zip(incoming, sigs):
            if not T.holds(c, s, sig):
                ok = False
                break
        if ok:
            keep[c] = True
        elif not changed:
            H.dropped.add(c)
            if H.rounds >= WIDEN and c.kind == "le" and c not in retry:
                wide.append(c)
    if changed or H.rounds <= 4:
        for c in T.std_keep(incoming, sigs, H.dropped):
            if not H.is_wide(c):
                keep[c] = True
    if wide:
        new = {c.args[0].t for c in wide} - set(H.widened)
        rungs = set()
        for chain in T.rungs(new):
            n = 0
            for c in chain:
                if n == I.rungs:
                    break
                if c in H.dropped or not all(T.holds(c, s, sig) for s, sig in zip(incoming, sigs)):
                    continue
                keep[c] = True
                rungs.add(c)
                n += 1
        for c in wide:
            H.widen(c, keep, rungs)
    if changed or set(keep) != set(T.cands):
        # implied additions do not need another round
        if changed or not implied(T, keep):
            H.dirty = True
        T.cands = keep
    H.sigs = list(zip(incoming, sigs))


def implied(T, keep):
    for c in T.cands:
        if c not in keep:
            return False
    F = T.facts()
    if F is None:
        return True
    return all(F.proves(c) for c in keep)


def patience(I, fr, h, body, states):
    """Run all iterations of a loop known to be short"""
    if len(states) > PATIENCE:
        return None
    sts = [s.copy() for s in states]
    acc = {}
    for n in range(PATIENCE):
        res = I.region(fr, body, h, sts, h)
        sts = res.pop("back", [])
        for k, v in res.items():
            acc.setdefault(k, []).extend(v)
        if not sts:
            return acc
        if len(sts) > PATIENCE:
            return None
    return None


def unroll(I, fr, h, body, states):
    """Run the first iterations one by one, while few states come back"""
    if I.patient and "roots::" not in fr.fn.path:
        return patience(I, fr, h, body, states)
    if len(states) != 1 or I.hasty and "roots::" in fr.fn.path:
        return None
    sts = [states[0].copy()]
    acc = {}
    limit = UNROLL if not I.plain else PEEL
    for n in range(UNROLL):
        if n >= limit:
            return None
        b0 = I.stats["blocks"]
        res = I.region(fr, body, h, sts, h)
        backs = res.pop("back", [])
        for k, v in res.items():
            acc.setdefault(k, []).extend(v)
        if not backs:
            return acc
        if len(backs) > PEEL_STATES:
            return None
        if I.hasty and (res or len(backs) > 1):
            return None
        if res or len(backs) > 1:
            # only worth it for short loops
            if I.stats["blocks"] - b0 > PEEL_COST * len(sts):
                return None
            limit = min(limit, n + PEEL)
        sts = backs
    return None
