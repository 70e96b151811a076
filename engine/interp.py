"""Abstract interpreter for exported MIR.

States map places to abstract values (values.py) over terms constrained by
facts (facts.py).  Calls are analysed in the context of their caller.  Control
flow is followed in reverse postorder; states with equal memory are joined at
every control flow merge, and loops are solved by fixpoint iteration with
generalisation (loops.py).
"""
import sys
import time
from terms import *
from facts import Facts, Infeasible
from values import *
from program import Program
from seqs import SeqOps, seq_len, clen
import loops
import natives

sys.setrecursionlimit(20000)


class Budget(Exception):
    pass


class State:
    __slots__ = ("mem", "facts", "shared")

    def __init__(self, mem, facts):
        self.mem = mem
        self.facts = facts
        self.shared = False

    def copy(self):
        self.shared = True
        s = State(dict(self.mem), self.facts)
        s.shared = True
        return s

    def own(self):
        if self.shared:
            self.facts = self.facts.copy()
            self.shared = False
        return self.facts

    def assume(self, c):
        """False if the condition cannot hold"""
        if c.kind == "true":
            return True
        if c.kind == "false":
            return False
        try:
            self.own().assume(c)
        except Infeasible:
            return False
        return True


class Frame:
    __slots__ = ("fn", "d", "up", "line")

    def __init__(self, fn, d, up, line):
        self.fn = fn
        self.d = d
        self.up = up
        self.line = line


class Event:
    __slots__ = ("kind", "what", "site", "stack", "info")

    def __init__(self, kind, what, site, stack, info):
        self.kind = kind
        self.what = what
        self.site = site
        self.stack = stack
        self.info = info


def pointed(st, root):
    """Whether memory has a pointer to the root"""
    return any(points(v, root) for k, v in st.mem.items() if k != root)


def points(v, root):
    if isinstance(v, Ptr):
        return v.root == root
    if isinstance(v, (Agg, Nat)):
        return any(points(x, root) for x in v.f)
    if isinstance(v, BoxV):
        return points(v.v, root)
    return isinstance(v, (VecV, Seq)) and repr(root) in repr(v)


ARITH = ("Add", "Sub", "Mul", "Div", "Rem", "BitAnd", "BitOr", "BitXor", "Shl", "Shr", "Eq", "Ne", "AddUnchecked", "SubUnchecked", "MulUnchecked", "ShlUnchecked", "ShrUnchecked")


# blocks interpreted to find constants
SCOUT = 20000


class Scouted(Exception):
    pass


class Interp:
    def __init__(self, prog, budget=600.0, trace=False, stubs=True):
        self.stubs = stubs
        self.prog = prog
        self.T = prog.types
        self.q = SeqOps(prog)
        self.events = {}
        self.early = {}  # events of unfinished loop iterations
        self.sites = {}
        self.fns_seen = set()
        self.consts = set()
        # constants tried for a widened bound
        self.rungs = 0
        # parameters of loops are not related to each other by construction
        self.plain = False
        # few bounds of counters are tried at loops
        self.hasty = False
        self.patient = False
        self.scout = None
        self.stats = {"blocks": 0, "calls": 0, "loops": 0, "heads": 0, "iters": 0, "states": 0}
        self.t0 = time.time()
        self.budget = budget
        self.trace = trace
        self.pend = []
        self.nat_cache = {}
        self.nfresh = {}
        self.usize = prog.by_s["usize"]
        self.u8 = prog.by_s["u8"]
        self.unit_ty = prog.by_s["()"]
        self.loop_note = []
        self.term_failures = {}
        self.havoc = 0

    # -- reporting

    def stack(self, fr, line):
        out = []
        f = fr
        l = line
        while f is not None:
            out.append((f.fn.path, f.fn.file, l, f.fn.krate))
            l = f.line
            f = f.up
        return out

    def site_of(self, fr, line):
        """Innermost position inside of the analysed crates"""
        for path, file, l, kr in self.stack(fr, line):
            if kr in ("gift", "gift_bin"):
                return (path, file, l)
        for path, file, l, kr in self.stack(fr, line):
            if kr == "harness":
                return (path, file, l)
        return (fr.fn.path, fr.fn.file, line)

    def note_site(self, kind, what, fr, line):
        s = self.site_of(fr, line)
        self.sites[(kind, what, s[0], s[1], s[2])] = self.sites.get((kind, what, s[0], s[1], s[2]), 0) + 1

    def event(self, kind, what, fr, line, info=""):
        s = self.site_of(fr, line)
        key = (kind, what, s)
        if key not in self.events:
            self.events[key] = Event(kind, what, s, self.stack(fr, line), info)
            self.early.setdefault(key, self.events[key])

    def require(self, st, cond, what, fr, line):
        """A panic happens unless cond holds.  False if it never holds."""
        self.note_site("panic", what, fr, line)
        if st.facts.proves(cond):
            return True
        self.pend.append(("panic", what, fr, line, self.why(st, cond)))
        return st.assume(cond)

    def why(self, st, cond):
        try:
            c = st.facts.normc(cond)
            if self.trace:
                return "%r  [facts: %s]" % (c, st.facts.show()[:6000])
            return repr(c)[:600]
        except Exception:
            return ""

    def flush(self):
        for p in self.pend:
            self.event(*p)
        self.pend = []

    def fresh(self, prefix, lo, hi):
        return fresh(prefix, lo, hi)

    # -- places

    def local(self, fr, i):
        return (fr.d, i)

    def value_at(self, st, root):
        v = st.mem.get(root)
        if v is None:
            if root[0] == "k":
                return self.prog.kvalue(root)
            raise Undecided("read of dead place %r" % (root,))
        return v

    def resolve(self, st, fr, place):
        """Location (Ptr) denoted by a place"""
        root = (fr.d, place[0])
        path = ()
        meta = None
        var = None
        projs = place[1]
        i = 0
        n = len(projs)
        while i < n:
            p = projs[i]
            k = p[0]
            i += 1
            if k == "*":
                v = self.get(st, Ptr(root, path, None))
                if isinstance(v, Ptr):
                    root, path, meta = v.root, v.path, v.meta
                elif isinstance(v, BoxV):
                    path = path + (("*b",),)
                    if isinstance(v.v, Seq):
                        meta = (ZERO, seq_len(v.v))
                elif isinstance(v, Nat) and v.kind == "dynptr":
                    root, path, meta = v.f[0].root, v.f[0].path, v.f[0].meta
                else:
                    raise Undecided("dereference of %r" % (v,))
            elif k == "f":
                if var is None:
                    path = path + (("f", p[1]),)
                else:
                    path = path + (("v", var, p[1]),)
                    var = None
            elif k == "d":
                var = p[1]
            elif k == "I":
                ix = self.get(st, Ptr((fr.d, p[1]), (), None))
                if meta is not None:
                    ix = meta[0] + ix
                    meta = None
                path = path + (("i", st.facts.norm(ix)),)
            elif k == "ci":
                lo, ln = meta if meta is not None else (ZERO, self.seq_at(st, Ptr(root, path, None))[1])
                ix = lo + ln - p[1] if p[3] else lo + p[1]
                path = path + (("i", st.facts.norm(ix)),)
                meta = None
            elif k == "ss":
                lo, ln = meta if meta is not None else (ZERO, self.seq_at(st, Ptr(root, path, None))[1])
                end = ln - p[2] if p[3] else const(p[2])
                meta = (lo + p[1], end - p[1])
            elif k == "bx":
                v = self.get(st, Ptr(root, path, None))
                if not isinstance(v, BoxV):
                    raise Undecided("box field of %r" % (v,))
                m = (ZERO, seq_len(v.v)) if isinstance(v.v, Seq) else None
                ptr = Ptr(root, path + (("*b",),), m)
                if i == n:
                    return ("val", ptr)
                root, path, meta = ptr.root, ptr.path, ptr.meta
                if projs[i][0] == "*":
                    i += 1
            else:
                raise Undecided("projection %r" % (p,))
        return Ptr(root, path, meta)

    def seq_at(self, st, ptr):
        """(sequence, length) for a slice pointer or array location"""
        v = self.get(st, Ptr(ptr.root, ptr.path, None))
        if isinstance(v, VecV):
            v = v.seq
        if not isinstance(v, Seq):
            raise Undecided("not a sequence: %r" % (v,))
        return v, seq_len(v)

    def slice_of(self, st, ptr):
        """Contents of a slice pointer"""
        v, n = self.seq_at(st, ptr)
        if ptr.meta is None:
            return v
        return self.q.slice(v, ptr.meta[0], ptr.meta[1], st.facts)

    def get(self, st, loc):
        if loc.__class__ is tuple:
            return loc[1]
        v = self.value_at(st, loc.root)
        if loc.path:
            v = self.walk(st, v, loc.path, loc.root)
        if loc.meta is not None:
            if isinstance(v, Seq):
                return self.q.slice(v, loc.meta[0], loc.meta[1], st.facts)
            raise Undecided("slice of %r" % (v,))
        return v

    def step(self, F, v, p):
        k = p[0]
        if k == "f":
            if v.__class__ is Agg:
                return v.f[p[1]]
            if v.__class__ is Lazy:
                return self.q.fld(v, 0, p[1])
        elif k == "v":
            if v.__class__ is Agg:
                if v.var != p[1]:
                    raise Infeasible()
                return v.f[p[2]]
            if v.__class__ is Lazy:
                return self.q.fld(v, p[1], p[2])
        elif k == "i":
            if v.__class__ is VecV:
                v = v.seq
            if v.__class__ is Seq:
                return self.q.get(v, p[1], F)
        elif k == "*b":
            if v.__class__ is BoxV:
                return v.v
        elif k == "vs":
            if v.__class__ is VecV:
                return v.seq
        elif k == "n":
            if v.__class__ is Nat:
                return v.f[p[1]]
        if v is UNINIT:
            return UNINIT
        if v.__class__ is Nat and v.kind == "mu" and k == "f":
            return v.f[0] if v.f[0] is not UNINIT else v
        raise Undecided("projection %r of %r" % (p, v))

    def walk(self, st, v, path, root=None):
        for p in path:
            v = self.step(st.facts, v, p)
        return v

    def put(self, st, loc, val):
        if loc.__class__ is tuple:
            raise Undecided("write to box pointer")
        if loc.root[0] == "k":
            raise Undecided("write to constant")
        if loc.meta is not None:
            raise Undecided("write of unsized value")
        if not loc.path:
            st.mem[loc.root] = val
            return
        old = st.mem.get(loc.root, UNINIT)
        st.mem[loc.root] = self.rebuild(st, old, loc.path, 0, val, loc.root)

    def rebuild(self, st, v, path, i, val, root):
        if i == len(path):
            return val
        p = path[i]
        k = p[0]
        F = st.facts
        if v.__class__ is Lazy:
            v = self.q.expand(v, F)
        if v.__class__ is Nat and v.kind == "mu":
            # MaybeUninit: fields down to the value are transparent
            if any(x[0] != "f" for x in path[i:]):
                raise Undecided("write into uninitialised place")
            return Nat("mu", (val,))
        if v is UNINIT:
            # partially initialised aggregate
            raise Undecided("write into uninitialised place")
        if k == "f" or k == "v":
            j = p[-1]
            if v.__class__ is Agg:
                f = list(v.f)
                if k == "v" and v.var != p[1]:
                    raise Infeasible()
                f[j] = self.rebuild(st, f[j], path, i + 1, val, root)
                return Agg(v.ty, v.var, f)
        elif k == "i":
            if v.__class__ is VecV:
                return VecV(self.rebuild(st, v.seq, path, i, val, root))
            if v.__class__ is Seq:
                if i + 1 < len(path):
                    val = self.rebuild(st, self.q.get(v, p[1], F), path, i + 1, val, root)
                return self.q.set(v, p[1], val, F)
        elif k == "n":
            if v.__class__ is Nat:
                f = list(v.f)
                f[p[1]] = self.rebuild(st, f[p[1]], path, i + 1, val, root)
                return Nat(v.kind, f)
        elif k == "*b":
            if v.__class__ is BoxV:
                return BoxV(self.rebuild(st, v.v, path, i + 1, val, root))
        elif k == "vs":
            if v.__class__ is VecV:
                return VecV(self.rebuild(st, v.seq, path, i + 1, val, root))
        raise Undecided("write through %r of %r" % (p, v))

    def operand(self, st, fr, o):
        if o[0] == "k":
            return o[1][0]
        pl = o[1]
        if not pl[1]:
            root = (fr.d, pl[0])
            v = st.mem.get(root)
            if v is None:
                ty = pl[2]
                x = self.T[ty]
                if x["k"] in ("tuple", "adt", "closure") and self.is_zst(ty):
                    return self.prog.zst(ty)
                raise Undecided("read of uninitialised _%d in %s" % (pl[0], fr.fn.path))
            if o[0] == "m":
                del st.mem[root]
            return v
        return self.get(st, self.resolve(st, fr, pl))

    def is_zst(self, ty):
        try:
            return self.prog.size_of(ty) == 0
        except Undecided:
            return False

    # -- arithmetic

    def wrap(self, p, ty, F):
        lo, hi = self.prog.int_range(ty)
        l, h = F.rng(p)
        if l >= lo and h <= hi:
            return p
        if F.proves(c_le(const(lo), p)) and F.proves(c_le(p, const(hi))):
            return p
        bits, signed = self.prog.int_info(ty)
        if not signed:
            return p_mod(F.norm(p), 1 << bits)
        q = F.norm(p)
        if not q.t:
            v = q.c & ((1 << bits) - 1)
            return const(v - (1 << bits) if v >> (bits - 1) else v)
        return atom_poly(mk("smod", (q, bits), lo, hi))

    def as_int(self, v):
        if isinstance(v, Poly):
            return v
        if isinstance(v, Cond):
            return b2i(v)
        raise Undecided("not an integer: %r" % (v,))

    def note_const(self, a, b):
        """Constants of comparisons are thresholds for widening"""
        for p, q in ((a, b), (b, a)):
            if not p.t and q.t and 2 < p.c <= 1 << 40:
                self.consts.add(p.c)

    def binop(self, st, op, a, b, ta, tb, dty):
        F = st.facts
        if isinstance(a, Cond) or isinstance(b, Cond):
            if isinstance(a, Cond) and isinstance(b, Cond):
                if op == "BitAnd":
                    return c_and(a, b)
                if op == "BitOr":
                    return c_or(a, b)
                if op in ("BitXor", "Ne"):
                    return c_not(self.q.value_eq(a, b, F))
                if op == "Eq":
                    return self.q.value_eq(a, b, F)
            a, b = self.as_int(a), self.as_int(b)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.ptr_op(st, op, a, b)
        if isinstance(a, Opq) or isinstance(b, Opq):
            if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                return c_ne(fresh("cmp", 0, 1))
            return Opq(dty, ("op", op))
        if not (isinstance(a, Poly) and isinstance(b, Poly)):
            raise Undecided("%s of %r and %r" % (op, a, b))
        if op not in ARITH:
            self.note_const(a, b)
        if op == "Eq":
            return c_eq(a, b)
        if op == "Ne":
            return c_ne(a, b)
        if op == "Lt":
            return c_lt(a, b)
        if op == "Le":
            return c_le(a, b)
        if op == "Gt":
            return c_lt(b, a)
        if op == "Ge":
            return c_le(b, a)
        if op == "Cmp":
            c = c_lt(a, b)
            if F.proves(c):
                v = 0
            elif not F.disproves(c):
                raise NeedSplit(c)
            else:
                c = c_eq(a, b)
                if F.proves(c):
                    v = 1
                elif not F.disproves(c):
                    raise NeedSplit(c)
                else:
                    v = 2
            return Agg(dty, v, ())
        return self.arith(st, op, a, b, ta)

    def arith(self, st, op, a, b, ta):
        F = st.facts
        bits, signed = self.prog.int_info(ta)
        if op in ("Add", "AddUnchecked"):
            return self.wrap(a + b, ta, F)
        if op in ("Sub", "SubUnchecked"):
            return self.wrap(a - b, ta, F)
        if op in ("Mul", "MulUnchecked"):
            a, b = F.norm(a), F.norm(b)
            return self.wrap(a * b, ta, F)
        if op in ("Shl", "ShlUnchecked"):
            b = F.norm(b)
            if not b.t:
                b = const(b.c % bits)
            elif not F.proves(c_lt(b, const(bits))):
                b = p_mod(b, bits)
            a = F.norm(a)
            return self.wrap(a * p_pow2(b), ta, F)
        if op in ("Shr", "ShrUnchecked"):
            b = F.norm(b)
            if not b.t:
                b = const(b.c % bits)
            elif not F.proves(c_lt(b, const(bits))):
                b = p_mod(b, bits)
            if signed and not F.proves(c_le(ZERO, a)):
                return atom_poly(mk("sar", (a, b), *self.prog.int_range(ta)))
            return p_shr(F.norm(a), b)
        if op in ("Div", "Rem"):
            a, b = F.norm(a), F.norm(b)
            if signed and not (F.proves(c_le(ZERO, a)) and F.proves(c_lt(ZERO, b))):
                raise Undecided("signed division")
            if not b.t and b.c > 0:
                q = p_div(a, b.c)
                return q if op == "Div" else a - q.scale(b.c) if not self.is_plain_mod(a, b.c) else p_mod(a, b.c)
            return natives.divrem(F, a, b, op)
        if op == "BitAnd":
            if signed:
                raise Undecided("signed bit operation")
            return p_and(F.norm(a), F.norm(b))
        if op == "BitOr":
            if signed:
                raise Undecided("signed bit operation")
            return p_or(F.norm(a), F.norm(b))
        if op == "BitXor":
            if signed:
                raise Undecided("signed bit operation")
            return p_xor(F.norm(a), F.norm(b), bits)
        raise Undecided("operation " + op)

    def is_plain_mod(self, a, k):
        return k & (k - 1) == 0

    def ptr_op(self, st, op, a, b):
        if op in ("Eq", "Ne") and isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.root == b.root and a.path == b.path and a.meta == b.meta:
                return TRUE if op == "Eq" else FALSE
        raise Undecided("pointer operation " + op)

    def checked(self, st, op, a, b, ta, dty):
        F = st.facts
        a, b = self.as_int(a), self.as_int(b)
        lo, hi = self.prog.int_range(ta)
        if op == "Add":
            r = a + b
        elif op == "Sub":
            r = a - b
        elif op == "Mul":
            r = F.norm(a) * F.norm(b)
        else:
            raise Undecided("checked " + op)
        ov = c_not(c_and(c_le(const(lo), r), c_le(r, const(hi))))
        return Agg(dty, 0, (r, ov))

    def unop(self, st, op, a, ta):
        if op == "Not":
            if isinstance(a, Cond):
                return c_not(a)
            if isinstance(a, Poly):
                b, s = self.prog.int_info(ta)
                return -a - 1 if s else const((1 << b) - 1) - a
        if op == "Neg" and isinstance(a, Poly):
            return self.wrap(-a, ta, st.facts)
        if op == "PtrMetadata":
            if isinstance(a, Ptr):
                if a.meta is not None:
                    return a.meta[1]
                return unit(self.unit_ty)
        if isinstance(a, Opq):
            return Opq(ta, ("op", op))
        raise Undecided("%s of %r" % (op, a))

    def cast(self, st, kind, v, tf, tt):
        F = st.facts
        xt = self.T[tt]
        if kind == "IntToInt":
            if isinstance(v, Cond):
                return b2i(v)
            if isinstance(v, (Agg, Lazy)):
                var = self.q.variant(v, F)
                return self.wrap(const(self.prog.variant_discr(tf, var)), tt, F)
            if isinstance(v, Opq):
                return self.any_of(tt, "cast")
            return self.wrap(v, tt, F)
        if kind.startswith(("PointerCoercion", '{"PointerCoercion')) or "Unsize" in kind or "Reify" in kind or "Closure" in kind:
            if "Unsize" in kind:
                return self.unsize(st, v, tf, tt)
            return v
        if kind in ("PtrToPtr", "FnPtrToPtr"):
            if isinstance(v, Ptr) and v.meta is not None:
                e = self.T[xt["e"]]["k"] if xt["k"] in ("ptr", "ref") else None
                if e not in ("slice", "str", "dyn"):
                    # thin pointer to the first element
                    return Ptr(v.root, v.path + (("i", v.meta[0]),), None)
            return v
        if kind.startswith("Transmute") or "Transmute" in kind or kind == "Subtype":
            return self.transmute(st, v, tf, tt)
        if "Float" in kind:
            if xt["k"] in ("uint", "int"):
                return self.any_of(tt, "float")
            return Opq(tt, ("cast", kind))
        raise Undecided("cast " + kind)

    def unsize(self, st, v, tf, tt):
        if isinstance(v, Ptr):
            e = self.T[tf]["e"]
            te = self.T[self.T[tt]["e"]]
            if te["k"] == "dyn":
                return Nat("dynptr", (v, Opq(e, "type")))
            if self.T[e]["k"] == "array":
                return Ptr(v.root, v.path, (ZERO, const(self.T[e]["n"])))
            raise Undecided("unsize to " + te["s"])
        if isinstance(v, BoxV) or isinstance(v, Nat) and v.kind == "dynptr":
            return v
        raise Undecided("unsize of %r" % (v,))

    def transmute(self, st, v, tf, tt):
        xf, xt = self.T[tf], self.T[tt]
        if tf == tt:
            return v
        if isinstance(v, Ptr) or isinstance(v, (Opq, Nat)):
            return v
        if isinstance(v, Poly):
            if xt["k"] in ("uint",) and xf["k"] in ("uint", "char"):
                return v
            if xt["k"] == "char":
                return v
            if xt["k"] == "int" and xf["k"] == "int":
                return v
            if xt["k"] == "adt" and xt["kind"] == "Enum":
                for i, q in enumerate(xt["variants"]):
                    c = c_eq(v, const(int(q["d"])))
                    if st.facts.proves(c):
                        return Agg(tt, i, ())
                    if not st.facts.disproves(c):
                        raise NeedSplit(c)
                raise Infeasible()
        # transparent wrappers
        if isinstance(v, Agg):
            fs = self.prog.field_tys(tf, v.var)
            nz = [i for i, t in enumerate(fs) if not self.is_zst(t)]
            if len(nz) == 1:
                return self.transmute(st, v.f[nz[0]], fs[nz[0]], tt)
        if xt["k"] == "adt" and xt["kind"] == "Struct":
            fs = self.prog.field_tys(tt)
            nz = [i for i, t in enumerate(fs) if not self.is_zst(t)]
            if len(nz) == 1:
                f = [self.prog.zst(t) for t in fs]
                f[nz[0]] = self.transmute(st, v, tf, fs[nz[0]])
                return Agg(tt, 0, f)
        if isinstance(v, Seq) and xt["k"] in ("uint",):
            # byte array to integer (little-endian)
            n = seq_len(v)
            if not n.t and self.T[v.ety]["s"] == "u8":
                r = ZERO
                for i in range(n.c):
                    r = r + self.q.get(v, const(i), st.facts).scale(1 << (8 * i))
                return r
        if isinstance(v, Poly) and xt["k"] == "array" and self.T[xt["e"]]["s"] == "u8":
            out = []
            for i in range(xt["n"]):
                out.append(("E", p_mod(p_div(v, 1 << (8 * i)), 256)))
            return self.q.norm(xt["e"], out, st.facts)
        if isinstance(v, Seq) and xt["k"] == "array":
            return v
        raise Undecided("transmute %s -> %s of %r" % (xf["s"], xt["s"], v))

    def any_of(self, ty, prefix):
        """Unconstrained value of a type"""
        b = base_sym(fresh_name(prefix))
        return self.q.elem(ty, b, ZERO)

    # -- statements

    def rvalue(self, st, fr, r, dty):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k == "ref":
            pj = r[1][1]
            if pj and pj[-1][0] == "*" and self.T[dty]["k"] in ("ref", "ptr") and self.T[self.T[dty]["e"]]["k"] == "dyn":
                # reborrow of a trait object
                v = self.get(st, self.resolve(st, fr, (r[1][0], pj[:-1])))
                if isinstance(v, Nat) and v.kind == "dynptr":
                    return v
            l = self.resolve(st, fr, r[1])
            if l.__class__ is tuple:
                raise Undecided("reference to box pointer")
            return l
        if k == "bin":
            a = self.operand(st, fr, r[2])
            b = self.operand(st, fr, r[3])
            if r[1] == "Offset":
                return natives.ptr_offset(a, b)
            return self.binop(st, r[1], a, b, r[4], r[5], dty)
        if k == "chk":
            a = self.operand(st, fr, r[2])
            b = self.operand(st, fr, r[3])
            return self.checked(st, r[1], a, b, r[4], dty)
        if k == "un":
            return self.unop(st, r[1], self.operand(st, fr, r[2]), r[3])
        if k == "cast":
            return self.cast(st, r[1], self.operand(st, fr, r[2]), r[3], r[4])
        if k == "tup":
            return Agg(dty, 0, [self.operand(st, fr, o) for o in r[1]])
        if k == "adt":
            x = self.T[dty]
            ops = [self.operand(st, fr, o) for o in r[3]]
            if x["k"] == "adt" and x["kind"] == "Union":
                if len(ops) == 1:
                    return ops[0]
                raise Undecided("union")
            return Agg(dty, r[1], ops)
        if k == "arr":
            ops = [self.operand(st, fr, o) for o in r[2]]
            return self.q.norm(r[1], [("E", o) for o in ops], st.facts)
        if k == "discr":
            return self.discriminant(st, fr, r[1])
        if k == "rep":
            v = self.operand(st, fr, r[1])
            if r[2] is None:
                raise Undecided("array length")
            return Seq(self.T[dty]["e"], [("F", v, const(r[2]))] if r[2] else [])
        if k == "len":
            l = self.resolve(st, fr, r[1])
            if l.meta is not None:
                return l.meta[1]
            return self.seq_at(st, l)[1]
        if k == "rawptr":
            a = self.operand(st, fr, r[1][0])
            m = self.operand(st, fr, r[1][1])
            if isinstance(a, Ptr) and isinstance(m, Poly):
                if a.path and a.path[-1][0] == "i":
                    return Ptr(a.root, a.path[:-1], (a.path[-1][1], m))
                if a.meta is not None:
                    return Ptr(a.root, a.path, (a.meta[0], m))
                # pointer to an array or vector buffer
                v = self.get(st, a)
                if isinstance(v, Seq):
                    return Ptr(a.root, a.path, (ZERO, m))
            if isinstance(a, Ptr) and isinstance(m, Agg):
                return a
            raise Undecided("raw pointer from parts")
        raise Undecided("rvalue %r" % (r[:2],))

    def discriminant(self, st, fr, pl):
        l = self.resolve(st, fr, pl)
        v = self.get(st, l)
        if v is UNINIT:
            raise Undecided("discriminant of uninitialised value")
        if isinstance(v, (Agg, Lazy)):
            x = self.T[v.ty]
            if x["k"] == "adt" and x["kind"] == "Enum":
                if isinstance(v, Lazy) and self.simple_discr(v.ty):
                    return st.facts.norm(self.q.tag(v))
                var = self.q.variant(v, st.facts)
                return const(self.prog.variant_discr(v.ty, var))
            return ZERO
        if isinstance(v, Opq):
            n = len(self.T[v.ty].get("variants", ())) or 1
            return fresh("discr", 0, n - 1)
        raise Undecided("discriminant of %r" % (v,))

    def simple_discr(self, ty):
        vs = self.T[ty]["variants"]
        return all(int(v["d"]) == i for i, v in enumerate(vs))

    def stmt(self, st, fr, s):
        k = s[0]
        if k == "=":
            pl = s[1]
            v = self.rvalue(st, fr, s[2], pl[2])
            if not pl[1]:
                st.mem[(fr.d, pl[0])] = v
            else:
                self.put(st, self.resolve(st, fr, pl), v)
        elif k == "dead":
            st.mem.pop((fr.d, s[1]), None)
        elif k == "nop":
            pass
        elif k == "assume":
            c = self.operand(st, fr, s[1])
            if isinstance(c, Cond) and not st.assume(c):
                raise Infeasible()
        elif k == "copy":
            src = self.operand(st, fr, s[1])
            dst = self.operand(st, fr, s[2])
            n = self.operand(st, fr, s[3])
            natives.copy_raw(self, st, src, dst, n)
        else:
            raise Undecided("statement %r" % (s,))

    def exec_block(self, fr, b, st):
        """Run one basic block; list of (successor or "ret", state)"""
        self.stats["blocks"] += 1
        if time.time() - self.t0 > self.budget:
            raise Budget()
        if self.scout and self.stats["blocks"] > SCOUT:
            raise Scouted()
        stmts, term, tline, _ = fr.fn.blocks[b]
        work = [(st, 0)]
        out = []
        n = len(stmts)
        while work:
            st, i = work.pop()
            line = tline
            try:
                while i < n:
                    s, line = stmts[i]
                    if s[0] == "=" and s[2][0] == "use" and not s[1][1]:
                        self.stmt(st, fr, s)
                    else:
                        # moves must not be lost on a retry
                        mem0 = dict(st.mem) if s[0] == "=" and s[2][0] in ("use", "adt", "tup", "bin", "chk", "cast", "arr", "un") else None
                        try:
                            self.stmt(st, fr, s)
                        except NeedSplit:
                            if mem0 is not None:
                                st.mem = mem0
                            raise
                    i += 1
                line = tline
                out.extend(self.terminator(fr, b, st, term, tline))
            except NeedSplit as e:
                self.pend = []
                for c in (e.cond, c_not(e.cond)):
                    s2 = st.copy()
                    if s2.assume(c):
                        work.append((s2, i))
            except Infeasible:
                self.pend = []
            except Undecided as e:
                self.pend = []
                self.event("undecided", str(e), fr, line)
        return out

    def terminator(self, fr, b, st, t, line):
        k = t[0]
        if k == "Goto":
            return [(t[1], st)]
        if k == "Return":
            return [("ret", st)]
        if k == "SwitchInt":
            return self.switch(fr, st, t, line)
        if k == "Assert":
            mem0 = dict(st.mem)
            try:
                c = self.operand(st, fr, t[1])
                if isinstance(c, Opq):
                    raise Undecided("assert on opaque value")
                if not t[2]:
                    c = c_not(c)
                ok = self.require(st, c, t[3], fr, line)
                self.flush()
            except NeedSplit:
                st.mem = mem0
                raise
            return [(t[4], st)] if ok else []
        if k == "Call":
            return self.do_call(fr, st, t, line)
        if k == "Drop":
            return self.do_drop(fr, st, t, line)
        if k == "Unreachable":
            return []
        if k in ("Resume", "Abort"):
            return []
        raise Undecided("terminator %s" % k)

    def switch(self, fr, st, t, line):
        st0 = st.copy()
        v = self.operand(st, fr, t[1])
        if isinstance(v, (Opq, Uninit)):
            raise Undecided("switch on %r" % (v,))
        out = []
        if isinstance(v, Cond):
            # branches are on 0 / 1
            rest = [0, 1]
            tg = {}
            for val, b in t[3]:
                tg[val] = b
                rest.remove(val)
            for val in rest:
                tg[val] = t[4]
            if v.kind == "true":
                return [(tg[1], st)]
            if v.kind == "false":
                return [(tg[0], st)]
            if tg[0] == tg[1]:
                return [(tg[0], st)]
            if st.facts.proves(v):
                return [(tg[1], st)]
            if st.facts.disproves(v):
                return [(tg[0], st)]
            for c, b in ((v, tg[1]), (c_not(v), tg[0])):
                s = st.copy()
                if s.assume(c):
                    out.append((b, s))
            return out
        p = st.facts.norm(v)
        ii = self.prog.int_info(t[2])
        signed = ii is not None and ii[1]

        def val_of(x):
            if signed and x >> (ii[0] - 1):
                return x - (1 << ii[0])
            return x

        if not p.t:
            for val, b in t[3]:
                if val_of(val) == p.c:
                    return [(b, st)]
            return [(t[4], st)]
        rest = []
        for val, b in t[3]:
            c = c_eq(p, const(val_of(val)))
            if st.facts.disproves(c):
                continue
            s = st.copy()
            if s.assume(c):
                out.append((b, s))
            rest.append(c_not(c))
        s = st
        for c in rest:
            if not s.assume(c):
                return out
        if fr.fn.blocks[t[4]][1][0] == "Unreachable" and not fr.fn.blocks[t[4]][0]:
            return out
        out.append((t[4], s))
        return out

    # -- calls

    def do_call(self, fr, st, t, line):
        self.stats["calls"] += 1
        st0 = st.copy()
        args = [self.operand(st, fr, a) for a in t[2]]
        callee = t[1]
        if callee is None:
            f = self.operand(st, fr, t[5])
            if isinstance(f, Fn) and f.callee:
                callee = f.callee
            else:
                raise Undecided("indirect call")
        dest, target = t[3], t[4]
        try:
            outs = self.call(fr, st, callee, args, t[6], line, dest[2])
        except (NeedSplit,):
            # restart from the state before the call
            st.mem = st0.mem
            st.facts = st0.facts
            st.shared = True
            raise
        res = []
        if target is None:
            return res
        for s, v in outs:
            if not dest[1]:
                s.mem[(fr.d, dest[0])] = v
            else:
                self.put(s, self.resolve(s, fr, dest), v)
            res.append((target, s))
        return res

    def call(self, fr, st, callee, args, argtys, line, dty):
        """list of (state, value)"""
        nat = self.native(callee)
        if nat is not None:
            r = nat(self, st, fr, args, callee, argtys, line, dty)
            if r is None:
                return []
            if r is not natives.INLINE:
                self.flush()
                return r if isinstance(r, list) else [(st, r)]
        key = callee.get("key")
        if callee.get("virt"):
            return self.virtual(fr, st, callee, args, argtys, line, dty)
        fn = self.prog.fn(key) if key else None
        if fn is None:
            raise Undecided("call of " + callee["path"])
        return self.call_fn(fr, st, fn, args, line)

    def virtual(self, fr, st, callee, args, argtys, line, dty):
        raise Undecided("virtual call of " + callee["path"])

    def native(self, callee):
        k = (callee.get("key"), callee["path"])
        if k in self.nat_cache:
            return self.nat_cache[k]
        n = natives.STUBS.get(callee["path"]) if self.stubs else None
        if n is None:
            n = natives.lookup(self, callee)
        self.nat_cache[k] = n
        return n

    def call_fn(self, fr, st, fn, args, line):
        d = (fr.d if fr is not None else 0) + 1
        if d > 80:
            raise Undecided("call depth")
        if fn.nargs != len(args):
            if args and isinstance(args[-1], Agg) and fn.nargs == len(args) - 1 + len(args[-1].f):
                args = args[:-1] + list(args[-1].f)
            else:
                raise Undecided("arity of " + fn.path)
        elif args and isinstance(args[-1], Agg) and len(args[-1].f) == 1 and args[-1].ty != fn.locals[len(args)] \
                and self.T[args[-1].ty]["k"] == "tuple" and "{closure" in fn.path:
            args = args[:-1] + list(args[-1].f)
        self.fns_seen.add(fn.key)
        for i, a in enumerate(args):
            st.mem[(d, i + 1)] = a
        f = Frame(fn, d, fr, line)
        r = self.region(f, None, 0, [st], None)
        outs = []
        for s in r.get("ret", ()):
            v = s.mem.get((d, 0))
            if v is None:
                ty = fn.locals[0]
                v = self.prog.zst(ty) if self.is_zst(ty) else UNINIT
            for k in [k for k in s.mem if k[0] == d]:
                del s.mem[k]
            outs.append((s, v))
        return self.merge_rets(outs)

    def merge_rets(self, outs):
        if len(outs) < 2:
            return outs
        RET = ("ret",)
        for s, v in outs:
            s.mem[RET] = v
        ss = loops.merge(self, [s for s, _ in outs])
        res = []
        for s in ss:
            v = s.mem.pop(RET)
            res.append((s, v))
        return res

    def do_drop(self, fr, st, t, line):
        callee = t[3]
        if callee is None or not callee.get("key") or not self.prog.need_drop(callee["key"]):
            if not t[1][1]:
                st.mem.pop((fr.d, t[1][0]), None)
            return [(t[2], st)]
        loc = self.resolve(st, fr, t[1])
        fn = self.prog.fn(callee["key"])
        if fn is None:
            raise Undecided("drop glue")
        return [(t[2], s) for s, _ in self.call_fn(fr, st, fn, [loc], line)]

    # -- control flow

    def region(self, fr, blocks, entry, states, header):
        """Run the blocks of a region; {"ret": [...], "back": [...], block: [...]}"""
        fn = fr.fn
        pend = {entry: list(states)}
        res = {}
        rpo = fn.rpo
        import heapq

        heap = [(rpo[entry], entry)]
        queued = {entry}
        while heap:
            _, b = heapq.heappop(heap)
            queued.discard(b)
            ss = pend.pop(b, [])
            if not ss:
                continue
            if len(ss) > 1:
                self.trim(fr, b, ss)
                ss = loops.merge(self, ss)
                if len(ss) > self.max_states(fr, b):
                    ss = loops.reduce(self, fr, b, ss)
            self.stats["states"] += len(ss)
            if b in fn.loops and b != header:
                outs = []
                r = loops.solve(self, fr, b, ss)
                for k, v in r.items():
                    for s in v:
                        outs.append((k, s))
            else:
                outs = []
                for s in ss:
                    outs.extend(self.exec_block(fr, b, s))
            for k, s in outs:
                if k == "ret":
                    res.setdefault("ret", []).append(s)
                elif k == header:
                    res.setdefault("back", []).append(s)
                elif blocks is not None and k not in blocks:
                    res.setdefault(k, []).append(s)
                else:
                    pend.setdefault(k, []).append(s)
                    if k not in queued:
                        queued.add(k)
                        heapq.heappush(heap, (rpo[k], k))
        return res

    def loop_done(self, fr, h, heads):
        pass

    def dump_state(self, st, what):
        print("---", what)
        for k, v in sorted(st.mem.items(), key=repr):
            print("   ", k, v)
        print("    facts:", st.facts.show())

    def max_states(self, fr, b):
        return 400

    def trim(self, fr, b, ss):
        live = fr.fn.live_in.get(b)
        if live is None:
            return
        d = fr.d
        for s in ss:
            dead = [k for k in s.mem if k[0] == d and k[1] not in live or k[1] == "opaque" and not pointed(s, k)]
            for k in dead:
                del s.mem[k]
            natives.trim_ghosts(self, s)

    # -- entry

    def run_root(self, key):
        fn = self.prog.fn(key)
        st = State({}, Facts())
        natives.init_ghosts(self, st)
        natives.FOCUS.clear()
        f = Frame(fn, 0, None, fn.line)
        try:
            outs = self.call_fn(None, st, fn, [], fn.line)
        except Scouted:
            # again, with the constants found
            self.scout = False
            self.stats["blocks"] = 0
            self.events, self.sites, self.pend = {}, {}, []
            return self.run_root(key)
        except Budget:
            self.event("undecided", "time budget exhausted", f, fn.line)
            outs = []
        return outs
