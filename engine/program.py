"""Exported MIR program: types, constants, control flow graphs."""
import json
from terms import *
from values import *

NONE_T = ()


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = {int(k): v for k, v in d["types"].items()}
        self.rawfns = d["fns"]
        self.allocs = {int(k): v for k, v in d["allocs"].items()}
        self.roots = d["roots"]
        self.fns = {}
        self.kmem = {}
        self.by_s = {}
        for k, t in self.types.items():
            self.by_s.setdefault(t["s"], k)
        self.need_drop_memo = {}
        self.methods = None

    def method(self, orig, ty):
        """Resolved trait method for a Self type, if any call mentions it"""
        if self.methods is None:
            self.methods = {}
            for f in self.rawfns.values():
                for b in f["blocks"]:
                    t = b["t"]
                    if isinstance(t, dict) and "Call" in t:
                        c = t["Call"]["callee"]
                        if c and c.get("orig") and c.get("otargs"):
                            self.methods.setdefault((c["orig"], c["otargs"][0]), c)
        return self.methods.get((orig, ty))

    # -- types

    def ty(self, t):
        return self.types[t]

    def tname(self, t):
        return self.types[t]["s"]

    def int_info(self, t):
        """(bits, signed) for integer-like types"""
        k = self.types[t]["k"]
        if k == "uint":
            return self.types[t]["bits"], False
        if k == "int":
            return self.types[t]["bits"], True
        if k == "char":
            return 32, False
        return None

    def int_range(self, t):
        b, s = self.int_info(t)
        if self.types[t]["k"] == "char":
            return 0, 0x10FFFF
        if s:
            return -(1 << (b - 1)), (1 << (b - 1)) - 1
        return 0, (1 << b) - 1

    def is_enum(self, t):
        x = self.types[t]
        return x["k"] == "adt" and x["kind"] == "Enum"

    def variant_discr(self, t, v):
        return int(self.types[t]["variants"][v]["d"])

    def field_tys(self, t, v=0):
        x = self.types[t]
        k = x["k"]
        if k == "adt":
            return [f["t"] for f in x["variants"][v]["f"]] if x["variants"] else []
        if k == "tuple":
            return x["e"]
        if k == "closure":
            return self.types[x["up"]]["e"]
        return []

    # -- constants

    def const_value(self, c):
        ty = c["ty"]
        k = c["k"]
        if k == "zst":
            return self.zst(ty)
        if k == "alloc":
            return self.decode(ty, c["alloc"]["bytes"], dict(map(tuple, c["alloc"]["prov"])), 0)
        if k == "ty" and c.get("v") is not None:
            return const(c["v"])
        return Opq(ty, "const")

    def zst(self, ty):
        x = self.types[ty]
        k = x["k"]
        if k == "fndef":
            return Fn(ty, x["callee"])
        if k == "array":
            return Seq(x["e"], ())
        if k in ("tuple", "closure"):
            return Agg(ty, 0, [self.zst(t) for t in self.field_tys(ty)])
        if k == "adt":
            if x["kind"] == "Struct":
                return Agg(ty, 0, [self.zst(t) for t in self.field_tys(ty)])
            if len(x["variants"]) == 1:
                return Agg(ty, 0, [self.zst(t) for t in self.field_tys(ty)])
        return Opq(ty, "zst")

    def decode(self, ty, b, prov, off):
        x = self.types[ty]
        k = x["k"]
        if k in ("uint", "int", "char"):
            n = (x["bits"] if k != "char" else 32) // 8
            v = 0
            for i in range(n):
                if b[off + i] < 0:
                    return UNINIT
                v |= b[off + i] << (8 * i)
            if k == "int" and v >> (8 * n - 1):
                v -= 1 << (8 * n)
            return const(v)
        if k == "bool":
            return TRUE if b[off] else FALSE
        if k == "float":
            n = 4 if "32" in x["f"] else 8
            return Opq(ty, ("float", bytes(v & 255 for v in b[off : off + n])))
        if k in ("ref", "ptr"):
            e = self.types[x["e"]]
            if off not in prov:
                return Opq(ty, "rawaddr")
            al = prov[off]
            if e["k"] in ("slice", "str"):
                n = 0
                for i in range(8):
                    n |= b[off + 8 + i] << (8 * i)
                return Ptr(("k", al, x["e"]), (), (ZERO, const(n)))
            if e["k"] == "dyn":
                return Opq(ty, ("dyn", al))
            return Ptr(("k", al, x["e"]), ())
        if k == "fnptr":
            if off in prov:
                a = self.allocs[prov[off]]
                if a["k"] == "fn":
                    return Fn(ty, a["callee"])
            return Opq(ty, "fnptr")
        lay = x.get("layout")
        if lay is None:
            return Opq(ty, "const")
        if k == "array":
            n = x["n"]
            if n == 0:
                return Seq(x["e"], ())
            sz = lay["size"] // n
            return Seq(x["e"], [("E", self.decode(x["e"], b, prov, off + i * sz)) for i in range(n)])
        if k in ("tuple", "closure") or k == "adt" and x["kind"] == "Struct":
            offs = self.field_offsets(lay)
            fs = self.field_tys(ty)
            if offs is None or len(offs) < len(fs):
                return Opq(ty, "const") if fs else Agg(ty, 0, ())
            if k == "adt" and x["name"].endswith("vec::Vec"):
                # only empty vectors can be constants
                return VecV(Seq(x["args"][0], ()))
            return Agg(ty, 0, [self.decode(t, b, prov, off + o) for t, o in zip(fs, offs)])
        if k == "adt" and x["kind"] == "Enum":
            return self.decode_enum(ty, x, lay, b, prov, off)
        return Opq(ty, "const")

    def field_offsets(self, lay):
        f = lay["fields"]
        if isinstance(f, dict) and "Arbitrary" in f:
            return [self.sz(o) for o in f["Arbitrary"]["offsets"]]
        return None

    def sz(self, o):
        if isinstance(o, dict):
            if "num_bits" in o:
                return o["num_bits"] // 8
            if "raw" in o:
                return o["raw"]
        return o

    def decode_enum(self, ty, x, lay, b, prov, off):
        v = lay["variants"]
        if isinstance(v, dict) and "Single" in v:
            vi = v["Single"]["index"]
            offs = self.field_offsets(lay) or []
            fs = self.field_tys(ty, vi)
            return Agg(ty, vi, [self.decode(t, b, prov, off + o) for t, o in zip(fs, offs)])
        m = v["Multiple"]
        tagoff = self.field_offsets(lay)
        tagoff = tagoff[m["tag_field"]] if tagoff else 0
        tag = m["tag"]
        prim = tag[list(tag)[0]]["value"]
        if "Int" in prim:
            n = {"I8": 1, "I16": 2, "I32": 4, "I64": 8, "I128": 16}[prim["Int"]["length"]]
            isptr = False
        else:
            n, isptr = 8, True
        raw = 0
        und = False
        for i in range(n):
            if b[off + tagoff + i] < 0:
                und = True
                break
            raw |= b[off + tagoff + i] << (8 * i)
        if und:
            return UNINIT
        enc = m["tag_encoding"]
        if enc == "Direct":
            vi = None
            for i, q in enumerate(x["variants"]):
                if int(q["d"]) & ((1 << (8 * n)) - 1) == raw:
                    vi = i
        else:
            e = enc["Niche"]
            lo = e["niche_variants"]["start"]
            hi = e["niche_variants"]["end"]
            st = e["niche_start"]
            d = (raw - st) & ((1 << (8 * n)) - 1)
            if isptr and (off + tagoff) in prov:
                vi = e["untagged_variant"]
            elif d <= hi - lo:
                vi = lo + d
            else:
                vi = e["untagged_variant"]
        fs = self.field_tys(ty, vi)
        vl = m["variants"][vi]
        offs = vl.get("offsets") if isinstance(vl, dict) else None
        if offs is None and isinstance(vl, dict):
            offs = self.field_offsets(vl)
        else:
            offs = [self.sz(o) for o in offs]
        return Agg(ty, vi, [self.decode(t, b, prov, off + o) for t, o in zip(fs, offs or [])])

    def kvalue(self, root):
        """Value of constant memory"""
        v = self.kmem.get(root)
        if v is None:
            _, al, ty = root
            a = self.allocs[al]
            x = self.types[ty]
            if "alloc" not in a:
                v = Opq(ty, "static")
            elif x["k"] in ("slice", "str"):
                by, prov = a["alloc"]["bytes"], dict(map(tuple, a["alloc"]["prov"]))
                if x["k"] == "str":
                    et, sz = self.by_s.get("u8"), 1
                else:
                    et = x["e"]
                    sz = self.size_of(et)
                n = len(by) // sz if sz else 0
                v = Seq(et, [("E", self.decode(et, by, prov, i * sz)) for i in range(n)])
            else:
                v = self.decode(ty, a["alloc"]["bytes"], dict(map(tuple, a["alloc"]["prov"])), 0)
            self.kmem[root] = v
        return v

    def size_of(self, ty):
        x = self.types[ty]
        k = x["k"]
        if k in ("uint", "int"):
            return x["bits"] // 8
        if k == "bool":
            return 1
        if k == "char":
            return 4
        if k in ("ref", "ptr"):
            e = self.types[x["e"]]["k"]
            return 16 if e in ("slice", "str", "dyn") else 8
        if k == "fnptr":
            return 8
        if k == "float":
            return 4 if "32" in x["f"] else 8
        if k in ("fndef",):
            return 0
        if x.get("layout"):
            return x["layout"]["size"]
        raise Undecided("size of %s" % x["s"])

    # -- functions

    def fn(self, key):
        f = self.fns.get(key)
        if f is None:
            raw = self.rawfns.get(key)
            if raw is None:
                return None
            f = Func(self, key, raw)
            self.fns[key] = f
        return f

    def need_drop(self, key):
        """Does drop glue reach a Drop implementation of gift or harness?"""
        r = self.need_drop_memo.get(key)
        if r is not None:
            return r
        self.need_drop_memo[key] = False
        raw = self.rawfns.get(key)
        r = False
        if raw is not None:
            if raw["krate"] in ("gift", "harness") and "Drop" in raw["name"] and raw["path"].endswith("::drop"):
                r = True
            elif "drop" in raw["path"]:
                for b in raw["blocks"]:
                    t = b["t"]
                    if isinstance(t, dict):
                        c = None
                        if "Drop" in t:
                            c = t["Drop"].get("callee")
                        elif "Call" in t:
                            c = t["Call"].get("callee")
                        if c and c.get("key") and self.need_drop(c["key"]):
                            r = True
        self.need_drop_memo[key] = r
        return r


BINOPS = None


class Func:
    def __init__(self, prog, key, raw):
        self.prog = prog
        self.key = key
        self.name = raw["name"]
        self.path = raw["path"]
        self.krate = raw["krate"]
        self.nargs = raw["nargs"]
        self.spread = raw["spread"]
        self.file = raw["file"]
        self.line = raw["line"]
        self.end_line = raw["end_line"]
        self.locals = raw["locals"]
        self.names = {int(k): v for k, v in raw["names"].items()}
        self.targs = raw["targs"]
        self.rawconsts = raw["consts"]
        self.kcache = {}
        self.blocks = []
        for b in raw["blocks"]:
            st = [(self.stmt(s), l) for s, l in b["s"]]
            self.blocks.append((st, self.term(b["t"]), b["l"], b["f"]))
        self.cfg()

    # places

    def place(self, p):
        ty = self.locals[p["local"]]
        out = []
        T = self.prog.types
        bx = False
        for q in p["projection"]:
            if q == "Deref":
                bx = False
                x = T[ty]
                if x["k"] in ("ref", "ptr"):
                    ty = x["e"]
                elif x["k"] == "adt" and x["name"].endswith("boxed::Box"):
                    ty = x["args"][0]
                out.append(("*",))
            elif "Field" in q:
                x = T[ty]
                if bx:
                    pass
                elif x["k"] == "adt" and x["name"].endswith("boxed::Box"):
                    # raw pointer inside of a box
                    bx = q["Field"][0] == 0
                    out.append(("bx",) if bx else ("f", q["Field"][0]))
                else:
                    out.append(("f", q["Field"][0]))
                ty = q["Field"][1]
            elif "Downcast" in q:
                out.append(("d", q["Downcast"]))
            elif "Index" in q:
                out.append(("I", q["Index"]))
                ty = T[ty]["e"]
            elif "ConstantIndex" in q:
                c = q["ConstantIndex"]
                out.append(("ci", c["offset"], c["min_length"], c["from_end"]))
                ty = T[ty]["e"]
            elif "Subslice" in q:
                c = q["Subslice"]
                out.append(("ss", c["from"], c["to"], c["from_end"]))
            else:
                out.append(("?", str(q)))
        return (p["local"], tuple(out), ty)

    def operand(self, o):
        if "Copy" in o:
            return ("p", self.place(o["Copy"]))
        if "Move" in o:
            return ("m", self.place(o["Move"]))
        if "Constant" in o:
            c = o["Constant"]["const_"]
            cid = str(c["id"])
            if cid not in self.kcache:
                rc = self.rawconsts.get(cid)
                if rc is None:
                    v, t = Opq(c["ty"], "const"), c["ty"]
                else:
                    v, t = self.prog.const_value(rc), rc["ty"]
                self.kcache[cid] = (v, t)
            return ("k", self.kcache[cid])
        # RuntimeChecks (ub_checks etc.): library-internal assertions are off
        return ("k", (FALSE, None))

    def op_ty(self, o):
        return o[1][2] if o[0] in ("p", "m") else o[1][1]

    def stmt(self, s):
        if isinstance(s, str):
            return ("nop",)
        (k, v), = s.items()
        if k == "Assign":
            return ("=", self.place(v[0]), self.rvalue(v[1]))
        if k == "StorageDead":
            return ("dead", v)
        if k == "SetDiscriminant":
            return ("setd", self.place(v["place"]), v["variant_index"])
        if k == "Intrinsic":
            (ik, iv), = v.items() if isinstance(v, dict) else ((v, None),)
            if ik == "Assume":
                return ("assume", self.operand(iv))
            if ik == "CopyNonOverlapping":
                return ("copy", self.operand(iv["src"]), self.operand(iv["dst"]), self.operand(iv["count"]))
            return ("?", "Intrinsic " + ik)
        if k in ("Retag", "PlaceMention", "FakeRead", "Coverage", "BackwardIncompatibleDropHint", "StorageLive"):
            return ("nop",)
        return ("?", k)

    def rvalue(self, r):
        (k, v), = r.items()
        if k == "Use":
            return ("use", self.operand(v[0]))
        if k == "CopyForDeref":
            return ("use", ("p", self.place(v)))
        if k == "Ref":
            return ("ref", self.place(v[2]))
        if k == "AddressOf":
            return ("ref", self.place(v[1]))
        if k in ("BinaryOp", "CheckedBinaryOp"):
            a, b = self.operand(v[1]), self.operand(v[2])
            return ("bin" if k == "BinaryOp" else "chk", v[0], a, b, self.op_ty(a), self.op_ty(b))
        if k == "UnaryOp":
            a = self.operand(v[1])
            return ("un", v[0], a, self.op_ty(a))
        if k == "Cast":
            ck = v[0] if isinstance(v[0], str) else json.dumps(v[0])
            a = self.operand(v[1])
            return ("cast", ck, a, self.op_ty(a), v[2])
        if k == "Aggregate":
            kind = v[0]
            ops = tuple(self.operand(o) for o in v[1])
            if isinstance(kind, str):
                return ("tup", ops)
            (kk, kv), = kind.items()
            if kk == "Adt":
                return ("adt", kv[1], kv[4] if len(kv) > 4 else None, ops)
            if kk == "Array":
                return ("arr", kv, ops)
            if kk == "Closure":
                return ("adt", 0, None, ops)
            if kk == "RawPtr":
                return ("rawptr", ops)
            return ("?", kk)
        if k == "Discriminant":
            return ("discr", self.place(v))
        if k == "Repeat":
            n = v[1]["kind"]
            cnt = None
            if isinstance(n, dict) and "Value" in n:
                cnt = 0
                for i, b in enumerate(n["Value"][1]["bytes"]):
                    cnt |= b << (8 * i)
            return ("rep", self.operand(v[0]), cnt)
        if k == "Len":
            return ("len", self.place(v))
        return ("?", k)

    def term(self, t):
        if isinstance(t, str):
            return (t,)
        (k, v), = t.items()
        if k == "Goto":
            return ("Goto", v["target"])
        if k == "SwitchInt":
            o = self.operand(v["discr"])
            return ("SwitchInt", o, self.op_ty(o), tuple((int(a), b) for a, b in v["targets"]["branches"]), v["targets"]["otherwise"])
        if k == "Call":
            args = tuple(self.operand(a) for a in v["args"])
            f = self.operand(v["func"])
            return ("Call", v["callee"], args, self.place(v["destination"]), v["target"], f, tuple(self.op_ty(a) for a in args))
        if k == "Drop":
            return ("Drop", self.place(v["place"]), v["target"], v.get("callee"), v.get("ty"))
        if k == "Assert":
            m = v["msg"]
            mk_ = m if isinstance(m, str) else list(m)[0]
            if isinstance(m, dict) and mk_ == "Overflow":
                mk_ = "Overflow(%s)" % m["Overflow"][0]
            return ("Assert", self.operand(v["cond"]), v["expected"], mk_, v["target"])
        if k in ("Resume", "Abort", "Unreachable"):
            return (k,)
        return ("?", k)

    # control flow

    def succs(self, b):
        t = self.blocks[b][1]
        k = t[0]
        if k == "Goto":
            return [t[1]]
        if k == "SwitchInt":
            return [x for _, x in t[3]] + [t[4]]
        if k == "Call":
            return [t[4]] if t[4] is not None else []
        if k == "Drop":
            return [t[2]]
        if k == "Assert":
            return [t[4]]
        return []

    def cfg(self):
        n = len(self.blocks)
        self.succ = [self.succs(b) for b in range(n)]
        order = []
        seen = set([0])
        stack = [(0, iter(self.succ[0]))]
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                stack.pop()
        order.reverse()
        self.order = order
        self.rpo = {b: i for i, b in enumerate(order)}
        pred = {b: [] for b in order}
        for b in order:
            for s in self.succ[b]:
                pred[s].append(b)
        self.pred = pred
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                new = None
                for p in pred[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = new, p
                            while x != y:
                                while self.rpo[x] > self.rpo[y]:
                                    x = idom[x]
                                while self.rpo[y] > self.rpo[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self.idom = idom

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]

        self.loops = {}
        for b in order:
            for s in self.succ[b]:
                if self.rpo[s] <= self.rpo[b]:
                    if not dom(s, b):
                        self.irreducible = True
                        continue
                    body = self.loops.setdefault(s, set([s]))
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(pred[x])
        self._live = None

    @property
    def live_in(self):
        if self._live is None:
            self.liveness()
        return self._live

    def liveness(self):
        """Locals live on entry of each loop header; borrowed locals count as live"""
        borrowed = set()
        use = {}
        dfn = {}

        def uses_place(pl, acc):
            acc.add(pl[0])
            for q in pl[1]:
                if q[0] == "I":
                    acc.add(q[1])

        def uses_op(o, acc):
            if o[0] in ("p", "m"):
                uses_place(o[1], acc)

        def rv_uses(r, acc):
            for x in r[1:]:
                walk(x, acc)

        def walk(x, acc):
            if isinstance(x, tuple):
                if len(x) == 2 and x[0] in ("p", "m") and isinstance(x[1], tuple):
                    uses_place(x[1], acc)
                elif len(x) == 3 and isinstance(x[0], int) and isinstance(x[1], tuple) and not isinstance(x[2], tuple):
                    uses_place(x, acc)
                elif x and x[0] == "k" and len(x) == 2:
                    return
                else:
                    for y in x:
                        walk(y, acc)

        for b in self.order:
            u, d = set(), set()

            def use_(s):
                for x in s:
                    if x not in d:
                        u.add(x)

            st, t, _, _ = self.blocks[b]
            for s, _ in st:
                if s[0] == "=":
                    a = set()
                    rv_uses(s[2], a)
                    if s[2][0] == "ref":
                        pl = s[2][1]
                        if not any(q[0] == "*" for q in pl[1]):
                            borrowed.add(pl[0])
                    use_(a)
                    if s[1][1]:
                        a = set()
                        uses_place(s[1], a)
                        use_(a)
                    else:
                        d.add(s[1][0])
                elif s[0] == "dead":
                    d.add(s[1])
                else:
                    a = set()
                    walk(s[1:], a)
                    use_(a)
            a = set()
            if t[0] == "Call":
                walk(t[2], a)
                walk(t[5], a)
                use_(a)
                if t[3][1]:
                    a = set()
                    uses_place(t[3], a)
                    use_(a)
                else:
                    d.add(t[3][0])
            else:
                walk(t[1:], a)
                use_(a)
            if t[0] == "Return":
                use_({0})
            use[b], dfn[b] = u, d
        live = {b: set() for b in self.order}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.order):
                o = set()
                for s in self.succ[b]:
                    o |= live[s]
                n = use[b] | (o - dfn[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        self._live = {h: live[h] | borrowed for h in self.order}
