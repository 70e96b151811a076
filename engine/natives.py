"""Meaning of library functions which are not analysed from their MIR."""
from terms import *
from facts import Infeasible, FOCUS
from values import *
from seqs import seq_len, clen

BY_PATH = {}
BY_ORIG = {}
BY_INTR = {}


def path(*ps):
    def d(f):
        for p in ps:
            BY_PATH[p] = f
        return f
    return d


def orig(*ps):
    """Trait method by trait path and type constructor of self"""
    def d(f):
        for p in ps:
            BY_ORIG[p] = f
        return f
    return d


def intr(*ps):
    def d(f):
        for p in ps:
            BY_INTR[p] = f
        return f
    return d


PANICS = (
    "core::panicking::",
    "std::rt::panic",
    "std::rt::begin_panic",
    "core::option::unwrap_failed",
    "core::option::expect_failed",
    "core::result::unwrap_failed",
    "std::option::unwrap_failed",
    "std::option::expect_failed",
    "std::result::unwrap_failed",
    "core::slice::index::slice_index_fail",
    "std::alloc::handle_alloc_error",
    "std::process::abort",
    "core::slice::copy_from_slice::len_mismatch_fail",
    "std::panicking::",
    "core::num::int_log10::panic",
)

BAILS = ("core::str::slice_error_fail",)


def lookup(I, c):
    p = c["path"]
    i = c.get("intr")
    if i and i in BY_INTR:
        return BY_INTR[i]
    if p.startswith(PANICS):
        return panic_call
    f = BY_PATH.get(p)
    if f is not None:
        return f
    o = c.get("orig")
    if o and o in BY_ORIG:
        t = self_kind(I, c)
        f = BY_ORIG[o].get(t) if isinstance(BY_ORIG[o], dict) else None
        if f is not None:
            return f
    if o in TRAITS:
        k = self_kind(I, c)
        f = TRAITS[o].get(k)
        if f is not None:
            return f
    if p.startswith("harness::ai::"):
        return AI.get(p[len("harness::ai::"):])
    return None


def self_kind(I, c):
    """Constructor name of the Self type of a trait method"""
    ts = c.get("otargs") or []
    if not ts:
        return None
    t = ts[0]
    if isinstance(t, dict):
        t = t.get("ty")
    if t is None:
        return None
    return kind_of(I, t)


def kind_of(I, t):
    x = I.T[t]
    k = x["k"]
    if k == "adt":
        return x["name"]
    if k in ("uint", "int"):
        return "int"
    return k


TRAITS = {}


def trait(o, *kinds):
    def d(f):
        for k in kinds:
            TRAITS.setdefault(o, {})[k] = f
        return f
    return d


# --- helpers --------------------------------------------------------------------


def opt_ty(I, t):
    return t


def some(dty, v):
    return Agg(dty, 1, (v,))


def none(dty):
    return Agg(dty, 0, ())


def vec_at(I, st, p):
    """Vec value behind a pointer"""
    v = I.get(st, Ptr(p.root, p.path, None))
    if isinstance(v, VecV):
        return v
    if isinstance(v, Opq):
        raise Undecided("opaque vector")
    raise Undecided("vector expected, found %r" % (v,))


def put_vec(I, st, p, seq):
    I.put(st, Ptr(p.root, p.path, None), VecV(seq))


def deref_all(I, st, v):
    """Follow references to the value"""
    while isinstance(v, Ptr):
        if v.meta is not None:
            return I.slice_of(st, v)
        v = I.get(st, v)
    return v


def slice_ptr(I, st, p):
    """Slice pointer (with meta) for a reference to array, slice or vector"""
    if p.meta is not None:
        return p
    v = I.get(st, p)
    if isinstance(v, VecV):
        return Ptr(p.root, p.path + (("vs",),), (ZERO, seq_len(v.seq)))
    if isinstance(v, Seq):
        return Ptr(p.root, p.path, (ZERO, seq_len(v)))
    raise Undecided("slice of %r" % (v,))


def decide(st, c):
    """True/False for a condition; asks for a case split"""
    if c.kind == "true" or st.facts.proves(c):
        return True
    if c.kind == "false" or st.facts.disproves(c):
        return False
    raise NeedSplit(c)


def u(I):
    return unit(I.unit_ty)


def unitv(I):
    return unit(I.unit_ty)


# --- panics ---------------------------------------------------------------------


def panic_call(I, st, fr, args, c, tys, line, dty):
    I.note_site("panic", "call of " + short(c["path"]), fr, line)
    I.pend.append(("panic", "call of " + short(c["path"]), fr, line, I.trace and st.facts.show()[:3000] or ""))
    I.flush()
    return None


def short(p):
    return p


# --- harness intrinsics -----------------------------------------------------------

AI = {}


def ai(*ns):
    def d(f):
        for n in ns:
            AI[n] = f
        return f
    return d


@ai("any_u8", "any_u16", "any_u32", "any_usize", "any_i32", "any_u64")
def _any(I, st, fr, args, c, tys, line, dty):
    lo, hi = I.prog.int_range(dty)
    return fresh(c["path"].split("::")[-1][4:], lo, hi)


@ai("any_bool")
def _anyb(I, st, fr, args, c, tys, line, dty):
    return c_ne(fresh("b", 0, 1))


@ai("any_bytes", "any_byte_vecs", "any_vec", "any_val")
def _anyv(I, st, fr, args, c, tys, line, dty):
    b = base_sym(fresh_name("in"))
    return I.q.elem(dty, b, ZERO)


@ai("any_entries")
def _anyentries(I, st, fr, args, c, tys, line, dty):
    """Any vectors of 1 to 255 bytes"""
    b = base_sym(fresh_name("in"), ((("len",), 1, 255, False),))
    return VecV(Seq(I.T[dty]["args"][0], [("S", b, ZERO, fresh("n", 0, LEN_MAX))]))


@ai("any_blocks")
def _anyblocks(I, st, fr, args, c, tys, line, dty):
    """Any value whose sub-blocks have 1 to 255 bytes"""
    b = base_sym(fresh_name("in"), tuple((p, 1, 255, False) for p in entry_paths(I, dty, (), 0)))
    return I.q.elem(dty, b, ZERO)


def entry_paths(I, ty, path, depth):
    x = I.T[ty]
    if x["k"] == "tuple" or x["k"] == "adt" and depth < 5:
        if x["k"] == "adt" and x["name"].endswith("vec::Vec"):
            e = x["args"][0]
            if I.T[e]["k"] == "adt" and I.T[e]["name"].endswith("vec::Vec"):
                yield path + ("[]", "len")
            else:
                yield from entry_paths(I, e, path + ("[]",), depth + 1)
            return
        enum = I.prog.is_enum(ty)
        for v in range(len(x["variants"]) if x["k"] == "adt" else 1):
            for i, t in enumerate(I.prog.field_tys(ty, v)):
                yield from entry_paths(I, t, path + (((v, i) if enum else i),), depth + 1)


@ai("assume")
def _assume(I, st, fr, args, c, tys, line, dty):
    if not st.assume(args[0]):
        return None
    return u(I)


LZW = (-1, "lzw")


def init_ghosts(I, st):
    t = [i for i, x in I.T.items() if x["s"] == "u8"]
    if t:
        st.mem[LZW] = VecV(Seq(t[0], ()))


def lzw_ghost(I, st):
    return st.mem[LZW]


@ai("decoded")
def _decoded(I, st, fr, args, c, tys, line, dty):
    v = lzw_ghost(I, st)
    st.mem[LZW] = VecV(Seq(v.seq.ety, ()))
    return v


@ai("check")
def _check(I, st, fr, args, c, tys, line, dty):
    name = str_of(I, st, args[0])
    cond = args[1]
    I.note_site("check", name, fr, line)
    if not st.facts.proves(cond):
        I.pend.append(("check", name, fr, line, I.why(st, cond)))
        if I.trace:
            I.dump_state(st, "check " + name)
        # not assumed afterwards: later obligations must not be masked
        return u(I)
    st.assume(cond)
    return u(I)


@ai("reach")
def _reach(I, st, fr, args, c, tys, line, dty):
    """Marks a program point which must be reachable"""
    name = str_of(I, st, args[0])
    I.note_site("reach", name, fr, line)
    return u(I)


@ai("focus")
def _focus(I, st, fr, args, c, tys, line, dty):
    """Look for invariants about the element at an index"""
    st.mem[(-1, "focus")] = Nat("focus", (args[0], args[1]))
    a = st.facts.norm(args[1]).atom()
    if a is not None:
        FOCUS.add(a.id)
    return u(I)


@ai("split")
def _split(I, st, fr, args, c, tys, line, dty):
    """Case distinction"""
    decide(st, args[0])
    return u(I)


@ai("io_error")
def _ioerr(I, st, fr, args, c, tys, line, dty):
    return Nat("ioerr", (FALSE, args[0]))


@ai("io_interrupted")
def _iointr(I, st, fr, args, c, tys, line, dty):
    return Nat("ioerr", (TRUE, ZERO))


@ai("io_tag")
def _iotag(I, st, fr, args, c, tys, line, dty):
    e = deref_all(I, st, args[0])
    if isinstance(e, Nat) and e.kind == "ioerr":
        return e.f[1]
    # an error made by the program
    return const((1 << 32) - 1)


def str_of(I, st, p):
    b = I.q.const_u8s(deref_all(I, st, p))
    return b.decode() if b is not None else "?"


# --- io errors --------------------------------------------------------------------


@path("std::io::Error::kind")
def _kind(I, st, fr, args, c, tys, line, dty):
    e = deref_all(I, st, args[0])
    vs = I.T[dty]["variants"]
    iv = [i for i, v in enumerate(vs) if v["n"] == "Interrupted"][0]
    if isinstance(e, Nat) and e.kind == "ioerr":
        if decide(st, e.f[0]):
            return Agg(dty, iv, ())
        z = Lazy(dty, base_sym(fresh_name("kind")), ZERO)
        st.assume(c_ne(I.q.tag(z), const(iv)))
        return z
    z = Lazy(dty, base_sym(fresh_name("kind")), ZERO)
    return z


@path("std::io::Error::is_interrupted", "core::io::error::is_interrupted")
def _isint(I, st, fr, args, c, tys, line, dty):
    e = deref_all(I, st, args[0])
    if isinstance(e, Nat) and e.kind == "ioerr":
        return e.f[0]
    return c_ne(fresh("b", 0, 1))


@path("std::io::Error::new", "std::io::Error::other", "std::io::Error::from_raw_os_error")
def _ionew(I, st, fr, args, c, tys, line, dty):
    return Nat("ioerr", (FALSE, const((1 << 32) - 1)))


@trait("std::convert::From::from", "std::io::Error")
def _iofrom(I, st, fr, args, c, tys, line, dty):
    if tys[0] == dty:
        return args[0]
    return Nat("ioerr", (FALSE, const((1 << 32) - 1)))


# --- logging and formatting -----------------------------------------------------------


@path("log::max_level")
def _maxlevel(I, st, fr, args, c, tys, line, dty):
    # logging has no influence on the program; the enabled branch is analysed
    z = Lazy(dty, base_sym(fresh_name("level")), ZERO)
    return z


@path("log::__private_api::log", "log::__private_api::loc", "log::__private_api::enabled")
def _log(I, st, fr, args, c, tys, line, dty):
    if I.T[dty]["k"] == "bool":
        return c_ne(fresh("b", 0, 1))
    if I.T[dty]["k"] == "tuple":
        return u(I)
    return opaque_of(I, st, dty)


def opaque_of(I, st, ty):
    """Opaque value; references to opaque values are real places"""
    if I.T[ty]["k"] == "ref":
        root = ("g", "opaque", I.T[ty]["e"])
        st.mem[root] = Opq(I.T[ty]["e"], "log")
        return Ptr(root, (), None)
    return Opq(ty, "log")


@trait("std::cmp::PartialOrd::le", "log::Level")
def _loglevel(I, st, fr, args, c, tys, line, dty):
    return c_ne(fresh("b", 0, 1))


def _opaque(I, st, fr, args, c, tys, line, dty):
    return Opq(dty, "fmt")


for _p in (
    "core::fmt::rt::Argument::new_debug",
    "core::fmt::rt::Argument::new_display",
    "core::fmt::rt::Argument::new_lower_hex",
    "core::fmt::rt::Argument::new_upper_hex",
    "std::fmt::Arguments::from_str",
    "std::fmt::Arguments::new",
    "std::fmt::Arguments::new_const",
    "std::fmt::Arguments::new_v1",
    "std::fmt::Arguments::from_str_nonconst",
):
    BY_PATH[_p] = _opaque


# text shown by the last formatting call: an error or a name
SHOWN = (-1, "shown")


def show(I, st, what, dty):
    if SHOWN in st.mem and st.mem[SHOWN].kind != "nothing":
        what = Nat("more", ())
    st.mem[SHOWN] = what
    return Lazy(dty, base_sym(fresh_name("fmt")), ZERO)


@trait("std::fmt::Display::fmt", "std::io::Error", "std::num::TryFromIntError")
def _showerr(I, st, fr, args, c, tys, line, dty):
    return show(I, st, Nat("display", (thin(args[0]),)), dty)


@trait("std::fmt::Debug::fmt", "std::io::Error", "std::num::TryFromIntError")
def _showdbg(I, st, fr, args, c, tys, line, dty):
    return show(I, st, Nat("debug", (thin(args[0]),)), dty)


@path("std::fmt::Formatter::write_str", "std::fmt::Formatter::pad")
def _showstr(I, st, fr, args, c, tys, line, dty):
    return show(I, st, Nat("text", (str_of(I, st, args[1]),)), dty)


@path("std::fmt::Formatter::debug_tuple_field1_finish")
def _showtup(I, st, fr, args, c, tys, line, dty):
    return show(I, st, Nat("text", (str_of(I, st, args[1]),)), dty)


@trait("std::fmt::Display::fmt", "str")
def _showds(I, st, fr, args, c, tys, line, dty):
    return show(I, st, Nat("text", (str_of(I, st, args[0]),)), dty)


def thin(p):
    return p.f[0] if isinstance(p, Nat) and p.kind == "dynptr" else p


@ai("show_start")
def _showstart(I, st, fr, args, c, tys, line, dty):
    st.mem[SHOWN] = Nat("nothing", ())
    return u(I)


@ai("shown_error")
def _shownerr(I, st, fr, args, c, tys, line, dty):
    return TRUE if st.mem.get(SHOWN) == Nat("display", (thin(args[0]),)) else FALSE


@ai("shown_name")
def _shownname(I, st, fr, args, c, tys, line, dty):
    return TRUE if st.mem.get(SHOWN) == Nat("text", (str_of(I, st, args[0]),)) else FALSE


@ai("same_error")
def _same(I, st, fr, args, c, tys, line, dty):
    return TRUE if args[0] == args[1] else FALSE


# --- types -----------------------------------------------------------------------


@path("std::any::TypeId::of")
def _typeid(I, st, fr, args, c, tys, line, dty):
    return Nat("typeid", (const(c["targs"][0]),))


@trait("std::cmp::PartialEq::eq", "std::any::TypeId")
def _typeid_eq(I, st, fr, args, c, tys, line, dty):
    a, b = deref_all(I, st, args[0]), deref_all(I, st, args[1])
    return TRUE if a == b else FALSE


# --- vectors -----------------------------------------------------------------------


@path("std::vec::Vec::new", "std::vec::Vec::with_capacity", "std::string::String::new")
def _vnew(I, st, fr, args, c, tys, line, dty):
    return VecV(Seq(I.T[dty]["args"][0], ()))


@trait("std::default::Default::default", "std::vec::Vec")
def _vdef(I, st, fr, args, c, tys, line, dty):
    return VecV(Seq(I.T[dty]["args"][0], ()))


@path("std::vec::from_elem")
def _fromelem(I, st, fr, args, c, tys, line, dty):
    n = args[1]
    if st.facts.proves(c_eq(n)):
        return VecV(Seq(I.T[dty]["args"][0], ()))
    return VecV(I.q.norm(I.T[dty]["args"][0], [("F", args[0], n)], st.facts))


@path("std::vec::Vec::push", "std::vec::Vec::push_within_capacity")
def _push(I, st, fr, args, c, tys, line, dty):
    v = vec_at(I, st, args[0])
    put_vec(I, st, args[0], I.q.norm(v.seq.ety, v.seq.ch + (("E", args[1]),), st.facts))
    # a vector never has more than isize::MAX elements
    st.assume(c_le(seq_len(v.seq) + 1, const(LEN_MAX)))
    return u(I)


@path("std::vec::Vec::pop")
def _pop(I, st, fr, args, c, tys, line, dty):
    v = vec_at(I, st, args[0])
    n = seq_len(v.seq)
    if decide(st, c_eq(n)):
        return none(dty)
    x = I.q.get(v.seq, n - 1, st.facts)
    put_vec(I, st, args[0], I.q.slice(v.seq, ZERO, n - 1, st.facts))
    return some(dty, x)


@path("std::vec::Vec::len", "core::slice::len", "std::string::String::len", "core::str::len")
def _len(I, st, fr, args, c, tys, line, dty):
    p = args[0]
    if isinstance(p, Ptr) and p.meta is not None:
        return p.meta[1]
    return seq_len(I.seq_at(st, p)[0])


@path("std::vec::Vec::is_empty", "core::slice::is_empty", "core::str::is_empty", "std::string::String::is_empty")
def _isempty(I, st, fr, args, c, tys, line, dty):
    return c_eq(_len(I, st, fr, args, c, tys, line, dty))


@path("std::vec::Vec::capacity")
def _cap(I, st, fr, args, c, tys, line, dty):
    n = seq_len(I.seq_at(st, args[0])[0])
    x = fresh("cap", 0, LEN_MAX)
    st.assume(c_le(n, x))
    return x


@path("std::vec::Vec::clear")
def _clear(I, st, fr, args, c, tys, line, dty):
    v = vec_at(I, st, args[0])
    put_vec(I, st, args[0], Seq(v.seq.ety, ()))
    return u(I)


@path("std::vec::Vec::truncate")
def _trunc(I, st, fr, args, c, tys, line, dty):
    v = vec_at(I, st, args[0])
    n = seq_len(v.seq)
    if decide(st, c_lt(args[1], n)):
        put_vec(I, st, args[0], I.q.slice(v.seq, ZERO, args[1], st.facts))
    return u(I)


@path("std::vec::Vec::shrink_to_fit", "std::vec::Vec::reserve", "std::vec::Vec::reserve_exact", "std::vec::Vec::shrink_to")
def _nop(I, st, fr, args, c, tys, line, dty):
    return u(I)


@path("std::vec::Vec::extend_from_slice")
def _extend(I, st, fr, args, c, tys, line, dty):
    v = vec_at(I, st, args[0])
    s = I.slice_of(st, slice_ptr(I, st, args[1]))
    put_vec(I, st, args[0], I.q.norm(v.seq.ety, v.seq.ch + s.ch, st.facts))
    st.assume(c_le(seq_len(v.seq) + seq_len(s), const(LEN_MAX)))
    return u(I)


@path("std::vec::Vec::append")
def _append(I, st, fr, args, c, tys, line, dty):
    v = vec_at(I, st, args[0])
    w = vec_at(I, st, args[1])
    put_vec(I, st, args[1], Seq(v.seq.ety, ()))
    put_vec(I, st, args[0], I.q.norm(v.seq.ety, v.seq.ch + w.seq.ch, st.facts))
    return u(I)


@path("std::vec::Vec::resize")
def _resize(I, st, fr, args, c, tys, line, dty):
    v = vec_at(I, st, args[0])
    n = seq_len(v.seq)
    if decide(st, c_le(args[1], n)):
        put_vec(I, st, args[0], I.q.slice(v.seq, ZERO, args[1], st.facts))
    else:
        put_vec(I, st, args[0], I.q.norm(v.seq.ety, v.seq.ch + (("F", args[2], args[1] - n),), st.facts))
    return u(I)


@path("std::vec::Vec::insert")
def _insert(I, st, fr, args, c, tys, line, dty):
    v = vec_at(I, st, args[0])
    n = seq_len(v.seq)
    if not I.require(st, c_le(args[1], n), "insertion index", fr, line):
        return None
    l, r = I.q.split(v.seq, args[1], st.facts)
    put_vec(I, st, args[0], I.q.norm(v.seq.ety, l + [("E", args[2])] + r, st.facts))
    return u(I)


@path("std::vec::Vec::remove", "std::vec::Vec::swap_remove")
def _remove(I, st, fr, args, c, tys, line, dty):
    v = vec_at(I, st, args[0])
    n = seq_len(v.seq)
    if not I.require(st, c_lt(args[1], n), "removal index", fr, line):
        return None
    x = I.q.get(v.seq, args[1], st.facts)
    if c["path"].endswith("swap_remove"):
        raise Undecided("swap_remove")
    l, r = I.q.split(v.seq, args[1], st.facts)
    _, r = I.q.split(Seq(v.seq.ety, r), ONE, st.facts)
    put_vec(I, st, args[0], I.q.norm(v.seq.ety, l + r, st.facts))
    return x


@path("std::vec::Vec::into_boxed_slice")
def _boxed(I, st, fr, args, c, tys, line, dty):
    return BoxV(args[0].seq)


@path("std::boxed::Box::new_uninit")
def _newuninit(I, st, fr, args, c, tys, line, dty):
    return BoxV(Nat("mu", (UNINIT,)))


@path("std::slice::into_vec", "std::slice::hack::into_vec", "std::vec::Vec::from_boxed_slice")
def _intovec(I, st, fr, args, c, tys, line, dty):
    v = args[0]
    if isinstance(v, BoxV):
        v = v.v
    if isinstance(v, Nat) and v.kind == "mu":
        v = v.f[0]
    if isinstance(v, Seq):
        return VecV(v)
    raise Undecided("into_vec of %r" % (v,))


BY_PATH["std::boxed::box_assume_init_into_vec_unsafe"] = _intovec
BY_PATH["std::slice::hack::into_vec"] = _intovec


@path("std::slice::to_vec", "std::slice::hack::to_vec")
def _tovec(I, st, fr, args, c, tys, line, dty):
    s = I.slice_of(st, slice_ptr(I, st, args[0]))
    return VecV(s)


@trait("std::convert::From::from", "std::vec::Vec")
def _vecfrom(I, st, fr, args, c, tys, line, dty):
    v = args[0]
    if isinstance(v, Ptr):
        return VecV(I.slice_of(st, slice_ptr(I, st, v)))
    if isinstance(v, Seq):
        return VecV(v)
    if isinstance(v, BoxV) and isinstance(v.v, Seq):
        return VecV(v.v)
    if isinstance(v, VecV):
        return v
    raise Undecided("Vec::from")


@trait("std::borrow::ToOwned::to_owned", "slice")
def _toowned(I, st, fr, args, c, tys, line, dty):
    return VecV(I.slice_of(st, slice_ptr(I, st, args[0])))


@trait("std::ops::Deref::deref", "std::vec::Vec")
@trait("std::ops::DerefMut::deref_mut", "std::vec::Vec")
def _vderef(I, st, fr, args, c, tys, line, dty):
    return slice_ptr(I, st, args[0])


@path("std::vec::Vec::as_slice", "std::vec::Vec::as_mut_slice", "core::array::as_slice", "std::array::as_slice", "std::array::as_mut_slice")
def _asslice(I, st, fr, args, c, tys, line, dty):
    return slice_ptr(I, st, args[0])


@trait("std::convert::AsRef::as_ref", "std::vec::Vec", "slice", "array")
@trait("std::convert::AsMut::as_mut", "std::vec::Vec", "slice", "array")
@trait("std::borrow::Borrow::borrow", "std::vec::Vec", "array")
def _asref(I, st, fr, args, c, tys, line, dty):
    if I.T[I.T[dty]["e"]]["k"] in ("slice",):
        return slice_ptr(I, st, args[0])
    return args[0]


@trait("std::ops::Deref::deref", "std::boxed::Box")
@trait("std::ops::DerefMut::deref_mut", "std::boxed::Box")
def _bderef(I, st, fr, args, c, tys, line, dty):
    p = args[0]
    v = I.get(st, p)
    if isinstance(v, BoxV):
        m = (ZERO, seq_len(v.v)) if isinstance(v.v, Seq) else None
        return Ptr(p.root, p.path + (("*b",),), m)
    raise Undecided("box deref")


@path("std::boxed::Box::new", "std::boxed::box_new")
def _boxnew(I, st, fr, args, c, tys, line, dty):
    return BoxV(args[0])


@trait("std::convert::From::from", "std::boxed::Box")
def _boxfrom(I, st, fr, args, c, tys, line, dty):
    v = args[0]
    if isinstance(v, VecV):
        return BoxV(v.seq)
    if isinstance(v, Ptr) and v.meta is not None:
        return BoxV(I.slice_of(st, v))
    if isinstance(v, Seq):
        return BoxV(v)
    return BoxV(v)


@path("std::slice::into_boxed_slice")
def _ibs(I, st, fr, args, c, tys, line, dty):
    return BoxV(args[0].seq)


# clone of vectors and boxes: elements of gift's types are plain data


@trait("std::clone::Clone::clone", "std::vec::Vec", "std::boxed::Box", "array", "std::string::String", "int", "bool", "tuple")
def _clone(I, st, fr, args, c, tys, line, dty):
    p = args[0]
    v = I.get(st, p)
    check_plain(I, dty)
    return v


def check_plain(I, ty, seen=None):
    """Clone of a container is only a copy if its elements are plain data"""
    x = I.T[ty]
    k = x["k"]
    if k in ("uint", "int", "bool", "char", "float"):
        return
    if k == "array" or k == "slice":
        return check_plain(I, x["e"])
    if k == "adt":
        if x["name"] in ("std::vec::Vec", "std::boxed::Box", "std::option::Option"):
            for a in x["args"][:1]:
                check_plain(I, a)
            return
        key = ("clone", ty)
        r = I.nat_cache.get(key)
        if r is None:
            r = derived_clone(I, ty)
            I.nat_cache[key] = r
        if r:
            return
    if k == "tuple":
        for e in x["e"]:
            check_plain(I, e)
        return
    if k in ("ref", "ptr", "fndef", "fnptr"):
        return
    raise Undecided("clone of " + x["s"])


def derived_clone(I, ty):
    """Only types known to have a field-wise clone"""
    x = I.T[ty]
    nm = x["name"]
    # any gift or pix type whose Clone body is a copy of each field; the body
    # itself is analysed where it is called directly
    return nm.startswith(("gift::block::", "pix::", "gift::Step", "gift::private", "std::marker::PhantomData", "gift::lzw"))


# --- slices --------------------------------------------------------------------------


def index_any(I, st, fr, p, ix, line, mut, dty):
    """&p[ix]"""
    p = slice_ptr(I, st, p)
    lo, n = p.meta
    if isinstance(ix, Poly):
        if not I.require(st, c_lt(ix, n), "index out of bounds", fr, line):
            return None
        return Ptr(p.root, p.path + (("i", st.facts.norm(lo + ix)),), None)
    a, b = range_of(I, st, ix, n)
    if a != ZERO:
        if not I.require(st, c_le(a, b), "slice start after end", fr, line):
            return None
    if b is not n:
        if not I.require(st, c_le(b, n), "slice end out of bounds", fr, line):
            return None
    return Ptr(p.root, p.path, (st.facts.norm(lo + a), st.facts.norm(b - a)))


def range_of(I, st, ix, n):
    if isinstance(ix, (Agg, Lazy)):
        if isinstance(ix, Lazy):
            ix = I.q.expand(ix, st.facts)
        nm = I.T[ix.ty]["name"].split("::")[-1]
        if nm == "Range":
            return ix.f[0], ix.f[1]
        if nm == "RangeTo":
            return ZERO, ix.f[0]
        if nm == "RangeFrom":
            return ix.f[0], n
        if nm == "RangeFull":
            return ZERO, n
        if nm == "RangeInclusive":
            return ix.f[0], ix.f[1] + 1
        if nm == "RangeToInclusive":
            return ZERO, ix.f[0] + 1
    raise Undecided("index by %r" % (ix,))


def _index(I, st, fr, args, c, tys, line, dty):
    if kind_of(I, I.T[tys[0]]["e"]) in ("std::vec::Vec", "slice", "array", "str", "std::string::String"):
        return index_any(I, st, fr, args[0], args[1], line, False, dty)
    raise Undecided("index")


for _k in ("std::vec::Vec", "slice", "array"):
    trait("std::ops::Index::index", _k)(_index)
    trait("std::ops::IndexMut::index_mut", _k)(_index)


@path("core::slice::get", "core::slice::get_mut")
def _get(I, st, fr, args, c, tys, line, dty):
    p = slice_ptr(I, st, args[0])
    lo, n = p.meta
    ix = args[1]
    if isinstance(ix, Poly):
        if decide(st, c_lt(ix, n)):
            return some(dty, Ptr(p.root, p.path + (("i", st.facts.norm(lo + ix)),), None))
        return none(dty)
    a, b = range_of(I, st, ix, n)
    if decide(st, c_and(c_le(a, b), c_le(b, n))):
        return some(dty, Ptr(p.root, p.path, (lo + a, b - a)))
    return none(dty)


@path("core::slice::get_unchecked", "core::slice::get_unchecked_mut")
def _getu(I, st, fr, args, c, tys, line, dty):
    p = slice_ptr(I, st, args[0])
    lo, n = p.meta
    ix = args[1]
    if isinstance(ix, Poly):
        return Ptr(p.root, p.path + (("i", st.facts.norm(lo + ix)),), None)
    a, b = range_of(I, st, ix, n)
    return Ptr(p.root, p.path, (lo + a, b - a))


@path("core::slice::first", "core::slice::first_mut")
def _first(I, st, fr, args, c, tys, line, dty):
    p = slice_ptr(I, st, args[0])
    if decide(st, c_eq(p.meta[1])):
        return none(dty)
    return some(dty, Ptr(p.root, p.path + (("i", p.meta[0]),), None))


@path("core::slice::last", "core::slice::last_mut")
def _last(I, st, fr, args, c, tys, line, dty):
    p = slice_ptr(I, st, args[0])
    if decide(st, c_eq(p.meta[1])):
        return none(dty)
    return some(dty, Ptr(p.root, p.path + (("i", st.facts.norm(p.meta[0] + p.meta[1] - 1)),), None))


@path("core::slice::split_at", "core::slice::split_at_mut")
def _splitat(I, st, fr, args, c, tys, line, dty):
    p = slice_ptr(I, st, args[0])
    lo, n = p.meta
    if not I.require(st, c_le(args[1], n), "split index", fr, line):
        return None
    return Agg(dty, 0, (Ptr(p.root, p.path, (lo, args[1])), Ptr(p.root, p.path, (lo + args[1], n - args[1]))))


@path("core::slice::split_first")
def _splitfirst(I, st, fr, args, c, tys, line, dty):
    p = slice_ptr(I, st, args[0])
    lo, n = p.meta
    if decide(st, c_eq(n)):
        return none(dty)
    t = I.prog.field_tys(dty, 1)[0]
    return some(dty, Agg(t, 0, (Ptr(p.root, p.path + (("i", lo),), None), Ptr(p.root, p.path, (lo + 1, n - 1)))))


@path("core::slice::copy_from_slice", "core::slice::clone_from_slice")
def _copyfrom(I, st, fr, args, c, tys, line, dty):
    d, s = slice_ptr(I, st, args[0]), slice_ptr(I, st, args[1])
    if not I.require(st, c_eq(d.meta[1], s.meta[1]), "slice length mismatch", fr, line):
        return None
    write_slice(I, st, d, I.slice_of(st, s).ch)
    return u(I)


def write_slice(I, st, d, chunks):
    q, _ = I.seq_at(st, d)
    new = I.q.replace(q, d.meta[0], d.meta[1], chunks, st.facts)
    loc = Ptr(d.root, d.path, None)
    v = I.get(st, loc)
    I.put(st, loc, VecV(new) if isinstance(v, VecV) else new)


@path("core::slice::fill")
def _fill(I, st, fr, args, c, tys, line, dty):
    d = slice_ptr(I, st, args[0])
    write_slice(I, st, d, [("F", args[1], d.meta[1])])
    return u(I)


@path("core::slice::reverse")
def _reverse(I, st, fr, args, c, tys, line, dty):
    d = slice_ptr(I, st, args[0])
    q = I.slice_of(st, d)
    n = st.facts.norm(d.meta[1])
    if not n.t and n.c <= 64:
        ch = [("E", I.q.get(q, const(n.c - 1 - i), st.facts)) for i in range(n.c)]
    elif len(q.ch) == 1 and q.ch[0][0] == "F":
        return u(I)
    else:
        b = derived_base(I, st, "rev", q)
        ch = [("S", b, ZERO, n)]
    write_slice(I, st, d, ch)
    return u(I)


def derived_base(I, st, kind, q):
    """Contents which are some permutation of q: only element bounds are kept"""
    info = I.q.info(q, st.facts, (), 0)
    return base_sym(fresh_name(kind), tuple(x[:3] + (False,) for x in info))


@path("core::slice::swap")
def _swap(I, st, fr, args, c, tys, line, dty):
    p = slice_ptr(I, st, args[0])
    lo, n = p.meta
    for x in args[1:]:
        if not I.require(st, c_lt(x, n), "index out of bounds", fr, line):
            return None
    a = Ptr(p.root, p.path + (("i", lo + args[1]),), None)
    b = Ptr(p.root, p.path + (("i", lo + args[2]),), None)
    x, y = I.get(st, a), I.get(st, b)
    I.put(st, a, y)
    I.put(st, b, x)
    return u(I)


def _pair(I, st, args):
    """Sequences behind two (references to) sequences"""
    a, b = args
    return seq_val(I, st, a), seq_val(I, st, b)


def seq_val(I, st, p):
    v = p
    while True:
        if isinstance(v, Ptr):
            if v.meta is not None:
                return I.slice_of(st, v)
            v = I.get(st, v)
        elif isinstance(v, VecV):
            return v.seq
        elif isinstance(v, BoxV) and isinstance(v.v, Seq):
            return v.v
        elif isinstance(v, Seq):
            return v
        else:
            raise Undecided("sequence expected: %r" % (v,))


SEQK = ("std::vec::Vec", "slice", "array", "std::string::String", "str")


def is_seq_ty(I, t):
    x = I.T[t]
    if x["k"] in ("slice", "array", "str"):
        return True
    if x["k"] == "adt" and x["name"] in ("std::vec::Vec", "std::string::String"):
        return True
    if x["k"] in ("ref",):
        return is_seq_ty(I, x["e"])
    if x["k"] == "adt" and x["name"] == "std::boxed::Box":
        return I.T[x["args"][0]]["k"] in ("slice", "str")
    return False


def _seq_eq(I, st, fr, args, c, tys, line, dty):
    a, b = _pair(I, st, args)
    return I.q.eq(a, b, st.facts)


def _seq_ne(I, st, fr, args, c, tys, line, dty):
    a, b = _pair(I, st, args)
    return c_not(I.q.eq(a, b, st.facts))


for _k in SEQK:
    trait("std::cmp::PartialEq::eq", _k)(_seq_eq)
    trait("std::cmp::PartialEq::ne", _k)(_seq_ne)


def _int_cmp(op):
    def f(I, st, fr, args, c, tys, line, dty):
        a, b = deref_all(I, st, args[0]), deref_all(I, st, args[1])
        t = tys[0]
        while I.T[t]["k"] == "ref":
            t = I.T[t]["e"]
        return I.binop(st, op, a, b, t, t, dty)
    return f


for _o, _op in (("eq", "Eq"), ("ne", "Ne")):
    trait("std::cmp::PartialEq::" + _o, "int", "bool", "char")(_int_cmp(_op))
for _o, _op in (("lt", "Lt"), ("le", "Le"), ("gt", "Gt"), ("ge", "Ge")):
    trait("std::cmp::PartialOrd::" + _o, "int", "char")(_int_cmp(_op))
trait("std::cmp::Ord::cmp", "int")(_int_cmp("Cmp"))


@trait("std::cmp::PartialOrd::partial_cmp", "int")
def _pcmp(I, st, fr, args, c, tys, line, dty):
    ot = I.prog.field_tys(dty, 1)[0]
    return some(dty, _int_cmp("Cmp")(I, st, fr, args, c, tys, line, ot))


@trait("std::cmp::Ord::min", "int")
def _min(I, st, fr, args, c, tys, line, dty):
    I.note_const(args[0], args[1])
    return minmax(st, args[0], args[1], True)


@trait("std::cmp::Ord::max", "int")
def _max(I, st, fr, args, c, tys, line, dty):
    I.note_const(args[0], args[1])
    return minmax(st, args[0], args[1], False)


def minmax(st, a, b, mn):
    F = st.facts
    if F.proves(c_le(a, b)):
        return a if mn else b
    if F.proves(c_le(b, a)):
        return b if mn else a
    raise NeedSplit(c_le(a, b))


@path("std::cmp::min", "std::cmp::max")
def _cmpmin(I, st, fr, args, c, tys, line, dty):
    if isinstance(args[0], Poly):
        I.note_const(args[0], args[1])
        return minmax(st, args[0], args[1], c["path"].endswith("min"))
    raise Undecided("min of non-integers")


@trait("std::cmp::Ord::clamp", "int")
def _clamp(I, st, fr, args, c, tys, line, dty):
    x, lo, hi = args
    if not I.require(st, c_le(lo, hi), "clamp bounds", fr, line):
        return None
    I.note_const(x, lo)
    I.note_const(x, hi)
    return minmax(st, minmax(st, x, lo, False), hi, True)


@trait("std::clone::Clone::clone", "ref")
def _refclone(I, st, fr, args, c, tys, line, dty):
    return I.get(st, args[0])


@trait("std::default::Default::default", "int")
def _intdef(I, st, fr, args, c, tys, line, dty):
    return ZERO


@trait("std::default::Default::default", "bool")
def _booldef(I, st, fr, args, c, tys, line, dty):
    return FALSE


# --- numbers -------------------------------------------------------------------------


@trait("std::convert::From::from", "int")
def _ifrom(I, st, fr, args, c, tys, line, dty):
    v = args[0]
    if isinstance(v, Cond):
        return b2i(v)
    if isinstance(v, Poly) and c["path"].startswith("std::convert::num"):
        return v
    fn = I.prog.fn(c["key"]) if c.get("key") else None
    if fn is not None:
        return I.call_fn(fr, st, fn, args, line)
    raise Undecided("From for integer")


@trait("std::convert::TryFrom::try_from", "int")
def _itryfrom(I, st, fr, args, c, tys, line, dty):
    if not isinstance(args[0], Poly):
        raise Undecided("try_from")
    ok_t, err_t = I.prog.field_tys(dty, 0)[0], I.prog.field_tys(dty, 1)[0]
    lo, hi = I.prog.int_range(ok_t)
    if decide(st, c_and(c_le(const(lo), args[0]), c_le(args[0], const(hi)))):
        return Agg(dty, 0, (args[0],))
    return Agg(dty, 1, (Opq(err_t, "TryFromIntError"),))


@path("core::num::next_power_of_two")
def _npot(I, st, fr, args, c, tys, line, dty):
    x = st.facts.norm(args[0])
    bits, _ = I.prog.int_info(dty)
    if not x.t:
        v = 1
        while v < x.c:
            v *= 2
        if v >= 1 << bits:
            I.require(st, FALSE, "next_power_of_two overflow", fr, line)
            return None
        return const(v)
    # case distinction on the exponent
    lo, hi = st.facts.rng(x)
    k = 0
    while (1 << k) < max(lo, 1):
        k += 1
    while k < bits:
        cnd = c_le(x, const(1 << k))
        if st.facts.proves(cnd):
            return const(1 << k)
        if not st.facts.disproves(cnd):
            raise NeedSplit(cnd)
        k += 1
    I.require(st, FALSE, "next_power_of_two overflow", fr, line)
    return None


@path("core::num::trailing_zeros", "core::num::leading_zeros", "core::num::count_ones", "core::num::ilog2", "core::num::is_power_of_two")
def _tz(I, st, fr, args, c, tys, line, dty):
    x = st.facts.norm(args[0])
    nm = c["path"].split("::")[-1]
    bits, _ = I.prog.int_info(tys[0])
    if not x.t:
        if nm == "trailing_zeros":
            return const(bits if x.c == 0 else (x.c & -x.c).bit_length() - 1)
        if nm == "leading_zeros":
            return const(bits - x.c.bit_length())
        if nm == "count_ones":
            return const(bin(x.c).count("1"))
        if nm == "is_power_of_two":
            return TRUE if x.c and x.c & (x.c - 1) == 0 else FALSE
        if nm == "ilog2":
            if not I.require(st, c_ne(x), "ilog2 of zero", fr, line):
                return None
            return const(x.c.bit_length() - 1)
    if nm in ("leading_zeros", "ilog2"):
        lo, hi = st.facts.rng(x)
        k = max(lo, 0).bit_length()
        while k <= bits:
            cnd = c_lt(x, const(1 << k))
            if st.facts.proves(cnd):
                if nm == "ilog2":
                    if not I.require(st, c_ne(x), "ilog2 of zero", fr, line):
                        return None
                    return const(k - 1)
                return const(bits - k)
            if not st.facts.disproves(cnd):
                raise NeedSplit(cnd)
            k += 1
    if nm == "trailing_zeros" and x.atom() is not None and x.atom().kind == "pow2":
        return x.atom().args[0]
    lo, hi = st.facts.rng(x)
    if hi - lo <= 300:
        # few values: decide each
        for k in range(lo, hi + 1):
            cnd = c_eq(x, const(k))
            if st.facts.disproves(cnd):
                continue
            raise NeedSplit(cnd)
    if nm == "is_power_of_two":
        return c_ne(fresh("b", 0, 1))
    return fresh(nm, 0, bits)


def _arith_native(nm):
    def f(I, st, fr, args, c, tys, line, dty):
        F = st.facts
        t = tys[0]
        lo, hi = I.prog.int_range(t)
        a, b = args[0], args[1]
        kind, op = nm.split("_", 1)
        if op == "add":
            r = a + b
        elif op == "sub":
            r = a - b
        elif op == "mul":
            r = F.norm(a) * F.norm(b)
        else:
            raise Undecided(nm)
        inr = c_and(c_le(const(lo), r), c_le(r, const(hi)))
        if kind == "wrapping":
            return I.wrap(r, t, F)
        if kind == "saturating":
            if decide(st, c_lt(r, const(lo))):
                return const(lo)
            if decide(st, c_lt(const(hi), r)):
                return const(hi)
            return r
        if kind == "checked":
            if decide(st, inr):
                return some(dty, r)
            return none(dty)
        if kind == "overflowing":
            return Agg(dty, 0, (I.wrap(r, t, F), c_not(inr)))
        if kind == "unchecked":
            st.assume(inr)
            return r
        raise Undecided(nm)
    return f


for _k in ("wrapping", "saturating", "checked", "overflowing", "unchecked"):
    for _o in ("add", "sub", "mul"):
        BY_PATH["core::num::%s_%s" % (_k, _o)] = _arith_native("%s_%s" % (_k, _o))


@path("core::num::checked_shl", "core::num::checked_shr", "core::num::wrapping_shl", "core::num::wrapping_shr")
def _cshl(I, st, fr, args, c, tys, line, dty):
    nm = c["path"].split("::")[-1]
    bits, _ = I.prog.int_info(tys[0])
    op = "Shl" if nm.endswith("shl") else "Shr"
    if nm.startswith("checked"):
        if decide(st, c_lt(args[1], const(bits))):
            return some(dty, I.arith(st, op, args[0], args[1], tys[0]))
        return none(dty)
    return I.arith(st, op, args[0], args[1], tys[0])


@path("core::num::pow")
def _pow(I, st, fr, args, c, tys, line, dty):
    a, b = st.facts.norm(args[0]), st.facts.norm(args[1])
    lo, hi = I.prog.int_range(dty)
    if not a.t and a.c == 2:
        r = p_pow2(b)
    elif not b.t and b.c < 8:
        r = ONE
        for _ in range(b.c):
            r = r * a
    else:
        raise Undecided("pow")
    if not I.require(st, c_le(r, const(hi)), "pow overflow", fr, line):
        return None
    return r


@path("core::num::abs_diff")
def _absdiff(I, st, fr, args, c, tys, line, dty):
    if decide(st, c_le(args[0], args[1])):
        return args[1] - args[0]
    return args[0] - args[1]


@path("core::num::div_ceil")
def _divceil(I, st, fr, args, c, tys, line, dty):
    b = st.facts.norm(args[1])
    if not b.t and b.c > 0:
        return p_div(args[0] + (b.c - 1), b.c)
    raise Undecided("div_ceil")


@path("core::num::to_le_bytes", "core::num::to_be_bytes", "core::num::to_ne_bytes")
def _tobytes(I, st, fr, args, c, tys, line, dty):
    bits, signed = I.prog.int_info(tys[0])
    if signed:
        raise Undecided("to_bytes")
    x = st.facts.norm(args[0])
    bs = [("E", p_mod(p_div(x, 1 << (8 * i)), 256)) for i in range(bits // 8)]
    if c["path"].endswith("be_bytes"):
        bs.reverse()
    return I.q.norm(I.T[dty]["e"], bs, st.facts)


@path("core::num::from_le_bytes", "core::num::from_be_bytes", "core::num::from_ne_bytes")
def _frombytes(I, st, fr, args, c, tys, line, dty):
    bits, signed = I.prog.int_info(dty)
    if signed:
        raise Undecided("from_bytes")
    n = bits // 8
    r = ZERO
    for i in range(n):
        j = i if not c["path"].endswith("be_bytes") else n - 1 - i
        r = r + I.q.get(args[0], const(j), st.facts).scale(1 << (8 * i))
    return r


@path("core::num::swap_bytes")
def _swapb(I, st, fr, args, c, tys, line, dty):
    bits, _ = I.prog.int_info(dty)
    x = st.facts.norm(args[0])
    n = bits // 8
    r = ZERO
    for i in range(n):
        r = r + p_mod(p_div(x, 1 << (8 * i)), 256).scale(1 << (8 * (n - 1 - i)))
    return r


def divrem(F, a, b, op):
    """Division by a term; a, b >= 0 and b > 0 (checked before)"""
    # a multiple of b
    q = exact_quotient(a, b)
    if q is not None:
        return q if op == "Div" else ZERO
    lo, hi = F.rng(a)
    x = atom_poly(mk("divt", (a, b), 0, max(hi, 0)))
    return x if op == "Div" else a - x * b


def exact_quotient(a, b):
    if len(b.t) == 1 and b.c == 0 and a.c == 0 and b.t[0][1] == 1:
        m = b.t[0][0]
        out = {}
        for mm, k in a.t:
            l = list(mm)
            for x in m:
                if x not in l:
                    return None
                l.remove(x)
            mm2 = tuple(l)
            if mm2:
                out[mm2] = k
            else:
                return None if out or len(a.t) > 1 else const(k)
        return Poly(tuple(sorted(out.items())), 0)
    return None


def _divt_lemmas(a):
    x = atom_poly(a)
    n, d = a.args
    return [x * d - n, n - x * d - d + 1]


LEMMA_HOOK["divt"] = _divt_lemmas


# --- pointers and memory -----------------------------------------------------------------


@path("std::mem::replace")
def _memreplace(I, st, fr, args, c, tys, line, dty):
    v = I.get(st, args[0])
    I.put(st, args[0], args[1])
    return v


@path("std::mem::swap")
def _memswap(I, st, fr, args, c, tys, line, dty):
    a, b = I.get(st, args[0]), I.get(st, args[1])
    I.put(st, args[0], b)
    I.put(st, args[1], a)
    return u(I)


@path("std::mem::drop", "std::mem::forget")
def _memdrop(I, st, fr, args, c, tys, line, dty):
    if c["path"].endswith("forget"):
        return u(I)
    fn = I.prog.fn(c["key"]) if c.get("key") else None
    if fn is None:
        raise Undecided("drop")
    return I.call_fn(fr, st, fn, args, line)


@path("std::ptr::read", "std::ptr::read_volatile", "std::ptr::mut_ptr::read", "std::ptr::const_ptr::read")
def _ptrread(I, st, fr, args, c, tys, line, dty):
    return I.get(st, args[0])


@path("std::ptr::write", "std::ptr::mut_ptr::write")
def _ptrwrite(I, st, fr, args, c, tys, line, dty):
    I.put(st, args[0], args[1])
    return u(I)


def ptr_offset(a, n):
    if isinstance(a, Ptr) and a.path and a.path[-1][0] == "i":
        return Ptr(a.root, a.path[:-1] + (("i", a.path[-1][1] + n),), a.meta)
    if isinstance(a, Ptr) and n == ZERO:
        return a
    raise Undecided("pointer offset")


def copy_raw(I, st, src, dst, n):
    raise Undecided("raw copy")


# --- intrinsics ----------------------------------------------------------------------------


@intr("discriminant_value")
def _discr(I, st, fr, args, c, tys, line, dty):
    v = I.get(st, args[0])
    if isinstance(v, (Agg, Lazy)):
        if I.prog.is_enum(v.ty):
            if isinstance(v, Lazy) and I.simple_discr(v.ty):
                return st.facts.norm(I.q.tag(v))
            return const(I.prog.variant_discr(v.ty, I.q.variant(v, st.facts)))
        return ZERO
    if isinstance(v, Opq):
        return fresh("discr", 0, 255)
    raise Undecided("discriminant of %r" % (v,))


@intr("size_of", "align_of", "min_align_of", "pref_align_of")
def _sizeof(I, st, fr, args, c, tys, line, dty):
    if c.get("intr") == "size_of":
        return const(I.prog.size_of(c["targs"][0]))
    return fresh("align", 1, 16)


@intr("assert_inhabited", "assert_zero_valid", "assert_mem_uninitialized_valid", "cold_path", "assume")
def _inop(I, st, fr, args, c, tys, line, dty):
    if c.get("intr") == "assume" and isinstance(args[0], Cond):
        if not st.assume(args[0]):
            return None
    return u(I)


@intr("likely", "unlikely", "black_box")
def _ident(I, st, fr, args, c, tys, line, dty):
    return args[0]


@intr("unreachable", "abort")
def _unreach(I, st, fr, args, c, tys, line, dty):
    return None


@intr("needs_drop")
def _needsdrop(I, st, fr, args, c, tys, line, dty):
    return FALSE


@intr("type_id")
def _ti(I, st, fr, args, c, tys, line, dty):
    return Nat("typeid", (const(c["targs"][0]),))


@intr("three_way_compare")
def _twc(I, st, fr, args, c, tys, line, dty):
    return I.binop(st, "Cmp", args[0], args[1], tys[0], tys[1], dty)


@intr("wrapping_add", "wrapping_sub", "wrapping_mul", "saturating_add", "saturating_sub", "unchecked_add", "unchecked_sub", "unchecked_mul", "add_with_overflow", "sub_with_overflow", "mul_with_overflow")
def _iarith(I, st, fr, args, c, tys, line, dty):
    n = c["intr"]
    if n.endswith("_with_overflow"):
        n = "overflowing_" + n.split("_")[0]
    return _arith_native(n)(I, st, fr, args, c, tys, line, dty)


@intr("read_via_copy", "volatile_load")
def _rvc(I, st, fr, args, c, tys, line, dty):
    return I.get(st, args[0])


@intr("write_via_move", "volatile_store")
def _wvm(I, st, fr, args, c, tys, line, dty):
    I.put(st, args[0], args[1])
    return u(I)


@intr("transmute", "transmute_unchecked")
def _transmute(I, st, fr, args, c, tys, line, dty):
    return I.transmute(st, args[0], tys[0], dty)


@intr("select_unpredictable")
def _selun(I, st, fr, args, c, tys, line, dty):
    return args[1] if decide(st, args[0]) else args[2]


@intr("is_val_statically_known")
def _ivsk(I, st, fr, args, c, tys, line, dty):
    return FALSE


@intr("unchecked_div", "unchecked_rem", "exact_div", "unchecked_shl", "unchecked_shr")
def _udiv(I, st, fr, args, c, tys, line, dty):
    op = {"unchecked_div": "Div", "unchecked_rem": "Rem", "exact_div": "Div", "unchecked_shl": "Shl", "unchecked_shr": "Shr"}[c["intr"]]
    return I.arith(st, op, args[0], args[1], tys[0])


# --- iterators ---------------------------------------------------------------------------


@path("core::slice::iter", "core::slice::iter_mut")
def _iter(I, st, fr, args, c, tys, line, dty):
    return Nat("iter", (slice_ptr(I, st, args[0]),))


@trait("std::iter::IntoIterator::into_iter", "std::vec::Vec", "array")
def _intoiter(I, st, fr, args, c, tys, line, dty):
    v = args[0]
    if isinstance(v, VecV):
        return Nat("into", (v.seq, ZERO))
    if isinstance(v, Seq):
        return Nat("into", (v, ZERO))
    raise Undecided("into_iter of %r" % (v,))


@trait("std::iter::IntoIterator::into_iter", "ref")
def _refintoiter(I, st, fr, args, c, tys, line, dty):
    if is_seq_ty(I, tys[0]):
        return Nat("iter", (slice_ptr(I, st, args[0]),))
    if isinstance(args[0], Ptr):
        # an iterator by reference
        return args[0]
    raise Undecided("into_iter of reference")


@path("core::slice::chunks", "core::slice::chunks_mut")
def _chunks(I, st, fr, args, c, tys, line, dty):
    if not I.require(st, c_ne(args[1]), "chunk size is zero", fr, line):
        return None
    return Nat("chunks", (slice_ptr(I, st, args[0]), args[1]))


@path("core::slice::chunks_exact", "core::slice::chunks_exact_mut")
def _chunksx(I, st, fr, args, c, tys, line, dty):
    if not I.require(st, c_ne(args[1]), "chunk size is zero", fr, line):
        return None
    p = slice_ptr(I, st, args[0])
    return Nat("chunkse", (p, args[1]))


@path("core::slice::windows")
def _windows(I, st, fr, args, c, tys, line, dty):
    raise Undecided("windows")


def _mknat(kind, n):
    def f(I, st, fr, args, c, tys, line, dty):
        fs = [wrap_iter(I, a, t) for a, t in zip(args[:1], tys[:1])]
        return Nat(kind, fs + list(args[1:n]))
    return f


def wrap_iter(I, v, t):
    """Remember the type of iterators which are ordinary values"""
    if isinstance(v, Nat):
        return v
    return Nat("user", (v, Opq(t, "type")))


@path("std::iter::Iterator::zip")
def _zip(I, st, fr, args, c, tys, line, dty):
    b = args[1]
    bt = tys[1]
    ity = I.T[dty]["args"][1]
    if isinstance(b, Nat):
        pass
    elif ity == bt:
        b = wrap_iter(I, b, bt)
    else:
        # into_iter of the argument
        if isinstance(b, Ptr):
            b = Nat("iter", (slice_ptr(I, st, b),))
        elif isinstance(b, VecV):
            b = Nat("into", (b.seq, ZERO))
        elif isinstance(b, Seq):
            b = Nat("into", (b, ZERO))
        else:
            raise Undecided("zip with %s" % I.T[bt]["s"])
    return Nat("zip", (wrap_iter(I, args[0], tys[0]), b))


@path("std::iter::Iterator::enumerate")
def _enum(I, st, fr, args, c, tys, line, dty):
    return Nat("enum", (wrap_iter(I, args[0], tys[0]), ZERO))


@path("std::iter::Iterator::copied", "std::iter::Iterator::cloned")
def _copied(I, st, fr, args, c, tys, line, dty):
    return Nat("copied", (wrap_iter(I, args[0], tys[0]),))


@path("std::iter::Iterator::rev")
def _rev(I, st, fr, args, c, tys, line, dty):
    return Nat("rev", (wrap_iter(I, args[0], tys[0]),))


@path("std::iter::Iterator::take")
def _take(I, st, fr, args, c, tys, line, dty):
    return Nat("take", (wrap_iter(I, args[0], tys[0]), args[1]))


@path("std::iter::Iterator::skip")
def _skip(I, st, fr, args, c, tys, line, dty):
    return Nat("skip", (wrap_iter(I, args[0], tys[0]), args[1]))


@path("std::iter::Iterator::by_ref")
def _byref(I, st, fr, args, c, tys, line, dty):
    return args[0]


ITK = (
    "std::slice::Iter", "std::slice::IterMut", "std::slice::Chunks", "std::slice::ChunksMut",
    "std::slice::ChunksExact", "std::slice::ChunksExactMut", "std::iter::Zip", "std::iter::Enumerate",
    "std::iter::Copied", "std::iter::Cloned", "std::iter::Rev", "std::iter::Take", "std::iter::Skip", "std::vec::IntoIter",
    "std::array::IntoIter", "std::ops::Range", "std::ops::RangeInclusive",
)


@trait("std::iter::IntoIterator::into_iter", *ITK)
def _iditer(I, st, fr, args, c, tys, line, dty):
    return args[0]


def _next(I, st, fr, args, c, tys, line, dty):
    mem = dict(st.mem)
    try:
        outs = iter_next(I, st, fr, args[0], self_ty(c), line)
    except NeedSplit:
        # nothing may be taken twice
        st.mem = mem
        raise
    return [(s, none(dty) if v is None else some(dty, v)) for s, v in outs]


def self_ty(c):
    t = (c.get("otargs") or [None])[0]
    return t


for _k in ITK:
    trait("std::iter::Iterator::next", _k)(_next)


def iter_next(I, st, fr, loc, ty, line):
    """list of (state, item or None)"""
    it = I.get(st, loc)
    if isinstance(it, Agg):
        nm = I.T[it.ty]["name"] if I.T[it.ty]["k"] == "adt" else ""
        if nm == "std::ops::Range" and isinstance(it.f[0], Poly):
            a, b = it.f
            if decide(st, c_lt(a, b)):
                I.put(st, loc, Agg(it.ty, 0, (a + 1, b)))
                return [(st, a)]
            return [(st, None)]
        if nm == "std::ops::RangeInclusive" and isinstance(it.f[0], Poly):
            a, b, ex = it.f
            if decide(st, c_or(ex, c_lt(b, a))):
                return [(st, None)]
            if decide(st, c_lt(a, b)):
                I.put(st, loc, Agg(it.ty, 0, (a + 1, b, FALSE)))
            else:
                I.put(st, loc, Agg(it.ty, 0, (a, b, TRUE)))
            return [(st, a)]
        raise Undecided("iterator %r" % nm)
    if not isinstance(it, Nat):
        raise Undecided("iterator %r" % (it,))
    k = it.kind
    if k == "iter":
        p = it.f[0]
        lo, n = p.meta
        if decide(st, c_eq(n)):
            return [(st, None)]
        I.put(st, loc, Nat("iter", (Ptr(p.root, p.path, (lo + 1, n - 1)),)))
        return [(st, Ptr(p.root, p.path + (("i", st.facts.norm(lo)),), None))]
    if k == "into":
        q, i = it.f
        if decide(st, c_lt(i, seq_len(q))):
            v = I.q.get(q, i, st.facts)
            I.put(st, loc, Nat("into", (q, i + 1)))
            return [(st, v)]
        return [(st, None)]
    if k == "chunks":
        p, sz = it.f
        lo, n = p.meta
        if decide(st, c_eq(n)):
            return [(st, None)]
        m = sz if decide(st, c_le(sz, n)) else n
        I.put(st, loc, Nat("chunks", (Ptr(p.root, p.path, (lo + m, n - m)), sz)))
        return [(st, Ptr(p.root, p.path, (lo, m)))]
    if k == "chunkse":
        p, sz = it.f
        lo, n = p.meta
        if decide(st, c_lt(n, sz)):
            return [(st, None)]
        I.put(st, loc, Nat("chunkse", (Ptr(p.root, p.path, (lo + sz, n - sz)), sz)))
        return [(st, Ptr(p.root, p.path, (lo, sz)))]
    if k == "user":
        t = it.f[1].ty
        return user_next(I, st, fr, Ptr(loc.root, loc.path + (("n", 0),), None), t, line)
    if k == "zip":
        out = []
        for s, a in iter_next(I, st, fr, Ptr(loc.root, loc.path + (("n", 0),), None), None, line):
            if a is None:
                out.append((s, None))
                continue
            for s2, b in iter_next(I, s, fr, Ptr(loc.root, loc.path + (("n", 1),), None), None, line):
                out.append((s2, None if b is None else Agg(None, 0, (a, b))))
        return out
    if k == "enum":
        out = []
        for s, a in iter_next(I, st, fr, Ptr(loc.root, loc.path + (("n", 0),), None), None, line):
            if a is None:
                out.append((s, None))
                continue
            it = I.get(s, loc)
            I.put(s, loc, Nat("enum", (it.f[0], it.f[1] + 1)))
            out.append((s, Agg(None, 0, (it.f[1], a))))
        return out
    if k == "copied":
        out = []
        for s, a in iter_next(I, st, fr, Ptr(loc.root, loc.path + (("n", 0),), None), None, line):
            out.append((s, None if a is None else I.get(s, a)))
        return out
    if k == "take":
        if decide(st, c_eq(it.f[1])):
            return [(st, None)]
        I.put(st, loc, Nat("take", (it.f[0], it.f[1] - 1)))
        return iter_next(I, st, fr, Ptr(loc.root, loc.path + (("n", 0),), None), None, line)
    if k == "skip":
        if not decide(st, c_eq(it.f[1])):
            inner = it.f[0]
            if inner.kind == "iter":
                p = inner.f[0]
                lo, n = p.meta
                m = minmax(st, it.f[1], n, True)
                I.put(st, loc, Nat("skip", (Nat("iter", (Ptr(p.root, p.path, (lo + m, n - m)),)), ZERO)))
            else:
                raise Undecided("skip")
        return iter_next(I, st, fr, Ptr(loc.root, loc.path + (("n", 0),), None), None, line)
    if k == "rev":
        inner = it.f[0]
        if inner.kind == "iter":
            p = inner.f[0]
            lo, n = p.meta
            if decide(st, c_eq(n)):
                return [(st, None)]
            I.put(st, loc, Nat("rev", (Nat("iter", (Ptr(p.root, p.path, (lo, n - 1)),)),)))
            return [(st, Ptr(p.root, p.path + (("i", st.facts.norm(lo + n - 1)),), None))]
        if inner.kind == "user" and isinstance(inner.f[0], Agg):
            r = inner.f[0]
            if I.T[r.ty].get("name") == "std::ops::Range":
                a, b = r.f
                if decide(st, c_lt(a, b)):
                    I.put(st, loc, Nat("rev", (Nat("user", (Agg(r.ty, 0, (a, b - 1)), inner.f[1])),)))
                    return [(st, b - 1)]
                return [(st, None)]
        raise Undecided("rev")
    raise Undecided("iterator " + k)


def user_next(I, st, fr, loc, ty, line):
    v = I.get(st, loc)
    if isinstance(v, Agg) and I.T[v.ty]["k"] == "adt" and I.T[v.ty]["name"].startswith("std::ops::Range"):
        return iter_next(I, st, fr, loc, ty, line)
    c = I.prog.method("std::iter::Iterator::next", ty)
    if c is None:
        raise Undecided("next of " + I.T[ty]["s"])
    outs = I.call(fr, st, c, [loc], [None], line, None)
    res = []
    for s, o in outs:
        if isinstance(o, Lazy):
            raise Undecided("lazy iterator item")
        res.append((s, None if o.var == 0 else o.f[0]))
    return res


@path("std::iter::ExactSizeIterator::len")
def _esl(I, st, fr, args, c, tys, line, dty):
    it = I.get(st, args[0])
    if isinstance(it, Nat) and it.kind == "iter":
        return it.f[0].meta[1]
    raise Undecided("len of iterator")


trait("std::iter::ExactSizeIterator::len", "std::slice::Iter", "std::slice::IterMut")(_esl)


@trait("std::clone::Clone::clone", "std::slice::Iter", "std::iter::Zip", "std::slice::Chunks")
def _cloneiter(I, st, fr, args, c, tys, line, dty):
    return I.get(st, args[0])


@path("std::slice::Iter::as_slice", "std::slice::IterMut::into_slice")
def _itslice(I, st, fr, args, c, tys, line, dty):
    it = deref_all(I, st, args[0])
    return it.f[0]


# --- contracts of the LZW code (proved on their own by the r_lzw roots) -------------

STUBS = {}


def stub(*ps):
    def d(f):
        for p in ps:
            STUBS[p] = f
        return f
    return d


# result of a stub: interpret the function itself
INLINE = object()


def variant(I, ty, name):
    for i, v in enumerate(I.T[ty]["variants"]):
        if v["n"] == name:
            return i
    raise Undecided("no variant " + name)


def field_ty(I, ty, var, i):
    return I.prog.field_tys(ty, var)[i]


def result_of(I, dty, err=None):
    """Ok(()) or Err(error variant)"""
    if err is None:
        v = variant(I, dty, "Ok")
        t = field_ty(I, dty, v, 0)
        if not I.is_zst(t):
            raise Undecided("result type")
        return Agg(dty, v, (I.prog.zst(t),))
    v = variant(I, dty, "Err")
    t = field_ty(I, dty, v, 0)
    return Agg(dty, v, (Agg(t, variant(I, t, err), ()),))


def pre(I, st, name, cond, fr, line):
    I.note_site("check", name, fr, line)
    if not st.facts.proves(cond):
        I.pend.append(("check", name, fr, line, I.why(st, cond)))


EXACT = (-1, "exact")


@ai("short_loops")
def _short(I, st, fr, args, c, tys, line, dty):
    I.patient = True
    return u(I)


@ai("hasty_bounds")
def _hasty(I, st, fr, args, c, tys, line, dty):
    I.hasty = True
    return u(I)


@ai("exact_lzw")
def _exact_lzw(I, st, fr, args, c, tys, line, dty):
    st.mem[EXACT] = Nat("exact", ())
    I.rungs = 99
    I.plain = True
    if I.scout is None:
        I.scout = True
    return u(I)


@stub("gift::lzw::Decompressor::new", "gift::lzw::Compressor::new")
def _lzw_new(I, st, fr, args, c, tys, line, dty):
    if EXACT in st.mem:
        return INLINE
    m = args[0]
    for p in ("D01", "D18", "E06", "E07"):
        pre(I, st, p + " LZW code size is between 2 and 8", c_and(c_le(const(2), m), c_le(m, const(8))), fr, line)
    if "Decompressor" in I.T[dty]["s"]:
        st.mem[LZW] = VecV(Seq(lzw_ghost(I, st).seq.ety, ()))
    return I.q.elem(dty, base_sym(fresh_name("lzw")), ZERO)


def lzw_args(I, st, args):
    """Pointers to the coder and the output, and the input slice"""
    if len(args) != 3:
        raise Undecided("arguments of LZW coder")
    p, b, o = args
    if not isinstance(p, Ptr) or not isinstance(o, Ptr):
        raise Undecided("arguments of LZW coder")
    return p, deref_all(I, st, b), o, vec_at(I, st, o)


@stub("gift::lzw::Decompressor::decompress")
def _lzw_dec(I, st, fr, args, c, tys, line, dty):
    if EXACT in st.mem:
        return INLINE
    p, b, o, v = lzw_args(I, st, args)
    old = I.get(st, p)
    ty = old.ty
    new = I.q.elem(ty, base_sym(fresh_name("lzw")), ZERO)
    n = fresh("n", 0, LEN_MAX)
    new_ = ("S", base_sym(fresh_name("lzwout")), ZERO, n)
    out = Seq(v.seq.ety, v.seq.ch + (new_,))
    g = lzw_ghost(I, st)
    st.mem[LZW] = VecV(Seq(g.seq.ety, g.seq.ch + (new_,)))
    s2 = st.copy()
    for s in (st, s2):
        I.put(s, p, new)
        put_vec(I, s, o, out)
    return [(st, result_of(I, dty)), (s2, result_of(I, dty, "InvalidLzwData"))]


@stub("gift::lzw::Compressor::compress")
def _lzw_com(I, st, fr, args, c, tys, line, dty):
    """Appends bytes to the output"""
    if EXACT in st.mem:
        return INLINE
    p, b, o, v = lzw_args(I, st, args)
    I.put(st, p, I.q.elem(I.get(st, p).ty, base_sym(fresh_name("lzw")), ZERO))
    x = base_sym(fresh_name("lzwout"))
    n = fresh("n", 0, LEN_MAX)
    put_vec(I, st, o, Seq(v.seq.ety, v.seq.ch + (("S", x, ZERO, n),)))
    if COMP in st.mem:
        # not joined with states of other calls
        st.mem[COMP] = Nat("comp%d" % x.id, (VecV(Seq(v.seq.ety, (("S", x, ZERO, n),))), VecV(b)))
    return u(I)


@ai("keep_compressed")
def _keepcomp(I, st, fr, args, c, tys, line, dty):
    st.mem[COMP] = Nat("comp", ())
    return u(I)


# output and input of the last compression
COMP = (-1, "comp")


@ai("compressed")
def _compressed(I, st, fr, args, c, tys, line, dty):
    g = st.mem.get(COMP)
    if g is None or not g.f:
        raise Undecided("no compressed data")
    return g.f[0]


@ai("compressed_from")
def _compressed_from(I, st, fr, args, c, tys, line, dty):
    g = st.mem.get(COMP)
    if g is None or not g.f:
        raise Undecided("no compressed data")
    return g.f[1]


# --- loop count as a function of the application data (decided by A03) ----------------

LOOPS = (-1, "loops")


@ai("abstract_loop_count")
def _abstract_loop_count(I, st, fr, args, c, tys, line, dty):
    st.mem[LOOPS] = Nat("loops", ())
    return u(I)


def trim_ghosts(I, st):
    g = st.mem.get(LOOPS)
    if g is not None and g.f and not any(k != LOOPS and holds(v, g.f[0]) for k, v in st.mem.items()):
        st.mem[LOOPS] = Nat("loops", ())


def holds(v, x):
    """Whether x is part of v"""
    if v == x:
        return True
    if isinstance(v, (Agg, Nat)):
        return any(holds(y, x) for y in v.f)
    if isinstance(v, BoxV):
        return holds(v.v, x)
    return False


def unlazy(I, F, v):
    if isinstance(v, Lazy):
        v = I.q.expand(v, F)
    if isinstance(v, Agg):
        return Agg(v.ty, v.var, tuple(unlazy(I, F, x) for x in v.f))
    return v


@stub("gift::block::Application::loop_count")
def _loop_count(I, st, fr, args, c, tys, line, dty):
    """The last result is remembered"""
    g = st.mem.get(LOOPS)
    if g is None:
        return INLINE
    app = unlazy(I, st.facts, deref_all(I, st, args[0]))
    if g.f and g.f[0] == app:
        return g.f[1]
    v = variant(I, dty, "Some")
    some = Agg(dty, v, (fresh("loops", 0, 65535),))
    none = Agg(dty, 1 - v, ())
    s2 = st.copy()
    st.mem[LOOPS] = Nat("loops", (app, some))
    s2.mem[LOOPS] = Nat("loops", (app, none))
    return [(st, some), (s2, none)]


# --- models of frames and rasters (see harness/src/smon.rs) ----------------------------

WORLD = (-1, "world")


@ai("set_world")
def _set_world(I, st, fr, args, c, tys, line, dty):
    st.mem[WORLD] = args[0]
    return u(I)


@ai("world")
def _world(I, st, fr, args, c, tys, line, dty):
    p = st.mem.get(WORLD)
    if p is None:
        raise Undecided("raster or frame outside of a model")
    return p


@ai("raster_make")
def _raster_make(I, st, fr, args, c, tys, line, dty):
    return Agg(dty, 0, tuple(args))


@ai("raster_px")
def _raster_px(I, st, fr, args, c, tys, line, dty):
    p = args[0]
    return Ptr(p.root, p.path + (("f", 2),), None)


@ai("retype")
def _retype(I, st, fr, args, c, tys, line, dty):
    if tys[0] != dty:
        raise Undecided("conversion of pixels")
    return args[0]


@ai("opaque")
def _opaque(I, st, fr, args, c, tys, line, dty):
    return Opq(dty, ("opaque",))


@ai("junk_row")
def _junk_row(I, st, fr, args, c, tys, line, dty):
    e = I.T[dty]["args"][0]
    n, k, v = args
    v = explode(I, st.facts, v)
    j = Opq(e, JUNK)
    if st.facts.proves(c_le(n, k)):
        return VecV(Seq(e, [("F", j, n)]))
    return VecV(Seq(e, [("F", j, k), ("E", v), ("F", j, n - k - 1)]))


@ai("listed")
def _listed(I, st, fr, args, c, tys, line, dty):
    return explode(I, st.facts, args[0])


@ai("focus_pixel")
def _focus_pixel(I, st, fr, args, c, tys, line, dty):
    k, a, b = args
    la, lb = [], []
    int_leaves(explode(I, st.facts, a), la)
    int_leaves(explode(I, st.facts, b), lb)
    if len(la) != len(lb):
        raise Undecided("pixel in focus")
    st.mem[(-1, "pixel")] = Nat("pixel", (k, *la, *lb))
    return u(I)


@ai("focus_never")
def _focus_never(I, st, fr, args, c, tys, line, dty):
    k, a = args
    la = []
    int_leaves(explode(I, st.facts, a), la)
    st.mem[(-1, "pixel")] = Nat("pixel", (k, *la, *[const(-1) for _ in la]))
    return u(I)


def explode(I, F, v):
    """Same value, with the elements of its arrays listed"""
    if isinstance(v, Lazy):
        v = I.q.expand(v, F)
    if isinstance(v, Agg):
        return Agg(v.ty, v.var, tuple(explode(I, F, x) for x in v.f))
    if isinstance(v, Seq):
        n = F.norm(seq_len(v))
        if n.t:
            raise Undecided("array of unknown length")
        return Seq(v.ety, [("E", explode(I, F, I.q.get(v, const(i), F))) for i in range(n.c)])
    return v


def int_leaves(v, out):
    if isinstance(v, Poly):
        out.append(v)
    elif isinstance(v, (Agg, Nat)):
        for x in v.f:
            int_leaves(x, out)
    elif isinstance(v, Seq):
        for c in v.ch:
            if c[0] != "E":
                raise Undecided("pixel in focus")
            int_leaves(c[1], out)


def model_of(path, name):
    @stub(path)
    def f(I, st, fr, args, c, tys, line, dty):
        if WORLD not in st.mem:
            return INLINE
        for n, r in I.prog.roots.items():
            if n.endswith("::" + name):
                return I.call_fn(fr, st, I.prog.fn(r["key"]), args, line)
        raise Undecided("no model " + name)


model_of("<gift::decode::Frames as std::iter::Iterator>::next", "m_frames_next")
model_of("gift::decode::Frames::preamble", "m_frames_preamble")


@ai("focus_done")
def _focus_done(I, st, fr, args, c, tys, line, dty):
    st.mem.pop((-1, "pixel"), None)
    return u(I)


@ai("raster_bytes")
def _raster_bytes(I, st, fr, args, c, tys, line, dty):
    return Agg(dty, 0, tuple(args))


@ai("raster_data")
def _raster_data(I, st, fr, args, c, tys, line, dty):
    p = args[0]
    return Ptr(p.root, p.path + (("f", 2),), None)


@ai("palette_of")
def _palette_of(I, st, fr, args, c, tys, line, dty):
    return Agg(dty, 0, (args[0], Opq(I.prog.field_tys(dty, 0)[1], ("threshold",))))


model_of("gift::encode::FrameEnc::encode_preamble", "m_encode_preamble")
model_of("gift::encode::FrameEnc::encode_frame", "m_encode_frame")
model_of("gift::encode::FrameEnc::encode_trailer", "m_encode_trailer")
