"""Native models of the std / dependency functions the code calls (trusted; listed in the evidence)."""
import z3, re
from core import *

M = {}
def model(*names):
    def d(f):
        for n in names: M[n] = f
        return f
    return d
RX = []
def rx(p):
    def d(f): RX.append((re.compile(p), f)); return f
    return d
def lookup(idef, d, name, c):
    f = M.get(idef) or M.get(d)
    if f: return f
    for r, f in RX:
        if r.search(idef): return f
    return None

# ---------------------------------------------------------------- spec functions on characters / sequences
SI = seqof(I).S
def ws(x): return Or(eq(x, 32), eq(x, 9), eq(x, 10), eq(x, 12), eq(x, 13))
def between(x, a, b):
    return (a <= x <= b) if isinstance(x, int) else z3.And(x >= a, x <= b)
def lc(x): return (x + 32 if 65 <= x <= 90 else x) if isinstance(x, int) else z3.If(z3.And(x >= 65, x <= 90), x + 32, x)
def uc(x): return (x - 32 if 97 <= x <= 122 else x) if isinstance(x, int) else z3.If(z3.And(x >= 97, x <= 122), x - 32, x)
lower = z3.Function("lower", SI, SI)
upper = z3.Function("upper", SI, SI)
scontains = z3.Function("contains", SI, I, B)
MAPS = {"lower": lc, "upper": uc}
trimlen = z3.Function("trimlen", SI, I)      # length without trailing ASCII whitespace

def anchor(ex, st, name, v):
    """ghost: nodes reachable through a strong link"""
    a = st.ghost.get("anch")
    if a is None: return
    try:
        if isinstance(v, Agg):
            if v.v != 1: return
            x = v.f[0]
            if isinstance(x, RcV): st.ghost["anch"] = z3.Store(a, zi(x.h), z3.BoolVal(True)); return
            if isinstance(x, SeqV):
                for k, e in x.segs:
                    if k == "e": a = z3.Store(a, zi(e.h), z3.BoolVal(True))
                st.ghost["anch"] = a
        elif isinstance(v, SEnum) and 1 in v.pay:
            x = v.pay[1][0]
            if isinstance(x, SeqV):
                for k, e in x.segs:
                    if k == "e": a = z3.Store(a, zi(e.h), z3.BoolVal(True))
                st.ghost["anch"] = a
    except Exception: pass

def seqarg(ex, st, a):
    """the sequence behind a reference (possibly to a reference)"""
    v = a
    n = 0
    while isinstance(v, (Ptr, Guard, BoxV)) and n < 4:
        v = ex.load(st, ex.deref(st, v)); n += 1
    if isinstance(v, SeqV): return v
    raise Unsupported("not a sequence: %r" % (v,))
def val(ex, st, a):
    v = a; n = 0
    while isinstance(v, Ptr) and n < 4: v = ex.load(st, v); n += 1
    return v
def opt(ex, t, v): return Agg(t["dt"], 1, (v,))
def non(ex, t): return Agg(t["dt"], 0, ())
def ref(v): return Ptr(("V", v))

# ---------------------------------------------------------------- panics
@model("core::panicking::panic_fmt", "std::rt::panic_fmt", "core::panicking::panic", "std::rt::begin_panic", "core::panicking::unreachable_default_msg", "std::option::expect_failed", "std::option::unwrap_failed", "std::result::unwrap_failed", "core::panicking::panic_display", "core::panicking::panic_explicit", "core::panicking::panic_str_2015", "core::panicking::unreachable_display", "core::panicking::assert_failed", "core::slice::index::slice_index_fail", "std::result::unwrap_failed::unwrap_failed_inner")
def _(ex, st, a, t, c):
    msg = c["idef"].split("::")[-1]
    for x in a:
        try:
            v = seqarg(ex, st, x); msg += ": " + "".join(chr(e[1]) for e in v.segs if e[0] == "e" and isinstance(e[1], int)); break
        except Exception: pass
    return [(st, Panic(msg))]
@rx(r"precondition_check$")
def _(ex, st, a, t, c): return [(st, ex.UNIT)]
@rx(r"^(core|std)::fmt::|fmt::rt::|std::fmt::format|hint::must_use|Formatter|DebugStruct|^alloc::fmt::format")
def _(ex, st, a, t, c):
    if c["def"].endswith("must_use"): return [(st, a[0])]
    if c["def"].endswith("format"):
        return [(st, SeqV(ex.ty.chart, [("s", fresh(SI, "fmt"))]))]
    return [(st, Opq("fmt"))]

# ---------------------------------------------------------------- chars
def chp(f):
    def g(ex, st, a, t, c): return [(st, f(val(ex, st, a[0])))]
    return g
CH = "std::char::methods::<impl char>::"
M[CH + "is_ascii_whitespace"] = chp(ws)
M[CH + "to_ascii_lowercase"] = chp(lc)
M[CH + "to_ascii_uppercase"] = chp(uc)
M[CH + "is_ascii_uppercase"] = chp(lambda x: between(x, 65, 90))
M[CH + "is_ascii_lowercase"] = chp(lambda x: between(x, 97, 122))
M[CH + "is_ascii_alphabetic"] = chp(lambda x: Or(between(x, 65, 90), between(x, 97, 122)))
M[CH + "is_ascii_digit"] = chp(lambda x: between(x, 48, 57))
M[CH + "is_ascii_alphanumeric"] = chp(lambda x: Or(between(x, 65, 90), between(x, 97, 122), between(x, 48, 57)))
M[CH + "is_ascii_control"] = chp(lambda x: Or(between(x, 0, 31), eq(x, 127)))
M[CH + "is_ascii_punctuation"] = chp(lambda x: Or(between(x, 33, 47), between(x, 58, 64), between(x, 91, 96), between(x, 123, 126)))
M[CH + "is_ascii_graphic"] = chp(lambda x: between(x, 33, 126))
M[CH + "is_ascii_hexdigit"] = chp(lambda x: Or(between(x, 48, 57), between(x, 65, 70), between(x, 97, 102)))
M[CH + "is_ascii"] = chp(lambda x: between(x, 0, 127))
isws_u = z3.Function("is_unicode_whitespace", I, B)
def _iw(x): return Or(ws(x), And(Not(between(x, 0, 127)), isws_u(zi(x))), eq(x, 11))
M[CH + "is_whitespace"] = chp(_iw)
isal_u = z3.Function("is_unicode_alphabetic", I, B)
M[CH + "is_alphabetic"] = chp(lambda x: Or(between(x, 65, 90), between(x, 97, 122), And(Not(between(x, 0, 127)), isal_u(zi(x)))))
@model(CH + "eq_ignore_ascii_case")
def _(ex, st, a, t, c): return [(st, eq(lc(val(ex, st, a[0])), lc(val(ex, st, a[1]))))]

# ---------------------------------------------------------------- comparisons of scalars behind references
def cmpeq(neg):
    def g(ex, st, a, t, c):
        x, y = val(ex, st, a[0]), val(ex, st, a[1])
        if isinstance(x, SeqV) and isinstance(y, SeqV): r = ex.seq_eq(x, y, st)
        elif isinstance(x, (Agg, SEnum)) and isinstance(y, (Agg, SEnum)):
            if x.ty is not None and ex.ty.unit_enum(x.ty): r = eq(ex.ty.disc(x), ex.ty.disc(y))
            else: r = simp(ex.pack(st, x.ty, x) == ex.pack(st, x.ty, y))
        elif isinstance(x, RcV): raise Unsupported("Rc compare")
        else: r = eq(x, y)
        return [(st, Not(r) if neg else r)]
    return g
for n in ["std::cmp::impls::<impl std::cmp::PartialEq<&B> for &A>", "std::cmp::impls::<impl std::cmp::PartialEq for char>", "std::cmp::impls::<impl std::cmp::PartialEq for usize>", "std::cmp::impls::<impl std::cmp::PartialEq for bool>"]:
    M[n + "::eq"] = cmpeq(False); M[n + "::ne"] = cmpeq(True)
RX.append((re.compile(r"(vec::partial_eq|slice::cmp|array::equality|str::traits|string::).*PartialEq.*::eq$"), cmpeq(False)))
RX.append((re.compile(r"(vec::partial_eq|slice::cmp|array::equality|str::traits|string::).*PartialEq.*::ne$"), cmpeq(True)))
RX.append((re.compile(r"^<std::vec::Vec<.*PartialEq.*::eq$|^<std::string::String as std::cmp::PartialEq.*::eq$|^<\[.*PartialEq.*::eq$|^<std::option::Option<T> as std::cmp::PartialEq>::eq$"), cmpeq(False)))
RX.append((re.compile(r"^<std::vec::Vec<.*PartialEq.*::ne$|^<std::string::String as std::cmp::PartialEq.*::ne$"), cmpeq(True)))

# ---------------------------------------------------------------- Rc / Weak / RefCell / Box
@model("<std::rc::Rc<T, A> as std::ops::Deref>::deref", "<std::rc::Rc<T, A> as std::convert::AsRef<T>>::as_ref")
def _(ex, st, a, t, c):
    r = val(ex, st, a[0])
    if not isinstance(r, RcV): raise Unsupported("Rc deref %r" % (r,))
    return [(st, Ptr(("H", r.h)) if r.k == "node" else Ptr(("C", r.h)))]
@model("<std::rc::Rc<T, A> as std::clone::Clone>::clone", "<std::rc::Weak<T, A> as std::clone::Clone>::clone")
def _(ex, st, a, t, c):
    r = val(ex, st, a[0])
    if isinstance(r, RcV) and r.k == "node": st.ghost["cloned"] = st.ghost.get("cloned", ()) + (r.h,)
    return [(st, r)]
@model("std::rc::Rc::<T, A>::downgrade")
def _(ex, st, a, t, c):
    r = val(ex, st, a[0]); return [(st, WeakV(r.k, r.h))]
@model("std::rc::Rc::<T>::new")
def _(ex, st, a, t, c):
    k = ex.ty.handle_kind(t["dt"])
    if k == "node": return [(st, RcV("node", ex.alloc_node(st, a[0])))]
    return [(st, RcV(k, ex.newcell(st, a[0])))]
@model("std::rc::Weak::<T, A>::upgrade")
def _(ex, st, a, t, c):
    w = val(ex, st, a[0])
    an = st.ghost.get("anch")
    if w.k != "node" or an is None: raise Unsupported("upgrade")
    out = []
    for s2, tv in ex.fork(st, z3.Select(an, zi(w.h))):
        out.append((s2, opt(ex, t, RcV(w.k, w.h)) if tv else non(ex, t)))
    return out
@model("std::rc::Rc::<T, A>::try_unwrap", "std::rc::Rc::<T, A>::into_inner")
def _(ex, st, a, t, c):
    r = a[0]
    if r.k != "node": return [(st, Agg(t["dt"], 0, (ex.load(st, Ptr(("C", r.h))),)))]
    uniq = st.ghost.get("unique", {}).get(str(r.h), False)
    v = Opq("ownednode", r)
    if uniq: return [(st, Agg(t["dt"], 0, (v,)))]
    s2 = st.copy()
    return [(st, Agg(t["dt"], 0, (v,))), (s2, Agg(t["dt"], 1, (r,)))]
@model("std::rc::Rc::<T, A>::ptr_eq")
def _(ex, st, a, t, c):
    x, y = val(ex, st, a[0]), val(ex, st, a[1]); return [(st, eq(x.h, y.h))]
@model("std::cell::RefCell::<T>::new")
def _(ex, st, a, t, c): return [(st, a[0])]
@model("std::cell::RefCell::<T>::into_inner")
def _(ex, st, a, t, c): return [(st, a[0])]
@model("std::cell::RefCell::<T>::as_ptr")
def _(ex, st, a, t, c): return [(st, a[0])]
def samecell(p, q):
    """condition under which two RefCell places are the same cell"""
    if p.b[0] != q.b[0]: return False
    def key(e): return e[:2] if e[0] != "i" else ("i",)
    if [key(e) for e in p.p] != [key(e) for e in q.p]: return False
    cs = []
    if p.b[0] == "H": cs.append(eq(p.b[1], q.b[1]))
    elif p.b[0] == "V": return p.b[1] is q.b[1]
    elif p.b != q.b: return False
    for e, f in zip(p.p, q.p):
        if e[0] == "i": cs.append(eq(e[1], f[1]))
    return And(*cs)
def borrow(mut, tr=False):
    def g(ex, st, a, t, c):
        p = a[0]
        if not isinstance(p, Ptr): raise Unsupported("borrow of %r" % (p,))
        n = 0
        while True:   # & & RefCell
            try: v = ex.load(st, p) if p.b[0] in ("L",) else None
            except Unsupported: v = None
            if isinstance(v, Ptr) and n < 3: p = v; n += 1
            else: break
        conf = Or(*[samecell(p, q) for (q, m) in st.guards.values() if m or mut])
        out = []
        for s2, tv in ex.fork(st, conf):
            if tv:
                out.append((s2, Panic("already %s borrowed: RefCell conflict" % ("mutably" if not mut else ""))))
            else:
                ex.gid += 1; s2.guards[ex.gid] = (p, mut)
                out.append((s2, Guard(ex.gid, p, mut)))
        return out
    return g
M["std::cell::RefCell::<T>::borrow"] = borrow(False)
M["std::cell::RefCell::<T>::borrow_mut"] = borrow(True)
@model("<std::cell::Ref<'_, T> as std::ops::Deref>::deref", "<std::cell::RefMut<'_, T> as std::ops::Deref>::deref", "<std::cell::RefMut<'_, T> as std::ops::DerefMut>::deref_mut")
def _(ex, st, a, t, c):
    g = val(ex, st, a[0])
    if not isinstance(g, Guard): raise Unsupported("guard deref")
    return [(st, g.ptr)]
@model("std::boxed::Box::<T>::new")
def _(ex, st, a, t, c): return [(st, BoxV(cell=ex.newcell(st, a[0])))]
@model("std::boxed::Box::<T>::new_uninit")
def _(ex, st, a, t, c): return [(st, BoxV(cell=ex.newcell(st, UN)))]
@model("std::boxed::box_assume_init_into_vec_unsafe", "std::slice::<impl [T]>::into_vec")
def _(ex, st, a, t, c): return [(st, st.cells[a[0].cell])]
@model("std::ptr::eq")
def _(ex, st, a, t, c):
    p, q = a[0], a[1]
    if isinstance(p, Ptr) and isinstance(q, Ptr): return [(st, samecell(p, q))]
    raise Unsupported("ptr::eq")
@model("<T as std::convert::Into<U>>::into", "<T as std::convert::From<T>>::from", "<std::boxed::Box<dyn std::error::Error + std::marker::Send + std::marker::Sync> as std::convert::From<E>>::from")
def _(ex, st, a, t, c):
    v = a[0]
    if isinstance(v, Ptr):
        v = val(ex, st, v)
        if not isinstance(v, SeqV): raise Unsupported("into")
    return [(st, v)]
@model("std::mem::take")
def _(ex, st, a, t, c):
    v = ex.load(st, a[0])
    if isinstance(v, SeqV): d = SeqV(v.ety)
    elif isinstance(v, MapV): d = MapV(v.kty, v.vty)
    elif isinstance(v, (Agg, SEnum)) and ex.ty.isopt(v.ty): d = Agg(v.ty, 0, ())
    elif isinstance(v, bool) or (isz(v) and z3.is_bool(v)): d = False
    elif isinstance(v, int) or isz(v): d = 0
    else: raise Unsupported("mem::take")
    ex.store(st, a[0], d); return [(st, v)]
@model("std::mem::replace")
def _(ex, st, a, t, c):
    v = ex.load(st, a[0]); ex.store(st, a[0], a[1]); return [(st, v)]
@model("std::mem::swap")
def _(ex, st, a, t, c):
    x, y = ex.load(st, a[0]), ex.load(st, a[1]); ex.store(st, a[0], y); ex.store(st, a[1], x); return [(st, ex.UNIT)]
@model("std::mem::drop")
def _(ex, st, a, t, c):
    ex.drop(st, a[0]); return [(st, ex.UNIT)]
@model("std::option::Option::<T>::take")
def _(ex, st, a, t, c):
    v = ex.load(st, a[0]); ex.store(st, a[0], Agg(v.ty, 0, ())); return [(st, v)]

# ---------------------------------------------------------------- lazy_static
@model("lazy_static::lazy::Lazy::<T>::get")
def _(ex, st, a, t, c):
    f = a[1]; key = f.name
    if key not in ex.lazy:
        rs = ex.call_sub(St(), f, [])
        if len(rs) != 1 or isinstance(rs[0][1], Panic): raise Unsupported("lazy_static initialiser")
        ex.lazy[key] = rs[0][1]
    return [(st, ref(ex.lazy[key]))]

# ---------------------------------------------------------------- Vec / slice / str
VEC = "std::vec::Vec::<T, A>::"
def vecnew(ex, st, a, t, c): return [(st, SeqV(ex.ty.elem(t["dt"])))]
for n in ["std::vec::Vec::<T>::new", "std::vec::Vec::<T>::with_capacity", "<std::vec::Vec<T> as std::default::Default>::default", "std::string::String::new", "std::string::String::with_capacity", "<std::string::String as std::default::Default>::default"]: M[n] = vecnew
@model("<std::vec::Vec<T, A> as std::ops::Deref>::deref", "<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut", VEC + "as_slice", VEC + "as_mut_slice", "std::string::String::as_str", "<std::string::String as std::ops::Deref>::deref", "<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref", "core::array::<impl [T; N]>::as_slice", "<std::vec::Vec<T> as std::borrow::Borrow<[T]>>::borrow", "std::array::<impl [T; N]>::as_slice")
def _(ex, st, a, t, c):
    p = a[0]
    return [(st, p)]
@model(VEC + "len", "core::slice::<impl [T]>::len")
def _(ex, st, a, t, c): return [(st, ex.seq_len(st, seqarg(ex, st, a[0])))]
@model(VEC + "is_empty", "core::slice::<impl [T]>::is_empty", "core::str::<impl str>::is_empty", "std::string::String::is_empty")
def _(ex, st, a, t, c): return [(st, eq(simp(ex.seq_len(st, seqarg(ex, st, a[0]))), 0))]
@model(VEC + "reserve", VEC + "shrink_to_fit", "std::string::String::reserve", VEC + "reserve_exact")
def _(ex, st, a, t, c): return [(st, ex.UNIT)]
@model(VEC + "capacity")
def _(ex, st, a, t, c):
    x = fresh(I, "cap"); st.pc.append(z3.And(x >= zi(ex.seq_len(st, seqarg(ex, st, a[0]))), x <= ISIZE)); return [(st, x)]
@model(VEC + "push", "std::string::String::push")
def _(ex, st, a, t, c):
    v = ex.load(st, a[0]); ex.store(st, a[0], SeqV(v.ety, v.segs + (("e", a[1]),))); return [(st, ex.UNIT)]
@model(VEC + "pop")
def _(ex, st, a, t, c):
    v = ex.load(st, a[0]); n = simp(ex.seq_len(st, v)); out = []
    for s2, tv in ex.fork(st, lt(0, n)):
        if tv:
            x = ex.seq_at(s2, v, sub(n, 1)); ex.store(s2, a[0], ex.seq_slice(v, 0, sub(n, 1), s2)); out.append((s2, opt(ex, t, x)))
        else: out.append((s2, non(ex, t)))
    return out
@model(VEC + "clear", "std::string::String::clear")
def _(ex, st, a, t, c):
    v = ex.load(st, a[0]); ex.store(st, a[0], SeqV(v.ety)); return [(st, ex.UNIT)]
@model(VEC + "append")
def _(ex, st, a, t, c):
    v = ex.load(st, a[0]); w = ex.load(st, a[1])
    ex.store(st, a[0], SeqV(v.ety if v.ety is not None else w.ety, v.segs + w.segs)); ex.store(st, a[1], SeqV(w.ety)); return [(st, ex.UNIT)]
@model(VEC + "extend_from_slice", "std::string::String::push_str")
def _(ex, st, a, t, c):
    v = ex.load(st, a[0]); w = seqarg(ex, st, a[1])
    ex.store(st, a[0], SeqV(v.ety, v.segs + w.segs)); return [(st, ex.UNIT)]
@model(VEC + "truncate")
def _(ex, st, a, t, c):
    v = ex.load(st, a[0]); n = simp(ex.seq_len(st, v)); out = []
    for s2, tv in ex.fork(st, le(a[1], n)):
        if tv: ex.store(s2, a[0], ex.seq_slice(v, 0, a[1], s2))
        out.append((s2, ex.UNIT))
    return out
@model(VEC + "split_off")
def _(ex, st, a, t, c):
    v = ex.load(st, a[0]); n = simp(ex.seq_len(st, v)); out = []
    for s2, tv in ex.fork(st, le(a[1], n)):
        if not tv: out.append((s2, Panic("split_off out of bounds"))); continue
        ex.store(s2, a[0], ex.seq_slice(v, 0, a[1], s2)); out.append((s2, ex.seq_slice(v, a[1], n, s2)))
    return out
@model(VEC + "insert")
def _(ex, st, a, t, c):
    v = ex.load(st, a[0]); n = simp(ex.seq_len(st, v)); out = []
    for s2, tv in ex.fork(st, le(a[1], n)):
        if not tv: out.append((s2, Panic("insert out of bounds"))); continue
        ex.store(s2, a[0], SeqV(v.ety, ex.seq_slice(v, 0, a[1], s2).segs + (("e", a[2]),) + ex.seq_slice(v, a[1], n, s2).segs)); out.append((s2, ex.UNIT))
    return out
@model(VEC + "remove")
def _(ex, st, a, t, c):
    v = ex.load(st, a[0]); n = simp(ex.seq_len(st, v)); out = []
    for s2, tv in ex.fork(st, lt(a[1], n)):
        if not tv: out.append((s2, Panic("remove out of bounds"))); continue
        x = ex.seq_at(s2, v, a[1])
        ex.store(s2, a[0], SeqV(v.ety, ex.seq_slice(v, 0, a[1], s2).segs + ex.seq_slice(v, add(a[1], 1), n, s2).segs)); out.append((s2, x))
    return out
@model(VEC + "drain")
def _(ex, st, a, t, c):
    # the vector stays borrowed until the iterator is gone, so the range can leave it at once
    v = ex.load(st, a[0]); lo, hi = rng(ex, st, a[1], v); n = simp(ex.seq_len(st, v)); out = []
    for s2, tv in ex.fork(st, And(le(lo, hi), le(hi, n))):
        if not tv: out.append((s2, Panic("drain out of bounds"))); continue
        w = ex.seq_slice(v, lo, hi, s2)
        ex.store(s2, a[0], SeqV(v.ety, ex.seq_slice(v, 0, lo, s2).segs + ex.seq_slice(v, hi, n, s2).segs))
        out.append((s2, IterV(w, 0, simp(ex.seq_len(s2, w)), "val")))
    return out
@model(VEC + "splice")
def _(ex, st, a, t, c):
    v = ex.load(st, a[0]); r = a[1]; w = a[2]
    if isinstance(w, IterV): w = ex.seq_slice(w.seq, w.lo, w.hi, st)
    if not isinstance(w, SeqV) or not isinstance(r, Agg): raise Unsupported("splice")
    lo, hi = r.f[0], r.f[1]; n = simp(ex.seq_len(st, v)); out = []
    for s2, tv in ex.fork(st, And(le(lo, hi), le(hi, n))):
        if not tv: out.append((s2, Panic("splice out of bounds"))); continue
        ex.store(s2, a[0], SeqV(v.ety, ex.seq_slice(v, 0, lo, s2).segs + w.segs + ex.seq_slice(v, hi, n, s2).segs)); out.append((s2, Opq("splice")))
    return out
@model("<std::vec::Vec<T, A> as std::clone::Clone>::clone", "std::slice::<impl [T]>::to_vec", "<std::string::String as std::clone::Clone>::clone", "<T as std::slice::<impl [T]>::to_vec_in::ConvertVec>::to_vec", "std::str::<impl str>::to_owned", "std::borrow::ToOwned::to_owned", "std::slice::<impl [T]>::to_vec_in", "<[T] as std::borrow::ToOwned>::to_owned", "<str as std::string::ToString>::to_string", "std::str::<impl std::borrow::ToOwned for str>::to_owned", "std::slice::<impl std::borrow::ToOwned for [T]>::to_owned", "<str as std::string::SpecToString>::spec_to_string", "<std::string::String as std::convert::From<&str>>::from", "<std::vec::Vec<T> as std::convert::From<&[T]>>::from", "<std::vec::Vec<T> as std::convert::From<[T; N]>>::from", "std::array::<impl std::clone::Clone for [T; N]>::clone")
def _(ex, st, a, t, c): return [(st, seqarg(ex, st, a[0]) if isinstance(a[0], (Ptr, Guard)) else a[0])]
@model("<T as std::string::ToString>::to_string")
def _(ex, st, a, t, c):
    v = val(ex, st, a[0])
    if isinstance(v, SeqV): return [(st, v)]
    if isinstance(v, int) or (isz(v) and z3.is_int(v)): return [(st, SeqV(ex.ty.chart, [("s", fresh(SI, "tostr"))]))]
    raise Unsupported("to_string")
def sliceat(ex, st, v, i, t, mk, oob):
    n = simp(ex.seq_len(st, v)); out = []
    for s2, tv in ex.fork(st, lt(i, n)):
        out.append((s2, mk(s2)) if tv else (s2, oob))
    return out
@model("core::slice::<impl [T]>::get", "core::slice::<impl [T]>::get_mut")
def _(ex, st, a, t, c):
    v = seqarg(ex, st, a[0]); i = a[1]
    if isinstance(i, Agg):
        lo, hi = rng(ex, st, i, v); out = []
        n = simp(ex.seq_len(st, v))
        for s2, tv in ex.fork(st, And(le(lo, hi), le(hi, n))):
            out.append((s2, opt(ex, t, ref(ex.seq_slice(v, lo, hi, st))) if tv else non(ex, t)))
        return out
    p = base_ptr(ex, st, a[0])
    return sliceat(ex, st, v, i, t, lambda s2: opt(ex, t, Ptr(p.b, p.p + (("i", i),))), non(ex, t))
def base_ptr(ex, st, p):
    """pointer to the place that holds the sequence itself"""
    n = 0
    while n < 4:
        v = ex.load(st, p)
        if isinstance(v, Ptr): p = v; n += 1
        elif isinstance(v, Guard): p = v.ptr; n += 1
        else: return p
    return p
@model("core::slice::<impl [T]>::last", "core::slice::<impl [T]>::last_mut")
def _(ex, st, a, t, c):
    p = base_ptr(ex, st, a[0]); v = ex.load(st, p); n = simp(ex.seq_len(st, v)); out = []
    for s2, tv in ex.fork(st, lt(0, n)):
        out.append((s2, opt(ex, t, Ptr(p.b, p.p + (("i", simp(sub(n, 1))),))) if tv else non(ex, t)))
    return out
@model("core::slice::<impl [T]>::first", "core::slice::<impl [T]>::first_mut")
def _(ex, st, a, t, c):
    p = base_ptr(ex, st, a[0]); v = ex.load(st, p); n = simp(ex.seq_len(st, v)); out = []
    for s2, tv in ex.fork(st, lt(0, n)):
        out.append((s2, opt(ex, t, Ptr(p.b, p.p + (("i", 0),))) if tv else non(ex, t)))
    return out
@model("core::slice::<impl [T]>::contains")
def _(ex, st, a, t, c):
    v = seqarg(ex, st, a[0]); x = val(ex, st, a[1])
    if all(k == "e" for k, _ in v.segs) and not isinstance(x, SeqV): return [(st, Or(*[eq(x, e) for _, e in v.segs]))]
    if isinstance(x, SeqV):
        if all(k == "e" for k, _ in v.segs): return [(st, Or(*[ex.seq_eq(x, e, st) for _, e in v.segs]))]
        raise Unsupported("contains")
    return [(st, scontains(ex.term(st, v), zi(x)))]
@model("core::slice::<impl [T]>::starts_with", "core::slice::<impl [T]>::ends_with")
def _(ex, st, a, t, c):
    v, w = seqarg(ex, st, a[0]), seqarg(ex, st, a[1])
    n, m = simp(ex.seq_len(st, v)), simp(ex.seq_len(st, w)); out = []
    for s2, tv in ex.fork(st, le(m, n)):
        if not tv: out.append((s2, False)); continue
        x = ex.seq_slice(v, 0, m, s2) if c["def"].endswith("starts_with") else ex.seq_slice(v, simp(sub(n, m)), n, s2)
        out.append((s2, ex.seq_eq(x, w, s2)))
    return out
def rng(ex, st, r, v):
    n = ex.ty[r.ty]["n"]
    if n.endswith("RangeTo"): return 0, r.f[0]
    if n.endswith("RangeFrom"): return r.f[0], simp(ex.seq_len(st, v))
    if n.endswith("RangeFull"): return 0, simp(ex.seq_len(st, v))
    if n.endswith("::Range"): return r.f[0], r.f[1]
    if n.endswith("RangeToInclusive"): return 0, add(r.f[0], 1)
    if n.endswith("RangeInclusive"): return r.f[0], add(r.f[1], 1)
    raise Unsupported("range " + n)
@model("<std::vec::Vec<T, A> as std::ops::Index<I>>::index", "core::slice::index::<impl std::ops::Index<I> for [T]>::index", "<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut", "core::slice::index::<impl std::ops::IndexMut<I> for [T]>::index_mut", "core::array::<impl std::ops::Index<I> for [T; N]>::index", "std::array::<impl std::ops::Index<I> for [T; N]>::index")
def _(ex, st, a, t, c):
    p = base_ptr(ex, st, a[0]); v = ex.load(st, p); i = a[1]
    if isinstance(i, Agg):
        lo, hi = rng(ex, st, i, v); n = simp(ex.seq_len(st, v)); out = []
        for s2, tv in ex.fork(st, And(le(lo, hi), le(hi, n))):
            out.append((s2, ref(ex.seq_slice(v, lo, hi, st))) if tv else (s2, Panic("slice index out of bounds")))
        return out
    return sliceat(ex, st, v, i, t, lambda s2: Ptr(p.b, p.p + (("i", i),)), Panic("index out of bounds"))

# ---------------------------------------------------------------- iterators
@model("core::slice::<impl [T]>::iter", "core::slice::<impl [T]>::iter_mut", "<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter", "core::slice::iter::<impl std::iter::IntoIterator for &'a [T]>::into_iter", "std::array::<impl std::iter::IntoIterator for &'a [T; N]>::into_iter", "core::array::<impl std::iter::IntoIterator for &'a [T; N]>::into_iter")
def _(ex, st, a, t, c):
    v = seqarg(ex, st, a[0])
    return [(st, IterV(v, 0, simp(ex.seq_len(st, v)), "ref"))]
@model("<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter", "core::str::<impl str>::chars", "std::array::<impl std::iter::IntoIterator for [T; N]>::into_iter", "core::array::iter::<impl std::iter::IntoIterator for [T; N]>::into_iter")
def _(ex, st, a, t, c):
    v = seqarg(ex, st, a[0]) if isinstance(a[0], Ptr) else a[0]
    if not isinstance(v, SeqV): raise Unsupported("into_iter")
    return [(st, IterV(v, 0, simp(ex.seq_len(st, v)), "val"))]
@model("<I as std::iter::IntoIterator>::into_iter")
def _(ex, st, a, t, c): return [(st, a[0])]
@model("std::iter::Iterator::rev")
def _(ex, st, a, t, c):
    i = a[0]
    if isinstance(i, IterV) and not i.enum: return [(st, i.repl(rev=not i.rev))]
    raise Unsupported("rev")
@model("std::iter::Iterator::enumerate")
def _(ex, st, a, t, c):
    i = a[0]
    if isinstance(i, IterV) and not i.enum: return [(st, Agg(t["dt"], 0, (i, 0)))]
    raise Unsupported("enumerate")
@model("std::iter::Iterator::cloned", "std::iter::Iterator::copied")
def _(ex, st, a, t, c):
    i = a[0]
    if isinstance(i, IterV): return [(st, i.repl(kind="val"))]
    raise Unsupported("cloned")
@model("std::iter::Iterator::skip")
def _(ex, st, a, t, c):
    i = a[0]
    if isinstance(i, IterV) and not i.rev: 
        n = a[1]; lo = simp(z3.If(zi(add(i.lo, n)) <= zi(i.hi), zi(add(i.lo, n)), zi(i.hi)))
        return [(st, i.repl(lo=lo))]
    raise Unsupported("skip")
@model("std::iter::Iterator::take")
def _(ex, st, a, t, c):
    i = a[0]
    if isinstance(i, IterV) and not i.rev:
        n = a[1]; hi = simp(z3.If(zi(add(i.lo, n)) <= zi(i.hi), zi(add(i.lo, n)), zi(i.hi)))
        return [(st, i.repl(hi=hi))]
    raise Unsupported("take")
def iternext(ex, st, p, t, back=False):
    it = ex.load(st, p)
    if not isinstance(it, IterV): raise Unsupported("next of %r" % (it,))
    rev = it.rev != back; out = []
    for s2, tv in ex.fork(st, lt(it.lo, it.hi)):
        if not tv: out.append((s2, non(ex, t))); continue
        idx = simp(sub(it.hi, 1)) if rev else it.lo
        x = ex.seq_at(s2, it.seq, idx)
        ex.store(s2, p, it.repl(hi=idx) if rev else it.repl(lo=simp(add(it.lo, 1))))
        out.append((s2, opt(ex, t, ref(x) if it.kind == "ref" else x)))
    return out
@model("<std::slice::Iter<'a, T> as std::iter::Iterator>::next", "<std::str::Chars<'a> as std::iter::Iterator>::next", "<std::iter::Rev<I> as std::iter::Iterator>::next", "<std::vec::IntoIter<T, A> as std::iter::Iterator>::next", "<std::iter::Cloned<I> as std::iter::Iterator>::next", "<std::iter::Copied<I> as std::iter::Iterator>::next", "<std::iter::Skip<I> as std::iter::Iterator>::next", "<std::iter::Take<I> as std::iter::Iterator>::next", "<std::array::IntoIter<T, N> as std::iter::Iterator>::next", "<std::vec::Drain<'_, T, A> as std::iter::Iterator>::next")
def _(ex, st, a, t, c):
    return iternext(ex, st, base_it(ex, st, a[0]), t)
@model("<std::slice::Iter<'a, T> as std::iter::DoubleEndedIterator>::next_back", "<std::str::Chars<'a> as std::iter::DoubleEndedIterator>::next_back")
def _(ex, st, a, t, c): return iternext(ex, st, base_it(ex, st, a[0]), t, True)
def base_it(ex, st, p):
    n = 0
    while n < 4:
        v = ex.load(st, p)
        if isinstance(v, Ptr): p = v; n += 1
        else: return p
    return p
@model("std::iter::Iterator::map")
def _(ex, st, a, t, c): return [(st, Agg(t["dt"], 0, (a[0], a[1])))]
@model("std::iter::Iterator::zip")
def _(ex, st, a, t, c):
    b = a[1]
    if isinstance(b, Ptr): v = seqarg(ex, st, b); b = IterV(v, 0, simp(ex.seq_len(st, v)), "ref")
    elif isinstance(b, SeqV): b = IterV(b, 0, simp(ex.seq_len(st, b)), "val")
    return [(st, Agg(t["dt"], 0, (a[0], b)))]
@model("std::iter::Iterator::filter", "std::iter::Iterator::flat_map")
def _(ex, st, a, t, c): return [(st, Opq(c["def"].split("::")[-1], (a[0], a[1])))]

def clone_env(fv): return fv
def mapseq(ex, st, it, fv):
    """the sequence f(x) for x in it, f a pure function of one element of scalar type"""
    if not isinstance(it, IterV) or it.rev: raise Unsupported("map over %r" % (it,))
    s = ex.seq_slice(it.seq, it.lo, it.hi, st)
    if all(k == "e" for k, _ in s.segs):
        r = []
        for _, e in s.segs:
            v = ex.pure(st, fv, [ref(e) if it.kind == "ref" else e]); r.append(("e", v))
        return r
    x = z3.Int("elem")
    if ex.ty[s.ety]["k"] != "char": raise Unsupported("map over non-char sequence")
    st2 = st.copy(); st2.pc.append(z3.And(x >= 0, x <= 0x10FFFF))
    fx = ex.pure(st2, fv, [ref(x) if it.kind == "ref" else x])
    return [("s", ex.mapfun(fx, x)(ex.term(st, s)))]
def _mapfun(ex, fx, x):
    """an uninterpreted symbol for the pointwise map; equal maps share their symbol"""
    if not ex.maps: ex.maps = [(lc(x), lower), (uc(x), upper)]
    rngc = z3.And(x >= 0, x <= 0x10FFFF)
    for e, f in ex.maps:
        so = z3.Solver(); so.set("timeout", 3000); so.add(rngc, zi(fx) != zi(e))
        if so.check() == z3.unsat: return f
    f = z3.Function("map%d" % len(ex.maps), SI, SI); ex.maps.append((fx, f))
    MAPS[f.name()] = lambda e, fx=fx: simp(z3.substitute(fx, (x, zi(e)))) if isz(fx) else fx
    return f
@model("std::iter::Iterator::collect", "<std::vec::Vec<T> as std::iter::FromIterator<T>>::from_iter", "<std::string::String as std::iter::FromIterator<char>>::from_iter", "<std::string::String as std::iter::FromIterator<&'a char>>::from_iter")
def _(ex, st, a, t, c):
    return [(s2, SeqV(ex.ty.elem(t["dt"]), segs)) for s2, segs in gather(ex, st, a[0])]
def gather(ex, st, it):
    """segments produced by an iterator expression"""
    if isinstance(it, IterV):
        if it.rev: raise Unsupported("collect of rev")
        return [(st, ex.seq_slice(it.seq, it.lo, it.hi, st).segs)]
    if isinstance(it, Agg) and it.ty is not None and ex.ty[it.ty].get("n", "").endswith("::Map"):
        return [(st, tuple(mapseq(ex, st, it.f[0], it.f[1])))]
    if isinstance(it, Opq) and it.tag == "flat_map":
        h = ex.contracts.get("#flat_map")
        if h:
            r = h(ex, st, it.args[0], it.args[1])
            if r is not None: return r
        src, fv = it.args
        if isinstance(src, IterV):
            s = ex.seq_slice(src.seq, src.lo, src.hi, st)
            if all(k == "e" for k, _ in s.segs):
                cur = [(st, ())]
                for _, e in s.segs:
                    nxt = []
                    for s2, acc in cur:
                        for s3, v in ex.call_sub(s2, fv, [ref(e)]):
                            if isinstance(v, Panic): raise Unsupported("panic in flat_map")
                            if isinstance(v, SeqV): nxt.append((s3, acc + v.segs))
                            else: raise Unsupported("flat_map result")
                    cur = nxt
                return cur
    if isinstance(it, SeqV): return [(st, it.segs)]
    raise Unsupported("collect of %r" % (it,))
@model("<std::vec::Vec<T, A> as std::iter::Extend<T>>::extend", "<std::vec::Vec<T, A> as std::iter::Extend<&'a T>>::extend", "<std::string::String as std::iter::Extend<char>>::extend", "<std::string::String as std::iter::Extend<&'a char>>::extend")
def _(ex, st, a, t, c):
    out = []
    src = a[1]
    if isinstance(src, Ptr): src = seqarg(ex, st, src)
    for s2, segs in gather(ex, st, src):
        v = ex.load(s2, a[0]); ex.store(s2, a[0], SeqV(v.ety, v.segs + tuple(segs))); out.append((s2, ex.UNIT))
    return out
def predfun(ex, px, x):
    rngc = z3.And(x >= 0, x <= 0x10FFFF)
    for e, f in ex.preds:
        so = z3.Solver(); so.set("timeout", 3000); so.add(rngc, zb(px) != zb(e))
        if so.check() == z3.unsat: return f
    f = z3.Function("any%d" % len(ex.preds), SI, B); ex.preds.append((px, f))
    return f
def anyq(neg, loop):
    def g(ex, st, a, t, c):
        it = val(ex, st, a[0]); fv = a[1]
        if not isinstance(it, IterV): return loop(ex, st, a, t, c)
        s = ex.seq_slice(it.seq, it.lo, it.hi, st)
        try:
            if all(k == "e" for k, _ in s.segs):
                r = [ex.pure(st, fv, [ref(e) if it.kind == "ref" else e]) for _, e in s.segs]
                return [(st, And(*r) if neg else Or(*r))]
            if ex.ty[s.ety]["k"] != "char": raise Unsupported("any over non-char sequence")
            x = z3.Int("elem"); st2 = st.copy(); st2.pc.append(z3.And(x >= 0, x <= 0x10FFFF))
            p = ex.pure(st2, fv, [ref(x) if it.kind == "ref" else x])
            r = ex.predfun(Not(p) if neg else p, x)(ex.term(st, s))
            return [(st, Not(r) if neg else r)]
        except Unsupported: return loop(ex, st, a, t, c)
    return g

# ---------------------------------------------------------------- HashMap
@model("std::collections::HashMap::<K, V>::new", "std::collections::HashMap::<K, V>::with_capacity", "<std::collections::HashMap<K, V, S> as std::default::Default>::default")
def _(ex, st, a, t, c):
    T = ex.ty[t["dt"]]; return [(st, MapV(T["a"][0], T["a"][1]))]
@model("<std::collections::HashMap<K, V, S, A> as std::clone::Clone>::clone")
def _(ex, st, a, t, c): return [(st, val(ex, st, a[0]))]
def keyeq(ex, st, kty, x, y):
    if isinstance(x, SeqV): return ex.seq_eq(x, y, st)
    if isinstance(x, (Agg, SEnum)): return eq(ex.ty.disc(x), ex.ty.disc(y))
    return eq(x, y)
def mapget(ex, st, m, k):
    """[(state, found value or None)]"""
    out = []; cur = [st]
    for kk, vv in reversed(m.upd):
        nxt = []
        for s in cur:
            for s2, tv in ex.fork(s, keyeq(ex, s, m.kty, k, kk)):
                if tv: out.append((s2, vv))
                else: nxt.append(s2)
        cur = nxt
    for s in cur:
        if m.base is None: out.append((s, None)); continue
        e = z3.Select(m.base, ex.pack(st, m.kty, k))
        s.pc.append(e >= -1)
        for s2, tv in ex.fork(s, e == -1):
            out.append((s2, None if tv else ex.ty.unpack(m.vty, e, s2)))
    return out
@model("std::collections::HashMap::<K, V, S, A>::get", "std::collections::HashMap::<K, V, S, A>::contains_key", "std::collections::HashMap::<K, V, S>::get", "std::collections::HashMap::<K, V, S>::contains_key")
def _(ex, st, a, t, c):
    m = val(ex, st, a[0]); k = val(ex, st, a[1])
    has = c["def"].endswith("contains_key")
    return [(s2, (v is not None) if has else (opt(ex, t, ref(v)) if v is not None else non(ex, t))) for s2, v in mapget(ex, st, m, k)]
@model("std::collections::HashMap::<K, V, S, A>::insert", "std::collections::HashMap::<K, V, S>::insert")
def _(ex, st, a, t, c):
    p = base_it(ex, st, a[0]); m = ex.load(st, p)
    # the returned old value is not modelled precisely unless used
    ex.store(st, p, MapV(m.kty, m.vty, m.base, m.upd + ((a[1], a[2]),)))
    return [(st, Opq("oldvalue"))]
@model("std::collections::HashMap::<K, V, S, A>::entry", "std::collections::HashMap::<K, V, S>::entry")
def _(ex, st, a, t, c): return [(st, Opq("entry", (base_it(ex, st, a[0]), a[1])))]
@model("std::collections::hash_map::Entry::<'a, K, V, A>::or_insert", "std::collections::hash_map::Entry::<'a, K, V>::or_insert")
def _(ex, st, a, t, c):
    p, k = a[0].args; m = ex.load(st, p); out = []
    if isinstance(m.vty, int) and m.base is not None and not m.upd:
        # one expression instead of a fork
        kt = ex.pack(st, m.kty, k); old = z3.Select(m.base, kt)
        st.pc.append(old >= -1)
        nb = z3.Store(m.base, kt, z3.If(old == -1, ex.pack(st, m.vty, a[1]), old))
        ex.store(st, p, MapV(m.kty, m.vty, nb)); return [(st, Opq("entryref"))]
    for s2, v in mapget(ex, st, m, k):
        if v is None: ex.store(s2, p, MapV(m.kty, m.vty, m.base, m.upd + ((k, a[1]),)))
        out.append((s2, Opq("entryref")))
    return out
@model("std::collections::HashMap::<K, V, S, A>::len", "std::collections::HashMap::<K, V, S, A>::is_empty")
def _(ex, st, a, t, c): raise Unsupported("HashMap::len")

# ---------------------------------------------------------------- htmlentity (dependency)
decode = z3.Function("decode_entities", SI, SI)
@model("htmlentity::entity::decode_chars_to")
def _(ex, st, a, t, c):
    src = seqarg(ex, st, a[0]); v = ex.load(st, a[1])
    ex.store(st, a[1], SeqV(v.ety, v.segs + (("s", decode(ex.term(st, src))),))); return [(st, ex.UNIT)]
def attach(Ex):
    Ex.mapfun = _mapfun; Ex.predfun = predfun

# ---------------------------------------------------------------- internal iteration: run as a loop over next()
def synth(ex, kind="for_each"):
    """a body equivalent to the definition of an internal iteration: a loop over next()"""
    k = "#" + kind
    if k in ex.bodies: return k
    ot = next(i for i, t in enumerate(ex.ty.T) if t["k"] == "adt" and t["n"].endswith("option::Option"))
    ut = next((i for i, t in enumerate(ex.ty.T) if t["k"] == "uint" and t["bits"] == 64), None)
    U = ex.unit_ty
    L = lambda n, p=(): [n, [list(x) for x in p]]
    cp = lambda n, p=(): {"o": "copy", "p": L(n, p)}
    asg = lambda n, v: {"s": "=", "p": L(n), "v": v}
    use = lambda o: {"r": "use", "a": o}
    cst = lambda v: {"o": "rtv", "v": v}
    dead = lambda *n: [{"s": "dead", "n": x} for x in n]
    call = lambda f, a, d, n, dt=U: {"t": "call", "f": f, "a": a, "at": [], "d": L(d), "dt": dt, "n": n}
    nat = lambda nm: {"def": nm, "idef": nm, "name": nm}
    fn = {"ptr": cp(2)}
    ret = lambda *st: {"s": list(st), "t": {"t": "return"}}
    go = lambda n, *st: {"s": list(st), "t": {"t": "goto", "n": n}}
    sw = lambda n, zero, other, *st: {"s": list(st), "t": {"t": "switch", "a": cp(n), "v": [[0, zero]], "e": other}}
    some = lambda o: {"r": "agg", "k": "adt", "t": ot, "i": 1, "v": [o]}
    none = {"r": "agg", "k": "adt", "t": ot, "i": 0, "v": []}
    add1 = lambda n, op: asg(n, {"r": "bin", "op": op, "a": cp(n), "b": cst(1), "t": ut})
    # locals: 1 iterator, 2 function, 3 &mut iterator, 4 next, 5 its discriminant, 6 the item, 7 result of the function, 8 counter / accumulator
    head = [None, {"s": [asg(3, {"r": "ref", "m": True, "p": L(1)})], "t": call(nat("#back" if kind == "rposition" else "#next"), [cp(3)], 4, 2, ot)},
        sw(5, 5, 3, *dead(3), asg(5, {"r": "discr", "p": L(4), "t": ot}))]
    item = [asg(6, use(cp(4, [("d", 1), (".", 0)])))] + dead(4, 5)
    if kind == "for_each": bl = head + [{"s": item, "t": call(fn, [cp(6)], 7, 4)}, go(1, *dead(6, 7)), ret(asg(0, {"r": "agg", "k": "tuple", "t": U, "v": []}))]
    elif kind == "fold": bl = head + [{"s": item, "t": call(fn, [cp(8), cp(6)], 7, 4)}, go(1, asg(8, use(cp(7))), *dead(6, 7)), ret(asg(0, use(cp(8))))]
    elif kind in ("any", "all"):
        w = kind == "any"
        bl = head + [{"s": item, "t": call(fn, [cp(6)], 7, 4)}, sw(7, 1 if w else 6, 6 if w else 1, *dead(6)), ret(asg(0, use(cst(not w)))), ret(asg(0, use(cst(w))))]
    elif kind == "find": bl = head + [{"s": item + [asg(8, {"r": "ref", "m": False, "p": L(6)})], "t": call(fn, [cp(8)], 7, 4)}, sw(7, 1, 6, *dead(8)), ret(asg(0, none)), ret(asg(0, some(cp(6))))]
    elif kind == "position": bl = head + [{"s": item, "t": call(fn, [cp(6)], 7, 4)}, sw(7, 7, 6, *dead(6)), ret(asg(0, none)), ret(asg(0, some(cp(8)))), go(1, *dead(7), add1(8, "Add"))]
    elif kind == "rposition": bl = head + [{"s": item + [add1(8, "Sub")], "t": call(fn, [cp(6)], 7, 4)}, sw(7, 1, 6, *dead(6)), ret(asg(0, none)), ret(asg(0, some(cp(8))))]
    elif kind == "count": bl = head + [go(1, *item, *dead(6), add1(8, "Add")), None, ret(asg(0, use(cp(8))))]
    if len(bl) > 4 and bl[4] is None: bl[4] = ret()
    bl[0] = go(1)
    ex.bodies[k] = {"name": kind, "def": kind, "local": False, "argc": 2, "spread": None, "locals": [U] * 8 + [ut], "names": [], "file": "", "line": 0, "line2": 0, "blocks": bl}
    return k
def itleaf(ex, st, p, t, back=False):
    """next() of an iterator value: a sequence, or an adaptor over such"""
    v = ex.load(st, p)
    if isinstance(v, IterV): return iternext(ex, st, p, t, back)
    if isinstance(v, Agg) and v.ty is not None and not back:
        n = ex.ty[v.ty].get("n", "")
        if n.endswith("::Zip"):
            out = []
            for s2, x in itleaf(ex, st, Ptr(p.b, p.p + (("f", 0),)), t):
                if x.v == 0: out.append((s2, x)); continue
                for s3, y in itleaf(ex, s2, Ptr(p.b, p.p + (("f", 1),)), t):
                    out.append((s3, y if y.v == 0 else opt(ex, t, Agg(None, 0, (x.f[0], y.f[0])))))
            return out
        if n.endswith("::Enumerate"):
            out = []
            for s2, x in itleaf(ex, st, Ptr(p.b, p.p + (("f", 0),)), t):
                if x.v == 0: out.append((s2, x)); continue
                q = Ptr(p.b, p.p + (("f", 1),)); i = ex.load(s2, q); ex.store(s2, q, simp(add(i, 1)))
                out.append((s2, opt(ex, t, Agg(None, 0, (i, x.f[0])))))
            return out
    raise Unsupported("next of %r" % (v,))
@model("#next")
def _(ex, st, a, t, c): return itleaf(ex, st, base_it(ex, st, a[0]), t)
@model("#back")
def _(ex, st, a, t, c): return itleaf(ex, st, base_it(ex, st, a[0]), t, True)
@model("<std::iter::Zip<A, B> as std::iter::Iterator>::next")
def _(ex, st, a, t, c): return itleaf(ex, st, base_it(ex, st, a[0]), t)
def iterable(v): return isinstance(v, IterV) or (isinstance(v, Agg) and v.f and iterable(v.f[0]))
def internal(kind):
    def g(ex, st, a, t, c):
        it = a[0]; byref = isinstance(it, Ptr)
        if byref: q = base_it(ex, st, it); it = ex.load(st, q)      # the iterator is not used again (checked: it is poisoned)
        if not iterable(it) or (isinstance(it, Agg) and not ex.ty[it.ty].get("n", "").endswith(("::Zip", "::Enumerate"))): raise Unsupported("%s over %r" % (kind, it))
        fv = a[-1]
        if kind == "count": fv = None
        elif isinstance(fv, Agg): fv = Ptr(("C", ex.newcell(st, fv)))
        base = len(st.frames); s0 = ex.push_frame(st, synth(ex, kind), [it, fv], None, None)
        if kind in ("position", "count"): s0.loc[8] = 0
        if kind == "fold": s0.loc[8] = a[1]
        if kind == "rposition":
            if not isinstance(it, IterV): raise Unsupported("rposition")
            s0.loc[8] = simp(sub(it.hi, it.lo))
        res = []; outs = []; ex.enter(st, 0, res)
        for x in res:
            if isinstance(x, Out): outs.append(x)
            else: outs.extend(ex.run(x, base))
        r = []
        for o in outs:
            if o.kind != "ret": r.append((o.st, o)); continue
            v = o.val
            if kind == "for_each": v = ex.UNIT
            elif isinstance(v, Agg) and kind in ("find", "position", "rposition"): v = Agg(t["dt"], v.v, v.f)
            if byref: ex.store(o.st, q, Opq("consumed"))
            r.append((o.st, v))
        return r
    return g
for _k in ("for_each", "any", "all", "find", "position", "rposition", "fold", "count"):
    for _n in ("std::iter::Iterator::", "<std::slice::Iter<'a, T> as std::iter::Iterator>::", "<std::vec::IntoIter<T, A> as std::iter::Iterator>::", "<std::iter::Enumerate<I> as std::iter::Iterator>::", "<std::iter::Zip<A, B> as std::iter::Iterator>::", "<std::str::Chars<'a> as std::iter::Iterator>::"):
        if _k in ("any", "all"): M[_n + _k] = anyq(_k == "all", internal(_k))
        else: M[_n + _k] = internal(_k)
# html entities: '<' '>' '&' and their named forms (dependency contract, checked on every char by the harness)
ENT = {60: "&lt;", 62: "&gt;", 38: "&amp;"}
@model("htmlentity::entity::CharacterSet::contains")
def _(ex, st, a, t, c):
    s = val(ex, st, a[0]); x = val(ex, st, a[1])
    if not isinstance(s, Agg) or s.v != 2: raise Unsupported("CharacterSet")
    return [(st, Or(*[eq(x, k) for k in ENT]))]
@model("htmlentity::entity::encode_char")
def _(ex, st, a, t, c):
    x = val(ex, st, a[0]); e = val(ex, st, a[1])
    if not isinstance(e, Agg) or e.v != 0: raise Unsupported("EncodeType")
    out = []; cur = st
    for k in ENT:
        nx = None
        for s2, tv in ex.fork(cur, eq(x, k)):
            if tv: out.append((s2, opt(ex, t, Opq("entity", k))))
            else: nx = s2
        if nx is None: return out
        cur = nx
    s2 = cur; out.append((s2, Out("unsup", s2, msg="encode_char of another character", loc=ex.loc(s2))))
    return out
@model("htmlentity::entity::CharEntity::write_chars")
def _(ex, st, a, t, c):
    e = val(ex, st, a[0])
    if not (isinstance(e, Opq) and e.tag == "entity"): raise Unsupported("write_chars")
    p = base_ptr(ex, st, a[1]); v = ex.load(st, p)
    ex.store(st, p, SeqV(v.ety, v.segs + tuple(("e", ord(ch)) for ch in ENT[e.args]))); return [(st, ex.UNIT)]
