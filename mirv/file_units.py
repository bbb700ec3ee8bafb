"""Doc::parse_file (for &str) on top of the contract of Doc::parse: the file it reads, what it hands to Doc::parse, and I/O errors.

The file system is arbitrary: every call may fail; a file's content is an arbitrary function of the file.  Two paths are the
same file if they differ by canonicalisation or by being relative to the current directory."""
import z3, json
from core import *
from vc import Rec
import spec, models, loops, pstep
from spec import SI
from models import RX
P = "rphtml::parser::"
PathS = z3.DeclareSort("Path"); FileS = z3.DeclareSort("FileId")
isabs = z3.Function("is_absolute", PathS, B); ident = z3.Function("file_of", PathS, FileS); text = z3.Function("content_of", FileS, SI)
join = z3.Function("join", PathS, PathS, PathS); canon = z3.Function("canonical", PathS, PathS)
PP = {"C21"}

def pathof(ex, st, v):
    for _ in range(6):
        if isinstance(v, Opq) and v.tag == "path": return v.args[0]
        if isinstance(v, Ptr): v = ex.load(st, v)
    raise Unsupported("a path is expected: %r" % (v,))
def mkp(t): return Opq("path", (t,))
def fork(ex, st, ty, ok):
    """Ok(ok) or an I/O error"""
    s2 = st.copy(); s2.ghost["io"] = True; e = Opq("ioerror")
    return [(st, Agg(ty, 0, (ok,))), (s2, Agg(ty, 1, (e,)))]
def facts(st, t):
    p0 = st.ghost["p0"]; cwd = st.ghost["cwd"]
    for a in (t,):
        st.pc.append(ident(canon(a)) == ident(a)); st.pc.append(ident(join(cwd, a)) == ident(a)); st.pc.append(z3.Implies(isabs(a), join(cwd, a) == a))
def reader(ex, st, v):
    """the place of the file behind a reader"""
    p = None
    for _ in range(8):
        if isinstance(v, Opq) and v.tag == "file": return p, v
        if isinstance(v, Opq) and v.tag == "reader": v = v.args[0]; continue
        if isinstance(v, Ptr): p = v; v = ex.load(st, v); continue
        break
    raise Unsupported("a file is expected: %r" % (v,))
def contracts(ex, rec):
    """models of the file system calls, by a pattern on the name of the callee"""
    CALLS = []
    def call(*pats):
        def d(f):
            import re
            for p in pats: CALLS.append((re.compile(p), f))
            return f
        return d
    T = ex.ty
    @call(r"AsRef<std::path::Path>>::as_ref$", r"^std::path::Path::new", r"<std::path::PathBuf as std::(ops::Deref|borrow::Borrow<std::path::Path>)>::", r"^std::path::PathBuf::as_path$", r"AsRef<std::ffi::OsStr>>::as_ref$")
    def _(e, s, a, t): return [(s, Ptr(("V", mkp(pathof(e, s, a[0])))))]
    @call(r"^std::path::Path::to_path_buf$", r"^std::path::Path::to_owned$", r"PathBuf as std::clone::Clone>::clone$", r"PathBuf as std::convert::From<", r"^<std::path::Path as std::borrow::ToOwned>::to_owned$", r"as std::convert::Into<std::path::PathBuf>>::into$")
    def _(e, s, a, t): return [(s, mkp(pathof(e, s, a[0])))]
    @call(r"^std::path::Path::is_absolute$")
    def _(e, s, a, t): p = pathof(e, s, a[0]); facts(s, p); return [(s, isabs(p))]
    @call(r"^std::path::Path::is_relative$")
    def _(e, s, a, t): p = pathof(e, s, a[0]); facts(s, p); return [(s, z3.Not(isabs(p)))]
    @call(r"^std::path::Path::has_root$")
    def _(e, s, a, t): p = pathof(e, s, a[0]); facts(s, p); return [(s, isabs(p))]
    @call(r"^std::env::current_dir$")
    def _(e, s, a, t): return fork(e, s, t["dt"], mkp(s.ghost["cwd"]))
    @call(r"^std::path::Path::join")
    def _(e, s, a, t):
        x, y = pathof(e, s, a[0]), pathof(e, s, a[1]); facts(s, y); return [(s, mkp(join(x, y)))]
    @call(r"^std::path::Path::canonicalize$", r"^std::fs::canonicalize")
    def _(e, s, a, t): p = pathof(e, s, a[0]); facts(s, p); return fork(e, s, t["dt"], mkp(canon(p)))
    @call(r"^std::path::Path::(exists|is_file)$")
    def _(e, s, a, t):
        pathof(e, s, a[0]); s2 = s.copy(); s2.ghost["io"] = True; return [(s, True), (s2, False)]
    @call(r"^std::fs::File::open")
    def _(e, s, a, t): return fork(e, s, t["dt"], Opq("file", (pathof(e, s, a[0]),)))
    @call(r"^std::io::BufReader::<.*>::(new|with_capacity)$")
    def _(e, s, a, t): return [(s, Opq("reader", (a[-1],)))]
    @call(r" as std::io::Read>::take$", r"^std::io::Read::take$")
    def _(e, s, a, t):
        # at most so many bytes of the file: all of it only if the limit is the largest there is
        if not z3.is_true(z3.simplify(z3.IntVal(a[1]) == 2 ** 64 - 1 if isinstance(a[1], int) else a[1] == 2 ** 64 - 1)): s.ghost["cut"] = True
        return [(s, Opq("reader", (a[0],)))]
    @call(r" as std::io::Read>::read_to_string$", r"^std::io::Read::read_to_string$")
    def _(e, s, a, t):
        p, v = reader(e, s, a[0]); q = models.base_ptr(e, s, a[1]); sv = e.load(s, q)
        if s.ghost.get("read"): raise Unsupported("a file is read twice")
        s.ghost["read"] = True
        r = fork(e, s, t["dt"], z3.Int("nread"))
        s.pc.append(z3.Int("nread") >= 0)
        e.store(s, q, SeqV(T.chart, sv.segs + (("s", fresh(SI, "cut") if s.ghost.get("cut") else text(ident(v.args[0]))),)))
        e.store(r[1][0], q, SeqV(T.chart, sv.segs + (("s", fresh(SI, "partial")),)))
        return r
    @call(r"^std::fs::read_to_string")
    def _(e, s, a, t): return fork(e, s, t["dt"], SeqV(T.chart, [("s", text(ident(pathof(e, s, a[0]))))]))
    @call(r"^std::fs::read$", r"^std::fs::read::<")
    def _(e, s, a, t): return fork(e, s, t["dt"], Opq("bytes", (pathof(e, s, a[0]),)))
    @call(r" as std::io::Read>::read_to_end$", r"^std::io::Read::read_to_end$")
    def _(e, s, a, t):
        p, v = reader(e, s, a[0]); q = models.base_ptr(e, s, a[1]); sv = e.load(s, q)
        if s.ghost.get("cut"): raise Unsupported("a part of a file")
        if s.ghost.get("read") or not (isinstance(sv, SeqV) and not sv.segs): raise Unsupported("read_to_end")
        s.ghost["read"] = True; r = fork(e, s, t["dt"], z3.Int("nread")); e.store(s, q, Opq("bytes", v.args)); return r
    @call(r"^std::string::String::from_utf8$")
    def _(e, s, a, t):
        if not (isinstance(a[0], Opq) and a[0].tag == "bytes"): raise Unsupported("from_utf8")
        return fork(e, s, t["dt"], SeqV(T.chart, [("s", text(ident(a[0].args[0])))]))
    @call(r"^std::str::from_utf8$", r"^core::str::from_utf8$")
    def _(e, s, a, t):
        v = a[0]
        while isinstance(v, Ptr): v = e.load(s, v)
        if not (isinstance(v, Opq) and v.tag == "bytes"): raise Unsupported("from_utf8")
        return fork(e, s, t["dt"], Ptr(("V", SeqV(T.chart, [("s", text(ident(v.args[0])))]))))
    @call(r"convert::<impl std::convert::From<E> for std::boxed::Box<\(?dyn std::error::Error.*>::from$", r"Box<dyn std::error::Error.* as std::convert::From<.*>>::from$", r" as std::convert::Into<std::boxed::Box<dyn std::error::Error.*>>::into$")
    def _(e, s, a, t): return [(s, a[0])]
    return CALLS
def unit_file(J):
    rec = Rec("Doc::parse_file"); ex, L = pstep.setup(J); T = ex.ty; ex.obsrec = rec; rec.functions.add("Doc::parse_file")
    fn = [k for k, b in ex.bodies.items() if b["def"] == P + "Doc::parse_file"]
    if not fn: raise Unsupported("Doc::parse_file not found")
    st = St(); st.nbase = z3.Int("next0"); st.pc.append(z3.And(st.nbase >= 1, st.nbase < ISIZE))
    for n, t in ex.node_fields: st.heap[n] = z3.Const("H_" + n, z3.ArraySort(I, T.sort(t)))
    p0, cwd = z3.Consts("filename cwd", PathS); st.ghost["p0"] = p0; st.ghost["cwd"] = cwd; facts(st, p0)
    OPT = Agg(L.optt, 0, [z3.Bool("o_" + f[0]) for f in T[L.optt]["v"][0]["f"]])
    want = SeqV(T.chart, [("s", text(ident(p0)))])
    def c_parse(e, s, a, t):
        x = models.seqarg(e, s, a[0]); rec.prove(e, s, z3.BoolVal("parsed" not in s.ghost), "Doc::parse_file: one parse", PP)
        rec.prove(e, s, e.term(s, x) == text(ident(p0)), "Doc::parse_file: exactly the content of the file is parsed", PP)
        rec.prove(e, s, z3.And(*[zb(m) == zb(n) for m, n in zip(a[1].f, OPT.f)]), "Doc::parse_file: with the given options", PP)
        s2 = s.copy(); d, er = Opq("document"), Opq("parse error"); s.ghost["parsed"] = d; s2.ghost["parsed"] = er
        return [(s, Agg(t["dt"], 0, (d,))), (s2, Agg(t["dt"], 1, (er,)))]
    ex.contracts[P + "Doc::parse"] = c_parse
    calls = contracts(ex, rec); ref0 = ex.dispatch
    def dispatch(s_, c, args, t):
        nm = c.get("name") or ""; idef = c.get("idef") or c["def"]
        for r, f in calls:
            if r.search(idef) or r.search(nm) or r.search(c["def"]):
                try: res = f(ex, s_, args, t)
                except Unsupported:
                    if "std::fs" in nm or "std::path" in nm or "std::io" in nm: raise
                    break
                ex.modeled.add(idef); return ex.results(res, t)
        return ref0(s_, c, args, t)
    ex.dispatch = dispatch
    rec.covers.append((rec.unit, ex.feasible(st))); n = [0, 0, 0]
    for k, o in enumerate(ex.call_sym(st, fn[0], [Ptr(("V", mkp(p0))), OPT])):
        s = o.st
        if o.kind == "unsup": rec.unsup("Doc::parse_file: %s at %s" % (o.msg, o.loc), PP, o.msg); continue
        if o.kind == "panic": rec.prove(ex, s, False, "Doc::parse_file: no panic (%s at %s) [path %d]" % (o.msg, o.loc, k), PP); continue
        if not (isinstance(o.val, Agg) and o.val.v in (0, 1)): rec.unsup("Doc::parse_file: symbolic result", PP, repr(o.val)); continue
        v = o.val.f[0]
        if "parsed" in s.ghost:
            n[0] += 1; want_ok = s.ghost["parsed"].tag == "document"
            rec.prove(ex, s, z3.BoolVal((o.val.v == 0) == want_ok and v is s.ghost["parsed"]), "Doc::parse_file: the result of the parse is returned as it is [path %d]" % k, PP)
        else:
            n[1 + o.val.v] += 1
            rec.prove(ex, s, z3.BoolVal(o.val.v == 1), "Doc::parse_file: no document without a parse [path %d]" % k, PP)
            rec.prove(ex, s, z3.BoolVal("io" in s.ghost), "Doc::parse_file: an error only if the file cannot be read [path %d]" % k, PP)
    if not n[0] or not n[2]: rec.unsup("Doc::parse_file: no outcome of a kind", PP, repr(n))
    return rec, ex
UNITS = [("Doc::parse_file", unit_file, PP)]
if __name__ == "__main__":
    import sys, time; sys.setrecursionlimit(20000)
    J = json.load(open(sys.argv[1] if sys.argv[1:] else "/verif/build/mir.json"))
    t = time.time(); rec, ex = unit_file(J)
    print("==", "%.1fs" % (time.time() - t), len(rec.obls), "obligations", sum(o["status"] == "proved" for o in rec.obls), "proved", [n for n, ok in rec.covers if not ok])
    for o in rec.obls: print("   ", o["status"], o["name"], (o["detail"] or "")[:400])
