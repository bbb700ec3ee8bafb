"""mirv: a verification condition generator over the compiler's MIR (see DESIGN.md).

Path-wise symbolic execution of the dumped MIR bodies.  Values are immutable Python objects or z3 terms;
machine integers and chars are z3 Ints with explicit overflow assertions (they are in the MIR), vectors,
slices and strings are z3 sequences, Rc<RefCell<Node>> is an integer handle into one z3 array per Node field.
"""
import z3, re, time
I, B = z3.IntSort(), z3.BoolSort()
USIZE = 2**64
ISIZE = 2**63 - 1

class Unsupported(Exception):
    pass

# ---- sequences: one uninterpreted sort per element sort with length, element and slice functions
class _Seq:
    def __init__(s, es):
        n = es.name()
        s.es = es; s.S = z3.DeclareSort("Seq_" + n)
        s.len = z3.Function("len_" + n, s.S, I); s.at = z3.Function("at_" + n, s.S, I, es)
        s.sub = z3.Function("sub_" + n, s.S, I, I, s.S)      # sub(s, lo, hi)
        s.empty = z3.Const("empty_" + n, s.S)
        s.snoc = z3.Function("snoc_" + n, s.S, es, s.S); s.app = z3.Function("app_" + n, s.S, s.S, s.S)
_SEQS = {}; _BYS = {}
def seqof(es):
    k = es.name()
    if k not in _SEQS:
        q = _Seq(es); _SEQS[k] = q; _BYS[q.S.name()] = q
    return _SEQS[k]
def seqth(term): return _BYS[term.sort().name()]
def is_seqsort(so): return so.name() in _BYS
def slen(x):
    q = seqth(x)
    if x.decl().eq(q.sub): return z3.simplify(x.arg(2) - x.arg(1))
    if x.eq(q.empty): return z3.IntVal(0)
    return q.len(x)
def sat(x, i):
    q = seqth(x)
    if x.decl().eq(q.sub): return sat(x.arg(0), z3.simplify(x.arg(1) + i))
    return q.at(x, i)
def ssub(x, lo, hi):
    q = seqth(x)
    if x.decl().eq(q.sub): return ssub(x.arg(0), z3.simplify(x.arg(1) + lo), z3.simplify(x.arg(1) + hi))
    lo, hi = z3.simplify(lo), z3.simplify(hi)
    if z3.is_int_value(lo) and lo.as_long() == 0 and hi.eq(z3.simplify(slen(x))): return x
    return q.sub(x, lo, hi)
CATT = {}      # id of a concatenation term -> (term, SeqV, defining axioms)
def seq_axioms():
    out = []
    for q in _SEQS.values():
        x = z3.Const("x", q.S); i = z3.Int("i"); lo, hi = z3.Ints("lo hi")
        out.append(z3.ForAll([x], z3.Implies(q.len(x) == 0, x == q.empty), patterns=[q.len(x)]))
        out.append(q.len(q.empty) == 0)
        out.append(z3.ForAll([x], q.len(x) >= 0, patterns=[q.len(x)]))
    return out

class Agg:
    __slots__ = ("ty", "v", "f")
    def __init__(s, ty, v, f): s.ty, s.v, s.f = ty, v, tuple(f)
    def __repr__(s): return "Agg(%s,%s,%r)" % (s.ty, s.v, s.f)
class SEnum:
    """enum with symbolic discriminant; pay: {variant: fields}"""
    __slots__ = ("ty", "d", "pay", "src")
    def __init__(s, ty, d, pay, src=None): s.ty, s.d, s.pay, s.src = ty, d, pay, src
    def __repr__(s): return "SEnum(%s,%s)" % (s.ty, s.d)
class SeqV:
    __slots__ = ("ety", "segs", "_t")
    def __init__(s, ety, segs=()): s.ety, s.segs, s._t = ety, tuple(segs), None
    def __repr__(s): return "SeqV(%r)" % (s.segs,)
class MapV:
    """base: None (empty) or z3 array key->Int (-1 = absent); upd: list of (key, val), newest last"""
    __slots__ = ("kty", "vty", "base", "upd")
    def __init__(s, kty, vty, base=None, upd=()): s.kty, s.vty, s.base, s.upd = kty, vty, base, tuple(upd)
class RcV:
    __slots__ = ("k", "h")
    def __init__(s, k, h): s.k, s.h = k, h
    def __repr__(s): return "Rc(%s,%s)" % (s.k, s.h)
class WeakV:
    __slots__ = ("k", "h")
    def __init__(s, k, h): s.k, s.h = k, h
    def __repr__(s): return "Weak(%s,%s)" % (s.k, s.h)
class Ptr:
    """base: ('L',frame uid,local) | ('H',handle) | ('C',cell) | ('V',value)"""
    __slots__ = ("b", "p")
    def __init__(s, b, p=()): s.b, s.p = b, tuple(p)
    def __repr__(s): return "Ptr(%s,%r)" % (s.b[:3] if s.b[0] != 'V' else 'V', s.p)
class Guard:
    __slots__ = ("id", "ptr", "mut")
    def __init__(s, id, ptr, mut): s.id, s.ptr, s.mut = id, ptr, mut
class BoxV:
    __slots__ = ("val", "cell")
    def __init__(s, val=None, cell=None): s.val, s.cell = val, cell
class FnV:
    __slots__ = ("sym", "name")
    def __init__(s, sym, name): s.sym, s.name = sym, name
    def __repr__(s): return "Fn(%s)" % s.name
class Opq:
    __slots__ = ("tag", "args")
    def __init__(s, tag, args=()): s.tag, s.args = tag, args
    def __repr__(s): return "Opq(%s)" % s.tag
class IterV:
    """lazy sequence: src SeqV, position range [lo,hi); byval: yields values instead of references; ops: adaptors"""
    __slots__ = ("seq", "lo", "hi", "kind", "rev", "enum")
    def __init__(s, seq, lo, hi, kind, rev=False, enum=False): s.seq, s.lo, s.hi, s.kind, s.rev, s.enum = seq, lo, hi, kind, rev, enum
    def repl(s, **k):
        d = dict(seq=s.seq, lo=s.lo, hi=s.hi, kind=s.kind, rev=s.rev, enum=s.enum); d.update(k); return IterV(**d)
class Uninit:
    def __repr__(s): return "Uninit"
UN = Uninit()
UNIT = None  # set by Ex

def isz(x): return isinstance(x, z3.ExprRef)
def zi(x):
    if isinstance(x, bool): return z3.IntVal(int(x))
    return z3.IntVal(x) if isinstance(x, int) else x
def zb(x): return z3.BoolVal(x) if isinstance(x, bool) else x
def conc(x):
    """try to make a scalar concrete"""
    if isz(x):
        if z3.is_int_value(x): return x.as_long()
        if z3.is_true(x): return True
        if z3.is_false(x): return False
    return x
def simp(x):
    if not isz(x): return x
    return conc(z3.simplify(x))
def eq(a, b):
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)): return int(a) == int(b)
    if isz(a) and z3.is_bool(a) or isinstance(a, bool): return simp(zb(a) == zb(b)) if (isz(b) and z3.is_bool(b)) or isinstance(b, bool) else Unsup("eq")
    return simp(zi(a) == zi(b))
def Unsup(m): raise Unsupported(m)
def And(*a):
    a = [x for x in a if x is not True]
    if any(x is False for x in a): return False
    return True if not a else (a[0] if len(a) == 1 else z3.And(*a))
def Or(*a):
    a = [x for x in a if x is not False]
    if any(x is True for x in a): return True
    return False if not a else (a[0] if len(a) == 1 else z3.Or(*a))
def Not(a):
    if isinstance(a, bool): return not a
    return z3.Not(a)
def add(a, b):
    if isinstance(a, int) and isinstance(b, int): return a + b
    if isinstance(b, int) and b == 0: return a
    if isinstance(a, int) and a == 0: return b
    return zi(a) + zi(b)
def sub(a, b):
    if isinstance(a, int) and isinstance(b, int): return a - b
    if isinstance(b, int) and b == 0: return a
    return simp(zi(a) - zi(b))
def le(a, b): return (a <= b) if isinstance(a, int) and isinstance(b, int) else simp(zi(a) <= zi(b))
def lt(a, b): return (a < b) if isinstance(a, int) and isinstance(b, int) else simp(zi(a) < zi(b))
def ite(c, a, b):
    if c is True: return a
    if c is False: return b
    if (isinstance(a, bool) or (isz(a) and z3.is_bool(a))): return z3.If(c, zb(a), zb(b))
    return z3.If(c, zi(a), zi(b))

class Frame:
    __slots__ = ("uid", "body", "bb", "loc", "dest", "nxt", "loops", "stop", "sym", "aux")
    def __init__(s, uid, sym, body):
        s.uid, s.sym, s.body, s.bb, s.loc, s.dest, s.nxt, s.loops, s.stop, s.aux = uid, sym, body, 0, {}, None, None, {}, False, None
    def copy(s):
        f = Frame(s.uid, s.sym, s.body)
        f.bb, f.loc, f.dest, f.nxt, f.loops, f.stop, f.aux = s.bb, dict(s.loc), s.dest, s.nxt, dict(s.loops), s.stop, s.aux
        return f

class St:
    def __init__(s):
        s.frames = []; s.cells = {}; s.heap = {}; s.nbase = None; s.nk = 0
        s.guards = {}; s.pc = []; s.facts = set(); s.trace = []; s.ghost = {}; s.lines = []
    def copy(s):
        t = St()
        t.frames = [f.copy() for f in s.frames]; t.cells = dict(s.cells); t.heap = dict(s.heap); t.nbase, t.nk = s.nbase, s.nk
        t.guards = dict(s.guards); t.pc = list(s.pc); t.facts = set(s.facts); t.trace = list(s.trace); t.ghost = dict(s.ghost); t.lines = list(s.lines)
        return t
    def top(s): return s.frames[-1]
    def frame(s, uid):
        for f in reversed(s.frames):
            if f.uid == uid: return f
        raise Unsupported("dangling frame pointer")
    def next(s): return add(s.nbase, s.nk)

class Out:
    """outcome of a path: kind ret | panic | unsup | cut"""
    def __init__(s, kind, st, val=None, msg=None, loc=None): s.kind, s.st, s.val, s.msg, s.loc = kind, st, val, msg, loc
class Panic:
    def __init__(s, msg): s.msg = msg

NAMED = {}; _BYT = {}
def has_ite(t, seen=None):
    if seen is None: seen = set()
    if t.get_id() in seen: return False
    seen.add(t.get_id())
    return z3.is_app(t) and (t.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE) or any(has_ite(c, seen) for c in t.children()))
def named(t):
    """a constant for a term that cannot occur in a pattern"""
    if not has_ite(t): return t
    k = t.get_id()
    if k not in _BYT:
        c = fresh(t.sort(), "nm"); _BYT[k] = c; NAMED[c.get_id()] = (c, t)
    return _BYT[k]

class Types:
    def __init__(s, J):
        s.T = J["types"]; s._sort = {}; s._dt = {}; s.by = {}; s.touched = []
        s.chart = next(i for i, t in enumerate(s.T) if t["k"] == "char")
        s.boolt = next(i for i, t in enumerate(s.T) if t["k"] == "bool")
        s.usizet = next(i for i, t in enumerate(s.T) if t["k"] == "uint" and t["bits"] == 64)
    def __getitem__(s, i): return s.T[i]
    def name(s, i):
        t = s.T[i]; return t.get("n", t["k"])
    def find(s, name):
        for i, t in enumerate(s.T):
            if t["k"] == "adt" and t["n"] == name: return i
        raise Unsupported("type %s not found" % name)
    def elem(s, i):
        t = s.T[i]
        if t["k"] in ("slice", "array"): return t["e"]
        if t["k"] == "str": return s.chart
        if t["k"] == "adt":
            if t["n"].endswith("::Vec") : return t["a"][0]
            if t["n"].endswith("string::String"): return s.chart
        return None
    def isvec(s, i): return s.elem(i) is not None
    def handle_kind(s, i):
        """Rc/Weak -> kind"""
        t = s.T[i]
        if t["k"] == "adt" and (t["n"].endswith("rc::Rc") or t["n"].endswith("rc::Weak")):
            p = s.T[t["a"][0]]
            if p["k"] == "adt" and p["n"].endswith("cell::RefCell"):
                q = s.T[p["a"][0]]
                if q["k"] == "adt" and q["n"].endswith("parser::Node"): return "node"
                if q["k"] == "adt" and q["n"].endswith("parser::Doc"): return "doc"
            return "cell"
        return None
    def isopt(s, i):
        t = s.T[i]; return t["k"] == "adt" and t["n"].endswith("option::Option")
    def unit_enum(s, i):
        t = s.T[i]; return t["k"] == "adt" and t["kind"] == "Enum" and t["open"] and len(t["v"]) > 0 and all(not v["f"] for v in t["v"])
    def sort(s, i):
        if i in s._sort: return s._sort[i]
        s._sort[i] = r = s._mk(i)
        return r
    def _mk(s, i):
        t = s.T[i]; k = t["k"]
        if k == "bool": return B
        if k in ("char", "int", "uint"): return I
        if k in ("fnptr", "dyn", "fndef"): return I
        if s.isvec(i): return seqof(s.sort(s.elem(i))).S
        if k == "ref": return s.sort(t["e"])
        if k == "adt":
            if s.handle_kind(i): return I
            if s.isopt(i) and s.handle_kind(t["a"][0]): return I
            if s.unit_enum(i): return I
            if t["n"].endswith("HashMap"): return z3.ArraySort(s.sort(t["a"][0]), I)
            if t["n"].endswith("cell::RefCell"): return s.sort(t["a"][0])
            if t["open"]:
                name = "T%d_%s" % (i, t["n"].split("::")[-1])
                d = z3.Datatype(name)
                for vi, v in enumerate(t["v"]):
                    d.declare("%s_%s" % (name, v["n"]), *[("%s_%s_%s" % (name, v["n"], fn), s.sort(ft)) for fn, ft in v["f"]])
                return d.create()
        if k == "tuple":
            name = "T%d_tuple" % i
            d = z3.Datatype(name); d.declare(name, *[("%s_%d" % (name, j), s.sort(ft)) for j, ft in enumerate(t["f"])])
            return d.create()
        raise Unsupported("no sort for type %s" % (t.get("n") or k))
    # payload field types of a variant
    def vfields(s, i, v):
        t = s.T[i]
        if t["k"] == "tuple": return t["f"]
        if t["k"] == "closure": return t["f"]
        if t["k"] == "adt": return [f[1] for f in t["v"][v]["f"]]
        raise Unsupported("fields of " + str(t))

    def pack(s, i, v):
        t = s.T[i]; k = t["k"]
        if k == "bool": return zb(v)
        if k in ("char", "int", "uint"): return zi(v)
        if s.isvec(i):
            if isinstance(v, SeqV): return s.seqterm(v)
            raise Unsupported("pack vec %r" % (v,))
        if k == "ref": raise Unsupported("pack ref")
        if k == "adt":
            if s.handle_kind(i):
                return zi(v.h)
            if s.isopt(i) and s.handle_kind(t["a"][0]):
                if isinstance(v, SEnum) and v.src is not None and v.src.sort() == I: return v.src
                if isinstance(v, SEnum): return z3.If(zi(v.d) == 1, zi(v.pay[1][0].h), z3.IntVal(-1)) if isz(v.d) else (zi(v.pay[1][0].h) if v.d == 1 else z3.IntVal(-1))
                return zi(v.f[0].h) if v.v == 1 else z3.IntVal(-1)
            if s.unit_enum(i):
                return zi(s.disc(v))
            if t["n"].endswith("HashMap"): return s.mapterm(i, v)
            if t["n"].endswith("cell::RefCell"): return s.pack(t["a"][0], v)
            so = s.sort(i)
            if isinstance(v, SEnum):
                if v.src is not None and v.src.sort() == so: return v.src
                if not isz(v.d): return s.pack(i, Agg(i, s.var_of(i, v.d), v.pay.get(s.var_of(i, v.d), ())))
                r = None
                for vi in reversed(range(len(t["v"]))):
                    if vi in v.pay or not t["v"][vi]["f"]:
                        c = so.constructor(vi)(*[s.pack(ft, x) for ft, x in zip(s.vfields(i, vi), v.pay.get(vi, ()))])
                        r = c if r is None else z3.If(v.d == t["v"][vi]["d"], c, r)
                return r
            return so.constructor(v.v)(*[s.pack(ft, x) for ft, x in zip(s.vfields(i, v.v), v.f)])
        if k == "tuple":
            return s.sort(i).constructor(0)(*[s.pack(ft, x) for ft, x in zip(t["f"], v.f)])
        raise Unsupported("pack %s" % (t.get("n") or k))
    def var_of(s, i, d):
        for vi, v in enumerate(s.T[i]["v"]):
            if v["d"] == d: return vi
        raise Unsupported("discriminant %s" % d)
    def disc(s, v):
        if isinstance(v, SEnum): return v.d
        if isinstance(v, Agg): return s.T[v.ty]["v"][v.v]["d"]
        raise Unsupported("discriminant of %r" % (v,))
    def seqterm(s, v):
        if v._t is not None:
            if v._t.get_id() in CATT: s.touched.append(v._t)
            return v._t
        q = seqof(s.sort(v.ety)); ps = []
        for kind, x in v.segs:
            if kind == "e": ps.append(("e", named(s.pack(v.ety, x))))
            elif not (z3.is_app(x) and x.eq(q.empty)): ps.append(("s", named(x)))
        if not ps: r = q.empty
        elif len(ps) == 1 and ps[0][0] == "s":
            r = ps[0][1]
            if r.get_id() in NAMED and r.get_id() not in CATT: CATT[r.get_id()] = (r, SeqV(v.ety, [("s", r)]), [r == NAMED[r.get_id()][1]])
            if r.get_id() in CATT: s.touched.append(r)
        else:
            r = q.empty; pre = []
            for k, x in ps:
                if k == "s" and r.eq(q.empty): r = x; pre.append((k, x)); continue
                r = q.snoc(r, x) if k == "e" else q.app(r, x)
                pre.append((k, x)); key = r.get_id()
                if key not in CATT:
                    defs = []; off = z3.IntVal(0); i = z3.Int("i"); parts = []
                    for k2, y in pre:
                        n = z3.IntVal(1) if k2 == "e" else slen(y)
                        parts.append((k2, y, off, n)); off = z3.simplify(off + n)
                        if k2 == "s": defs.append(n >= 0)
                    defs.append(q.len(r) == off)
                    for k2, y in pre:
                        if y.get_id() in NAMED: defs.append(y == NAMED[y.get_id()][1])
                    for k2, y, o, n in parts:
                        if k2 == "e": defs.append(q.at(r, o) == y)
                    if any(k2 == "s" for k2, *_ in parts):
                        e = parts[-1][1] if parts[-1][0] == "e" else sat(parts[-1][1], i - parts[-1][2])
                        for k2, y, o, n in reversed(parts[:-1]):
                            e = z3.If(i < o + n, y if k2 == "e" else sat(y, i - o), e)
                        defs.append(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < off), q.at(r, i) == e), patterns=[q.at(r, i)]))
                    segs = tuple((k2, (s.unpack(v.ety, y) if k2 == "e" else y)) for k2, y in pre)
                    CATT[key] = (r, SeqV(v.ety, segs), defs)
            s.touched.append(r)
        v._t = r
        return r
    def mapterm(s, i, v):
        t = s.T[i]
        r = v.base if v.base is not None else z3.K(s.sort(t["a"][0]), z3.IntVal(-1))
        for k, x in v.upd:
            r = z3.Store(r, s.pack(t["a"][0], k), s.pack(t["a"][1], x))
        return r
    def facts(s, i, term, nxt, out):
        """type invariants of a term of type i"""
        t = s.T[i]; k = t["k"]
        if k == "char": out.append(z3.And(term >= 0, term <= 0x10FFFF))
        elif k == "uint": out.append(z3.And(term >= 0, term < 2**t["bits"]))
        elif k == "int": out.append(z3.And(term >= -2**(t["bits"]-1), term < 2**(t["bits"]-1)))
        elif k == "adt":
            if s.handle_kind(i) == "node": out.append(z3.And(term >= 0, term < nxt))
            elif s.isopt(i) and s.handle_kind(t["a"][0]) == "node": out.append(z3.And(term >= -1, term < nxt))
            elif s.unit_enum(i): out.append(z3.Or(*[term == v["d"] for v in t["v"]]) if len(t["v"]) > 3 and [v["d"] for v in t["v"]] != list(range(len(t["v"]))) else z3.And(term >= 0, term < len(t["v"])))
    def unpack(s, i, term, st=None):
        t = s.T[i]; k = t["k"]
        if st is not None:
            key = (i, term.get_id())
            if key not in st.facts:
                st.facts.add(key)
                o = []
                s.facts(i, term, zi(st.next()) if st.nbase is not None else None, o)
                for c in o: addfact(st, c)
                if o: st.trace.append(term)  # keep the term alive
        if k in ("bool", "char", "int", "uint"): return conc(term)
        if s.isvec(i):
            if term.get_id() in CATT: return CATT[term.get_id()][1]
            if term.eq(seqth(term).empty): return SeqV(s.elem(i))
            return SeqV(s.elem(i), [("s", term)])
        if k == "adt":
            hk = s.handle_kind(i)
            if hk:
                return (RcV if t["n"].endswith("Rc") else WeakV)(hk, conc(term))
            if s.isopt(i) and s.handle_kind(t["a"][0]):
                a = t["a"][0]; C = RcV if s.T[a]["n"].endswith("Rc") else WeakV
                c = conc(term)
                if isinstance(c, int): return Agg(i, 0, ()) if c == -1 else Agg(i, 1, (C(s.handle_kind(a), c),))
                return SEnum(i, simp(z3.If(term == -1, z3.IntVal(0), z3.IntVal(1))), {1: (C(s.handle_kind(a), term),)}, term)
            if s.unit_enum(i):
                c = conc(term)
                if isinstance(c, int): return Agg(i, s.var_of(i, c), ())
                return SEnum(i, term, {})
            if t["n"].endswith("HashMap"): return MapV(t["a"][0], t["a"][1], term)
            if t["n"].endswith("cell::RefCell"): return s.unpack(t["a"][0], term, st)
            if t["open"]:
                so = s.sort(i)
                if z3.is_app(term) and term.num_args() == len(t["v"][0]["f"]) and False: pass
                if t["kind"] == "Struct":
                    return Agg(i, 0, [s.unpack(ft, simpacc(so.accessor(0, j), term), st) for j, ft in enumerate(s.vfields(i, 0))])
                # constructor application?
                for vi in range(len(t["v"])):
                    if z3.is_app(term) and term.decl().eq(so.constructor(vi)):
                        return Agg(i, vi, [s.unpack(ft, term.arg(j), st) for j, ft in enumerate(s.vfields(i, vi))])
                d = None
                for vi in reversed(range(len(t["v"]))):
                    dv = z3.IntVal(t["v"][vi]["d"])
                    d = dv if d is None else z3.If(so.recognizer(vi)(term), dv, d)
                return SEnum(i, d, {vi: tuple(s.unpack(ft, so.accessor(vi, j)(term), None) for j, ft in enumerate(s.vfields(i, vi))) for vi in range(len(t["v"])) if t["v"][vi]["f"]}, term)
        if k == "tuple":
            so = s.sort(i)
            return Agg(i, 0, [s.unpack(ft, simpacc(so.accessor(0, j), term), st) for j, ft in enumerate(t["f"])])
        raise Unsupported("unpack %s" % (t.get("n") or k))
def simpacc(acc, term):
    if z3.is_app(term) and term.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR:
        so = term.sort()
        for ci in range(so.num_constructors()):
            if so.constructor(ci).eq(term.decl()):
                for j in range(term.num_args()):
                    if so.accessor(ci, j).eq(acc): return term.arg(j)
    return acc(term)

QUANT = {}     # quantified invariant clauses: kept out of the feasibility solver
KNOWN = {}     # id of a read of the initial heap -> (the read, the equal term used for it)
FACTS = {}
def isfact(c): return c.get_id() in FACTS
def addfact(st, c):
    FACTS[c.get_id()] = c; st.pc.append(c)
_fresh = [0]
def fresh(sort, name="v"):
    _fresh[0] += 1
    return z3.Const("%s!%d" % (name, _fresh[0]), sort)

def mksolver(ms, seed=0):
    s = z3.SimpleSolver()
    if seed: s.set("random_seed", seed)
    s.set("timeout", ms); s.set("mbqi", False); s.set("auto_config", False)
    for a in seq_axioms(): s.add(a)
    return s
