"""The symbolic executor."""
import z3, time
from core import *
import models, loops

class Ex:
    def __init__(s, J, contracts=None, loop_specs=None, max_visits=40, max_paths=4000, hooks=None):
        s.J = J; s.ty = Types(J); s.bodies = J["bodies"]
        s.byname = {}
        for k, b in s.bodies.items(): s.byname.setdefault(b["name"], k)
        s.contracts = contracts or {}; s.loop_specs = loop_specs or {}
        s.max_visits, s.max_paths = max_visits, max_paths
        s.uid = 0; s.gid = 0; s.cellid = 0
        s.sol = mksolver(2000); s.sol.set("rlimit", 300000); s.stk = []
        s.nfeas = 0; s.tfeas = 0.0; s.nprove = 0; s.tprove = 0.0
        s.axioms = []          # facts valid in every state (spec function definitions)
        s.lazy = {}            # lazy_static values
        s.loopheads = {}
        s.called = set()       # bodies executed
        s.modeled = set()      # natively modelled callees used
        s.contracted = set()   # callees used through their contract
        s.maps = []; s.preds = []; s.loop_templates = []; s.summaries = []
        s.quiet = True; s._mg = {}; s.dropcache = {}
        global UNIT
        s.unit_ty = next(i for i, t in enumerate(s.ty.T) if t["k"] == "tuple" and not t["f"])
        s.UNIT = Agg(s.unit_ty, 0, ())
        s.deadline = None
        s.node_ty = None
        for i, t in enumerate(s.ty.T):
            if t["k"] == "adt" and t["n"] == "rphtml::parser::Node": s.node_ty = i
        s.node_fields = [(f[0], f[1]) for f in s.ty[s.node_ty]["v"][0]["f"]] if s.node_ty is not None else []
        s.nf = {n: i for i, (n, _) in enumerate(s.node_fields)}
    # ---------- solver
    def sync(s, st):
        pc = [c for c in st.pc if c.get_id() not in QUANT] if QUANT else st.pc
        n = 0; m = min(len(pc), len(s.stk))
        while n < m and pc[n] is s.stk[n]: n += 1
        if len(s.stk) > n: s.sol.pop(len(s.stk) - n); del s.stk[n:]
        for c in pc[n:]:
            s.sol.push(); s.sol.add(c); s.stk.append(c)
    def feasible(s, st, cond=True):
        if cond is False: return False
        if s.deadline and time.time() > s.deadline: raise Unsupported("time budget")
        s.sync(st); t = time.time(); s.nfeas += 1
        r = s.sol.check(*([cond] if cond is not True else []))
        s.tfeas += time.time() - t
        return r != z3.unsat
    def fork(s, st, cond):
        """list of (state, truth)"""
        cond = simp(cond) if isz(cond) else cond
        if isinstance(cond, bool): return [(st, cond)]
        r = []
        ft = s.feasible(st, cond); ff = s.feasible(st, z3.Not(cond))
        if ft and ff:
            st2 = st.copy(); st.pc.append(cond); st2.pc.append(z3.Not(cond))
            return [(st, True), (st2, False)]
        if ft: return [(st, True)]
        if ff: return [(st, False)]
        return []
    def must(s, st, cond):
        cond = simp(cond) if isz(cond) else cond
        if isinstance(cond, bool): return cond
        return not s.feasible(st, z3.Not(cond))
    # ---------- memory
    def node_read_field(s, st, h, i):
        name, ft = s.node_fields[i]
        return s.ty.unpack(ft, simpsel(st.heap[name], zi(h)), st)
    def node_write_field(s, st, h, i, v):
        name, ft = s.node_fields[i]
        st.heap[name] = z3.Store(st.heap[name], zi(h), s.pack(st, ft, v))
        if name in ("childs", "end_tag"): models.anchor(s, st, name, v)
    def alloc_node(s, st, v):
        h = simp(st.next()); st.nk += 1
        if "anch" in st.ghost: st.ghost["anch"] = z3.Store(st.ghost["anch"], zi(h), z3.BoolVal(False))
        for i in range(len(s.node_fields)): s.node_write_field(st, h, i, v.f[i])
        return h
    def newcell(s, st, v):
        s.cellid += 1; st.cells[s.cellid] = v
        return s.cellid
    def nav(s, st, v, e):
        if e[0] == "f":
            if isinstance(v, Agg): return v.f[e[1]]
            if isinstance(v, tuple) and v and v[0] == "variant": return v[1][e[1]]
            if isinstance(v, BoxV) and e[1] == 0: return Opq("boxptr", v.cell)
            raise Unsupported("field of %r" % (v,))
        if e[0] == "v":
            if isinstance(v, Agg):
                if v.v != e[1]: raise Unsupported("downcast mismatch")
                return v
            if isinstance(v, SEnum):
                if e[1] not in v.pay: return ("variant", ())
                return ("variant", v.pay[e[1]])
            raise Unsupported("downcast of %r" % (v,))
        if e[0] == "i":
            return s.seq_at(st, v, e[1])
        if e[0] == "ss":
            return s.seq_slice(v, e[1], e[2], st)
        raise Unsupported("projection %s" % (e,))
    def upd(s, st, v, path, new):
        if not path: return new
        if v is UN: return new      # write into an uninitialised box
        e = path[0]
        if e[0] == "f":
            if isinstance(v, Agg):
                f = list(v.f); f[e[1]] = s.upd(st, f[e[1]], path[1:], new); return Agg(v.ty, v.v, f)
        if e[0] == "v":
            if isinstance(v, Agg): return s.upd(st, v, path[1:], new)
            if isinstance(v, SEnum) and len(path) > 1 and path[1][0] == "f":
                pay = dict(v.pay); f = list(pay[e[1]]); f[path[1][1]] = s.upd(st, f[path[1][1]], path[2:], new); pay[e[1]] = tuple(f)
                return SEnum(v.ty, v.d, pay)
        if e[0] == "i":
            old = s.seq_at(st, v, e[1]); nv = s.upd(st, old, path[1:], new)
            return s.seq_set(st, v, e[1], nv)
        raise Unsupported("write through %s" % (e,))
    def load(s, st, p):
        b = p.b; path = p.p
        if b[0] == "L":
            v = st.frame(b[1]).loc.get(b[2], UN)
        elif b[0] == "V": v = b[1]
        elif b[0] == "C":
            if b[1] not in st.cells: raise Unsupported("cell %s" % (b[1],))
            v = st.cells[b[1]]
        elif b[0] == "H":
            if not path: return Agg(s.node_ty, 0, [s.node_read_field(st, b[1], i) for i in range(len(s.node_fields))])
            v = s.node_read_field(st, b[1], path[0][1]); path = path[1:]
        for e in path: v = s.nav(st, v, e)
        if isinstance(v, tuple): raise Unsupported("load of variant")
        return v
    def store(s, st, p, v):
        b = p.b
        if b[0] == "L":
            fr = st.frame(b[1])
            fr.loc[b[2]] = s.upd(st, fr.loc.get(b[2], UN), p.p, v) if p.p else v
        elif b[0] == "C": st.cells[b[1]] = s.upd(st, st.cells[b[1]], p.p, v)
        elif b[0] == "H":
            if not p.p:
                for i in range(len(s.node_fields)): s.node_write_field(st, b[1], i, v.f[i])
            else:
                i = p.p[0][1]
                if len(p.p) > 1: v = s.upd(st, s.node_read_field(st, b[1], i), p.p[1:], v)
                s.node_write_field(st, b[1], i, v)
        else: raise Unsupported("store through %r" % (p,))
    def place(s, st, pl):
        fr = st.top(); cur = Ptr(("L", fr.uid, pl[0]), ())
        for e in pl[1]:
            if e[0] == "*":
                v = s.load(st, cur)
                cur = s.deref(st, v)
            elif e[0] == ".": cur = Ptr(cur.b, cur.p + (("f", e[1]),))
            elif e[0] == "d": cur = Ptr(cur.b, cur.p + (("v", e[1]),))
            elif e[0] == "i": cur = Ptr(cur.b, cur.p + (("i", fr.loc[e[1]]),))
            elif e[0] == "ci":
                if e[3]: cur = Ptr(cur.b, cur.p + (("i", sub(s.seq_len(st, s.load(st, cur)), e[1])),))
                else: cur = Ptr(cur.b, cur.p + (("i", e[1]),))
            elif e[0] == "ss":
                v = s.load(st, cur); n = s.seq_len(st, v)
                hi = sub(n, e[2]) if e[3] else e[2]
                cur = Ptr(("V", s.seq_slice(v, e[1], hi, st)), ())
            elif e[0] == "oc": pass
            else: raise Unsupported("projection %s" % e[0])
        return cur
    def deref(s, st, v):
        if isinstance(v, Ptr): return v
        if isinstance(v, BoxV): return Ptr(("C", v.cell))
        if isinstance(v, Guard): return v.ptr
        raise Unsupported("deref of %r" % (v,))
    # ---------- sequences
    def seq_len(s, st, v):
        if not isinstance(v, SeqV): raise Unsupported("len of %r" % (v,))
        n = 0; z = None
        for k, x in v.segs:
            if k == "e": n += 1
            else:
                x = s.unmap(x)
                l = slen(x)
                if st is not None:
                    key = ("len", x.get_id())
                    if key not in st.facts:
                        st.facts.add(key); st.trace.append(x); addfact(st, z3.And(l >= 0, l <= ISIZE))
                z = l if z is None else z + l
        if z is None: return n
        return z + n if n else z
    def seq_at(s, st, v, i):
        if not isinstance(v, SeqV): raise Unsupported("index of %r" % (v,))
        i = simp(i) if isz(i) else i
        if isinstance(i, int):
            j = i
            for k, x in v.segs:
                if k != "e": break
                if j == 0: return x
                j -= 1
        n = simp(s.seq_len(st, v))
        # from the end
        back = simp(sub(n, i))
        if isinstance(back, int) and back >= 1:
            j = back
            for k, x in reversed(v.segs):
                if k != "e": break
                if j == 1: return x
                j -= 1
        if len(v.segs) == 1 and v.segs[0][0] == "s":
            return s.elem_at(st, v.ety, v.segs[0][1], i)
        # locate the segment
        off = 0
        for k, x in v.segs:
            n1 = 1 if k == "e" else slen(s.unmap(x))
            if st is None: break
            if s.must(st, And(le(off, i), lt(i, add(off, n1)))):
                return x if k == "e" else s.elem_at(st, v.ety, x, simp(sub(i, off)))
            off = simp(add(off, n1)) if isz(off) or isz(n1) else off + n1
        return s.ty.unpack(v.ety, sat(s.term(st, v), zi(i)), st)
    def unmap(s, x):
        """argument of a pointwise map (same length)"""
        while z3.is_app(x) and x.num_args() == 1 and x.decl().name() in models.MAPS: x = x.arg(0)
        return x
    def elem_at(s, st, ety, x, i):
        if z3.is_app(x) and x.num_args() == 1 and x.decl().name() in models.MAPS:
            return models.MAPS[x.decl().name()](s.elem_at(st, ety, x.arg(0), i))
        return s.ty.unpack(ety, sat(x, zi(i)), st)
    def seq_set(s, st, v, i, nv):
        i = simp(i) if isz(i) else i
        n = simp(s.seq_len(st, v))
        if isinstance(i, int) and all(k == "e" for k, _ in v.segs[:i + 1]) and i < len(v.segs):
            segs = list(v.segs); segs[i] = ("e", nv); return SeqV(v.ety, segs)
        back = simp(sub(n, i))
        if isinstance(back, int) and 1 <= back <= len(v.segs) and all(k == "e" for k, _ in v.segs[-back:]):
            segs = list(v.segs); segs[-back] = ("e", nv); return SeqV(v.ety, segs)
        lo = s.seq_slice(v, 0, i, st); hi = s.seq_slice(v, add(i, 1), n, st)
        return SeqV(v.ety, lo.segs + (("e", nv),) + hi.segs)
    def seq_slice(s, v, lo, hi, st=None):
        lo = simp(lo) if isz(lo) else lo; hi = simp(hi) if isz(hi) else hi
        n = simp(s.seq_len(st, v))
        if isinstance(lo, int) and lo == 0 and (hi is n or (isz(hi) and isz(n) and hi.eq(n)) or (not isz(hi) and not isz(n) and hi == n)): return v
        if isinstance(lo, int) and isinstance(hi, int) and hi <= lo: return SeqV(v.ety)
        if isz(lo) and isz(hi) and lo.eq(hi): return SeqV(v.ety)
        # drop elements from the end
        segs = list(v.segs)
        back = simp(sub(n, hi))
        if isinstance(back, int):
            while back > 0 and segs and segs[-1][0] == "e": segs.pop(); back -= 1
            if back == 0: hi = None
        front = lo
        if isinstance(front, int):
            while front > 0 and segs and segs[0][0] == "e": segs.pop(0); front -= 1
            if hi is not None and isinstance(hi, int): hi2 = hi - (lo - front)
            elif hi is not None: hi2 = sub(hi, lo - front)
            else: hi2 = None
            if front == 0 and hi2 is None: return SeqV(v.ety, segs)
            if isinstance(hi2, int) and front == 0 and all(k == "e" for k, _ in segs[:hi2]) and len(segs) >= hi2: return SeqV(v.ety, segs[:hi2])
            w = SeqV(v.ety, segs); n2 = simp(s.seq_len(None, w))
            if hi2 is None: hi2 = n2
            return s.slice_term(st, w, front, hi2)
        w = SeqV(v.ety, segs)
        if hi is None: hi = s.seq_len(None, w)
        return s.slice_term(st, w, lo, hi)
    def slice_term(s, st, w, lo, hi):
        if st is not None and len(w.segs) > 1:
            # locate whole segments inside the range
            off = 0; parts = []; ok = True; n = len(w.segs); i = 0
            bounds = [0]
            for k, x in w.segs: bounds.append(simp(add(bounds[-1], 1 if k == "e" else slen(s.unmap(x)))))
            a = b = None
            for i in range(n):
                if a is None and s.must(st, And(le(bounds[i], lo), le(lo, bounds[i + 1]))) and not s.must(st, eq(lo, bounds[i + 1])): a = i
                if b is None and s.must(st, And(le(bounds[i], hi), le(hi, bounds[i + 1]))): b = i
            if s.must(st, eq(lo, hi)): return SeqV(w.ety)
            if a is not None and b is not None and a <= b:
                r = []
                for i in range(a, b + 1):
                    k, x = w.segs[i]
                    l = sub(lo, bounds[i]) if i == a else 0; h = sub(hi, bounds[i]) if i == b else sub(bounds[i + 1], bounds[i])
                    if k == "e": r.append((k, x))
                    else: r.append(("s", s.sub_term(x, zi(l), zi(h), st)))
                return SeqV(w.ety, r)
        return SeqV(w.ety, [("s", s.sub_term(s.term(st, w), zi(lo), zi(hi), st))])
    def sub_term(s, x, lo, hi, st=None):
        if z3.is_app(x) and x.num_args() == 1 and x.decl().name() in models.MAPS:
            return x.decl()(s.sub_term(x.arg(0), lo, hi, st))
        if st is not None:
            n = slen(x)
            if s.must(st, And(eq(simp(lo), 0), eq(simp(hi), simp(n)))): return x
        return ssub(x, lo, hi)
    def term(s, st, v):
        """z3 term of a sequence, with its definition added to the state"""
        s.ty.touched = []
        r = s.ty.seqterm(v); s.flush(st)
        return r
    def pack(s, st, ty, v):
        s.ty.touched = []
        r = s.ty.pack(ty, v); s.flush(st)
        return r
    def flush(s, st):
        if st is None: s.ty.touched = []; return
        todo = s.ty.touched; s.ty.touched = []
        while todo:
            t = todo.pop(); key = ("cat", t.get_id())
            if key in st.facts: continue
            st.facts.add(key)
            for c in CATT[t.get_id()][2]: addfact(st, c)
            for k, x in CATT[t.get_id()][1].segs:
                if k == "s" and x.get_id() in CATT: todo.append(x)
    def seq_eq(s, a, b, st=None):
        ea = all(k == "e" for k, _ in a.segs); eb = all(k == "e" for k, _ in b.segs)
        def one(x, y):
            if isinstance(x, SeqV): return s.seq_eq(x, y, st)
            if isinstance(x, (RcV, WeakV)): return eq(x.h, y.h)
            if isinstance(x, (Agg, SEnum)): return simp(s.pack(st, x.ty, x) == s.pack(st, x.ty, y))
            return eq(x, y)
        if ea and eb:
            if len(a.segs) != len(b.segs): return False
            return And(*[one(x[1], y[1]) for x, y in zip(a.segs, b.segs)])
        if ea or eb:
            c, d = (a, b) if ea else (b, a); n = len(c.segs)
            ln = eq(simp(s.seq_len(st, d)), n)
            if ln is False: return False
            if len(d.segs) == 1:
                x = d.segs[0][1]
                return And(ln, *[one(s.elem_at(st, d.ety, x, i), c.segs[i][1]) for i in range(n)])
            # elements at both ends of the mixed one
            cs = [ln]; i = 0
            while i < len(d.segs) and d.segs[i][0] == "e":
                if i >= n: return False
                cs.append(one(d.segs[i][1], c.segs[i][1])); i += 1
            j = 0
            while j < len(d.segs) - i and d.segs[-1 - j][0] == "e":
                if j >= n - i: return False
                cs.append(one(d.segs[-1 - j][1], c.segs[n - 1 - j][1])); j += 1
            rest = d.segs[i:len(d.segs) - j]
            if len(rest) == 1:
                x = rest[0][1]
                return And(*cs, *[one(s.elem_at(st, d.ety, x, k), c.segs[i + k][1]) for k in range(n - i - j)])
            if rest: return And(*cs, s.term(st, SeqV(d.ety, rest)) == s.term(st, SeqV(d.ety, c.segs[i:n - j])))
            return And(*cs)
        # strip common elements at the ends
        x, y = list(a.segs), list(b.segs); cs = []
        while len(x) > 1 and len(y) > 1 and x[0][0] == y[0][0]:
            if x[0][0] == "e": cs.append(one(x[0][1], y[0][1]))
            elif not x[0][1].eq(y[0][1]): break
            x.pop(0); y.pop(0)
        while len(x) > 1 and len(y) > 1 and x[-1][0] == y[-1][0]:
            if x[-1][0] == "e": cs.append(one(x[-1][1], y[-1][1]))
            elif not x[-1][1].eq(y[-1][1]): break
            x.pop(); y.pop()
        return And(*cs, simp(s.term(st, SeqV(a.ety, x)) == s.term(st, SeqV(b.ety, y))))
    def chars(s, text): return SeqV(s.ty.chart, [("e", ord(c)) for c in text])
    # ---------- values
    def some(s, oty, v): return Agg(oty, 1, (v,))
    def none(s, oty): return Agg(oty, 0, ())
    def const(s, c): return s.dec(c["t"], c["v"])
    def dec(s, t, v):
        k = v["c"]; T = s.ty[t]
        if k == "int": return bool(v["v"]) if T["k"] == "bool" else (v["v"] if T["k"] in ("char", "int", "uint") else Opq("int"))
        if k == "str": return Ptr(("V", s.chars(v["v"])))
        if k == "ref": return Ptr(("V", s.dec(T["e"], v["v"])))
        if k == "arr": return SeqV(s.ty.elem(t), [("e", s.dec(s.ty.elem(t), x)) for x in v["v"]])
        if k == "agg":
            fts = s.ty.vfields(t, v["i"])
            return Agg(t, v["i"], [s.dec(ft, x) for ft, x in zip(fts, v["v"])])
        if k == "zst":
            if T["k"] == "fndef": return FnV(T["callee"], T["callee"].get("name"))
            if T["k"] == "tuple": return Agg(t, 0, ())
            if T["k"] == "closure": return Agg(t, 0, ())
            return Agg(t, 0, ())
        if k == "fn": return FnV({"sym": v["sym"], "name": v["name"], "idef": v["name"], "def": v["name"], "ia": [], "a": []}, v["name"])
        if k == "static": return Ptr(("V", Opq("static", (v["n"],))))
        return Opq("const")
    def operand(s, st, o):
        k = o["o"]
        if k in ("copy", "move"):
            return s.load(st, s.place(st, o["p"]))
        if k == "const": return s.const(o)
        if k == "rtc": return False
        if k == "rtv": return o["v"]
        raise Unsupported("operand " + k)
    def wrap(s, t, x):
        T = s.ty[t]
        if T["k"] == "uint": m = 2**T["bits"]; return x % m if isinstance(x, int) else simp(zi(x) % m)
        return x
    def inrange(s, t, x):
        T = s.ty[t]
        if T["k"] == "uint": lo, hi = 0, 2**T["bits"] - 1
        elif T["k"] == "int": lo, hi = -2**(T["bits"]-1), 2**(T["bits"]-1) - 1
        else: raise Unsupported("range of " + T["k"])
        if isinstance(x, int): return lo <= x <= hi
        return z3.And(x >= lo, x <= hi)
    def binop(s, op, a, b, t):
        T = s.ty[t]
        isb = isinstance(a, bool) or isinstance(b, bool) or (isz(a) and z3.is_bool(a))
        if isinstance(a, Opq) and a.tag == "poison" or isinstance(b, Opq) and b.tag == "poison": return Opq("poison")
        if op in ("Eq", "Ne"):
            if isinstance(a, (Ptr, FnV, Opq)): raise Unsupported("pointer compare")
            r = eq(a, b); return r if op == "Eq" else Not(r)
        if op in ("Lt", "Le", "Gt", "Ge"):
            if isb: raise Unsupported("bool order")
            return {"Lt": lambda: lt(a, b), "Le": lambda: le(a, b), "Gt": lambda: lt(b, a), "Ge": lambda: le(b, a)}[op]()
        if op in ("BitAnd", "BitOr", "BitXor") and isb:
            if op == "BitAnd": return And(a, b)
            if op == "BitOr": return Or(a, b)
            return Not(eq(a, b))
        if op.startswith("Add"): r = add(a, b); return r if op == "AddUnchecked" else s.wrapif(t, r)
        if op.startswith("Sub"): r = sub(a, b); return r if op == "SubUnchecked" else s.wrapif(t, r)
        if op.startswith("Mul"):
            if isinstance(a, int) and isinstance(b, int): return s.wrap(t, a * b)
            return s.wrapif(t, zi(a) * zi(b))
        if isinstance(a, int) and isinstance(b, int):
            if op == "BitAnd": return a & b
            if op == "BitOr": return a | b
            if op == "BitXor": return a ^ b
            if op.startswith("Shl"): return s.wrap(t, a << b)
            if op.startswith("Shr"): return a >> b
            if op == "Div" and b: return a // b
            if op == "Rem" and b: return a % b
        if isinstance(b, int) and b > 0:
            if op == "Rem": return zi(a) % b
            if op == "Div": return zi(a) / b
            if op == "BitAnd" and (b & (b + 1)) == 0: return zi(a) % (b + 1)
            if op.startswith("Shr"): return zi(a) / (2**b)
        raise Unsupported("binop %s" % op)
    def wrapif(s, t, r):
        if isinstance(r, int): return s.wrap(t, r)
        T = s.ty[t]
        if T["k"] == "uint":
            m = 2**T["bits"]
            return z3.If(z3.And(r >= 0, r < m), r, r % m)
        return r
    def rvalue(s, st, r, dpl):
        k = r["r"]
        if k == "use": return s.operand(st, r["a"])
        if k in ("ref", "addr"): return s.place(st, r["p"])
        if k == "bin":
            a, b = s.operand(st, r["a"]), s.operand(st, r["b"])
            return s.binop(r["op"], a, b, r["t"])
        if k == "cbin":
            a, b = s.operand(st, r["a"]), s.operand(st, r["b"])
            if r["op"] == "Add": x = add(a, b)
            elif r["op"] == "Sub": x = sub(a, b)
            elif r["op"] == "Mul": x = a * b if isinstance(a, int) and isinstance(b, int) else zi(a) * zi(b)
            else: raise Unsupported("checked " + r["op"])
            return Agg(None, 0, (x, Not(s.inrange(r["t"], x))))
        if k == "un":
            a = s.operand(st, r["a"])
            if r["op"] == "Not":
                if isinstance(a, bool) or (isz(a) and z3.is_bool(a)): return Not(a)
                raise Unsupported("bitwise not")
            if r["op"] == "Neg": return -a
            if r["op"] == "PtrMetadata": return s.seq_len(st, s.load(st, s.deref(st, a)))
            raise Unsupported("unop " + r["op"])
        if k == "discr":
            v = s.load(st, s.place(st, r["p"]))
            if v is UN: return Opq("poison")
            return s.ty.disc(v)
        if k == "len": return s.seq_len(st, s.load(st, s.place(st, r["p"])))
        if k == "cast":
            a = s.operand(st, r["a"]); ck = r["k"]
            if ck == "IntToInt":
                if isinstance(a, bool): a = int(a)
                if isz(a) and z3.is_bool(a): return z3.If(a, z3.IntVal(1), z3.IntVal(0))
                T = s.ty[r["t"]]; F = s.ty[r["f"]]
                if isinstance(a, (Agg, SEnum)): a = s.ty.disc(a)
                if T["k"] == "uint":
                    if F["k"] in ("uint", "char") and T["bits"] >= (F.get("bits", 32)): return a
                    return s.wrap(r["t"], a)
                return a
            if ck == "BoxDerefTransmute" or (ck in ("Transmute", "PtrToPtr") and isinstance(a, Opq) and a.tag == "boxptr"):
                return Ptr(("C", a.args)) if isinstance(a, Opq) else a
            if ck.startswith("PointerCoercion"):
                if "ClosureFnPointer" in ck: return FnV({"closure": s.ty[r["f"]]["body"], "val": a}, "closure")
                return a
            if ck == "PtrToPtr": return a
            raise Unsupported("cast " + ck)
        if k == "agg":
            vs = [s.operand(st, o) for o in r["v"]]
            if r["k"] == "array": return SeqV(s.ty.elem(r["t"]), [("e", v) for v in vs])
            if r["k"] in ("adt",): return Agg(r["t"], r["i"], vs)
            if r["k"] in ("tuple", "closure"): return Agg(r["t"], 0, vs)
            raise Unsupported("aggregate " + r["k"])
        if k == "repeat":
            a = s.operand(st, r["a"]); return SeqV(None, [("e", a)] * r["n"])
        raise Unsupported("rvalue " + k)
    # ---------- control
    def push_frame(s, st, sym, args, dest=None, nxt=None, stop=False):
        b = s.bodies[sym]; s.called.add(b["name"])
        if len(st.frames) > 60: raise Unsupported("call depth")
        s.uid += 1
        f = Frame(s.uid, sym, b); f.dest, f.nxt, f.stop = dest, nxt, stop
        if b.get("spread") is not None:
            sp = b["spread"]; args = list(args[:sp - 1]) + [Agg(b["locals"][sp], 0, args[sp - 1:])]
        for i, a in enumerate(args): f.loc[i + 1] = a
        st.frames.append(f)
        return f
    def heads(s, sym):
        if sym in s.loopheads: return s.loopheads[sym]
        b = s.bodies[sym]; succ = []
        for bl in b["blocks"]:
            t = bl["t"]; k = t["t"]
            n = []
            if k in ("goto", "drop", "assert") : n = [t["n"]]
            elif k == "call": n = [t["n"]] if t["n"] is not None else []
            elif k == "switch": n = [x[1] for x in t["v"]] + [t["e"]]
            succ.append(n)
        color = {}; heads = {}; order = []
        stack = [(0, iter(succ[0]))]; color[0] = 1; path = [0]
        while stack:
            u, it = stack[-1]
            for v in it:
                if color.get(v, 0) == 0:
                    color[v] = 1; stack.append((v, iter(succ[v]))); break
                elif color[v] == 1: heads.setdefault(v, set()).add(u)
            else:
                color[u] = 2; stack.pop()
        # natural loop bodies
        pred = {}
        for u, ns in enumerate(succ):
            for v in ns: pred.setdefault(v, []).append(u)
        loops = {}
        for h, tails in heads.items():
            nodes = {h}; w = list(tails)
            while w:
                x = w.pop()
                if x in nodes: continue
                nodes.add(x); w.extend(pred.get(x, []))
            loops[h] = nodes
        s.loopheads[sym] = loops
        return loops
    def run(s, st, stop_depth=0):
        """explore all paths until the frame stack drops to stop_depth; returns outcomes"""
        work = [st]; outs = []
        while work:
            if len(outs) > s.max_paths: raise Unsupported("too many paths")
            st = work.pop()
            try:
                res = s.step(st, stop_depth)
            except Unsupported as e:
                fr = st.frames[-1] if st.frames else None
                outs.append(Out("unsup", st, msg=str(e), loc=s.loc(st)))
                continue
            for r in res:
                if isinstance(r, Out): outs.append(r)
                else: work.append(r)
        return outs
    def loc(s, st):
        for f in reversed(st.frames):
            if f.body["local"]:
                ln = None
                bl = f.body["blocks"][f.bb]
                ln = bl["t"].get("l") or (bl["s"][-1].get("l") if bl["s"] else None)
                return "%s (%s:%s)" % (f.body["name"], f.body["file"], ln)
        return "?"
    def enter(s, st, bb, res):
        f = st.top(); f.bb = bb
        if f.aux is not None:
            head, nodes, _ = f.aux
            if bb == head: res.append(Out("back", st)); return
            if bb not in nodes: res.append(Out("exit", st)); return
        if bb in s.heads(f.sym):
            res.extend(loops.handle(s, st, f, bb)); return
        res.append(st)
    def step(s, st, stop_depth):
        f = st.top(); bl = f.body["blocks"][f.bb]
        for x in bl["s"]:
            k = x["s"]
            if k == "=":
                v = s.rvalue(st, x["v"], x["p"])
                if not x["p"][1]: f.loc[x["p"][0]] = v
                else: s.store(st, s.place(st, x["p"]), v)
            elif k == "dead": f.loc.pop(x["n"], None)
            elif k == "sd": s.set_disc(st, x)
            elif k == "assume":
                pass
            else: raise Unsupported("statement " + k)
        t = bl["t"]; k = t["t"]; res = []
        if k == "goto": s.enter(st, t["n"], res); return res
        if k == "return":
            v = f.loc.get(0, UN)
            if v is UN: v = s.UNIT
            return s.do_return(st, v, stop_depth)
        if k == "switch":
            d = s.operand(st, t["a"])
            if isinstance(d, bool): d = int(d)
            if isinstance(d, int):
                for val, b in t["v"]:
                    if val == d: s.enter(st, b, res); return res
                s.enter(st, t["e"], res); return res
            isb = z3.is_bool(d)
            rest = []
            tv = list(t["v"])
            cands = []
            for val, b in tv:
                c = (d if val else z3.Not(d)) if isb else d == val
                cands.append((c, b)); rest.append(z3.Not(c))
            cands.append((z3.And(*rest) if len(rest) > 1 else rest[0], t["e"]))
            # skip the otherwise branch when it is unreachable
            if f.body["blocks"][t["e"]]["t"]["t"] == "unreachable" and not f.body["blocks"][t["e"]]["s"]: pass
            ok = [(z3.simplify(c), b) for c, b in cands]
            ok = [(c, b) for c, b in ok if not z3.is_false(c)]
            feas = [(c, b) for c, b in ok if s.feasible(st, c)]
            for i, (c, b) in enumerate(feas):
                s2 = st if i == len(feas) - 1 else st.copy()
                if not z3.is_true(c): s2.pc.append(c)
                s.enter(s2, b, res)
            return res
        if k == "unreachable":
            if s.feasible(st): return [Out("panic", st, msg="reached unreachable code", loc=s.loc(st))]
            return []
        if k == "drop":
            p = s.place(st, t["p"])
            try: v = s.load(st, p)
            except Unsupported: v = None
            s.drop(st, v)
            s.enter(st, t["n"], res); return res
        if k == "assert":
            c = s.operand(st, t["a"])
            want = t["e"]
            g = c if want else Not(c)
            for s2, tv in s.fork(st, g):
                if tv: s.enter(s2, t["n"], res)
                else: res.append(Out("panic", s2, msg=t["m"], loc=s.loc(s2)))
            return res
        if k == "call": return s.call(st, t, stop_depth)
        if k == "resume": return []
        raise Unsupported("terminator " + k)
    def set_disc(s, st, x): raise Unsupported("set discriminant")
    def drop(s, st, v, depth=0):
        if depth > 6: return
        if isinstance(v, Guard): st.guards.pop(v.id, None)
        elif isinstance(v, Agg):
            for x in v.f: s.drop(st, x, depth + 1)
        elif isinstance(v, SEnum):
            for fs in v.pay.values():
                for x in fs: s.drop(st, x, depth + 1)
    def do_return(s, st, v, stop_depth):
        f = st.frames.pop()
        if len(st.frames) == stop_depth or f.stop: return [Out("ret", st, v)]
        if f.dest is not None: s.store(st, s.place(st, f.dest), v)
        res = []
        if f.nxt is None: return []
        s.enter(st, f.nxt, res)
        return res
    def call(s, st, t, stop_depth):
        fr = st.top()
        args = [s.operand(st, o) for o in t["a"]]
        c = t["f"]
        if "ptr" in c:
            fv = s.operand(st, c["ptr"])
            return s.invoke(st, fv, args, t)
        return s.dispatch(st, c, args, t)
    def invoke(s, st, fv, args, t):
        """call of a function value"""
        ep = None
        if isinstance(fv, Ptr): ep = fv; fv = s.load(st, fv)
        if isinstance(fv, Agg) and fv.ty is not None and s.ty[fv.ty]["k"] == "closure":
            sym = s.ty[fv.ty]["body"]
            return s.enter_closure(st, sym, fv, ep, args, t)
        if isinstance(fv, FnV):
            c = fv.sym
            if "closure" in c: return s.enter_closure(st, c["closure"], c["val"], None, args, t)
            return s.dispatch(st, c, args, t)
        raise Unsupported("call of %r" % (fv,))
    def enter_closure(s, st, sym, env, envptr, args, t):
        if sym is None or sym not in s.bodies: raise Unsupported("closure body")
        b = s.bodies[sym]
        if s.ty[b["locals"][1]]["k"] == "ref":
            if envptr is None:
                c = s.newcell(st, env); envptr = Ptr(("C", c))
            e = envptr
        else: e = env
        if s.mergeable(sym): return s.merge_call(st, sym, [e] + list(args), t)
        f = s.push_frame(st, sym, [e] + list(args), t["d"], t["n"])
        res = []; s.enter(st, 0, res); return res
    def finish(s, st, t, v):
        """store the result of a modelled call and continue"""
        s.store(st, s.place(st, t["d"]), v)
        if t["n"] is None: return []
        res = []; s.enter(st, t["n"], res); return res
    def dispatch(s, st, c, args, t):
        name = c.get("name"); idef = c.get("idef") or c["def"]; d = c["def"]
        # calls through the Fn traits
        if d in ("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call"):
            fv = args[0]; envptr = None
            if isinstance(fv, Ptr): envptr = fv; fv = s.load(st, fv)
            while isinstance(fv, Ptr): envptr = fv; fv = s.load(st, fv)
            a = list(args[1].f) if len(args) > 1 else []
            if isinstance(fv, Agg): return s.enter_closure(st, s.ty[fv.ty]["body"], fv, envptr, a, t)
            return s.invoke(st, fv, a, t)
        if name in s.contracts:
            s.contracted.add(name)
            r = s.contracts[name](s, st, args, t)
            if r is not None: return s.results(r, t)
        m = models.lookup(idef, d, name, c)
        if m is not None:
            s.modeled.add(idef)
            return s.results(m(s, st, args, t, c), t)
        sym = c.get("sym")
        if sym in s.bodies and s.mergeable(sym):
            return s.merge_call(st, sym, args, t)
        if sym in s.bodies:
            s.push_frame(st, sym, args, t["d"], t["n"])
            res = []; s.enter(st, 0, res); return res
        raise Unsupported("no model for " + str(idef))
    def mergeable(s, sym):
        if sym in s._mg: return s._mg[sym]
        b = s.bodies[sym]; T = s.ty.T
        def scalar(i): return T[i]["k"] in ("bool", "char", "int", "uint") or (T[i]["k"] == "tuple" and T[i]["f"] and all(scalar(x) for x in T[i]["f"]))
        ok = b["local"] and scalar(b["locals"][0]) and not any(T[b["locals"][i + 1]]["k"] in ("ref", "ptr") and T[b["locals"][i + 1]].get("m") for i in range(b["argc"]))
        s._mg[sym] = ok
        return ok
    def merge_call(s, st, sym, args, t):
        """run a side effect free function to completion and merge its outcomes into one value"""
        n0 = len(st.pc); base = st.copy()
        outs = s.call_sym(st, sym, args)
        res = []; rets = []
        for o in outs:
            if o.kind == "ret" and o.st.guards.keys() == base.guards.keys() and not loops.changes(base, o.st): rets.append(o)
            elif o.kind == "ret": res.extend(s.finish(o.st, t, o.val))
            else: res.append(o)
        if len(rets) == 1: res.extend(s.finish(rets[0].st, t, rets[0].val))
        elif rets:
            if any(o.st.ghost.get("approx") for o in rets): base.ghost["approx"] = True
            cs = [And(*[c for c in o.st.pc[n0:] if not isfact(c)]) for o in rets]
            seen = set()
            for o in rets:
                base.facts |= o.st.facts; base.trace.extend(o.st.trace[-50:])
                for c in o.st.pc[n0:]:
                    if isfact(c) and c.get_id() not in seen: seen.add(c.get_id()); base.pc.append(c)
            def mrg(vals):
                if isinstance(vals[0], Agg): return Agg(vals[0].ty, vals[0].v, [mrg([v.f[i] for v in vals]) for i in range(len(vals[0].f))])
                if all(loops.same(v, vals[0]) for v in vals): return vals[0]
                if all(isinstance(v, bool) for v in vals): return simp(Or(*[zb(c) for c, v in zip(cs, vals) if v]))
                r = vals[-1]
                for c, v in reversed(list(zip(cs, vals))[:-1]): r = ite(c, v, r)
                return simp(r)
            v = mrg([o.val for o in rets])
            d = Or(*[zb(c) for c in cs])
            if isz(d): d = z3.simplify(d)
            if d is not True and not z3.is_true(d): base.pc.append(d)
            res.extend(s.finish(base, t, v))
        return res
    def call_sym(s, st, sym, args):
        base = len(st.frames)
        s.push_frame(st, sym, args, None, None)
        res = []; outs = []
        s.enter(st, 0, res)
        for x in res:
            if isinstance(x, Out): outs.append(x)
            else: outs.extend(s.run(x, base))
        return outs
    def results(s, r, t):
        out = []
        if not isinstance(r, list): raise Unsupported("bad model result")
        for st, v in r:
            if isinstance(v, Panic): out.append(Out("panic", st, msg=v.msg, loc=s.loc(st)))
            elif isinstance(v, Out): out.append(v)
            else: out.extend(s.finish(st, t, v))
        return out
    def call_sub(s, st, fv, args):
        """run a function value to completion; returns [(st, val)] (val may be Panic)"""
        dummy = {"d": None, "n": None}
        base = len(st.frames)
        # trampoline frame receiving the result
        s.uid += 1
        tr = Frame(s.uid, None, {"name": "<sub>", "local": False, "blocks": [{"s": [], "t": {"t": "return"}}], "locals": []})
        tr.stop = True
        st.frames.append(tr)
        s.loopheads[None] = {}
        t = {"d": [0, []], "n": 0}
        outs = []
        try: first = s.invoke(st, fv, args, t)
        except Unsupported as e: raise
        work = []
        for x in first:
            if isinstance(x, Out): outs.append(x)
            else: outs.extend(s.run(x, base))
        r = []
        for o in outs:
            if o.kind == "ret": r.append((o.st, o.val))
            elif o.kind == "panic": r.append((o.st, Panic(o.msg)))
            else: raise Unsupported(o.msg)
        return r
    def call_fn(s, st, name, args):
        """run a body by name from an empty (or given) state; returns outcomes"""
        sym = s.byname.get(name)
        if sym is None: raise Unsupported("no body for " + name)
        base = len(st.frames)
        s.push_frame(st, sym, args, None, None)
        res = []; outs = []
        s.enter(st, 0, res)
        for x in res:
            if isinstance(x, Out): outs.append(x)
            else: outs.extend(s.run(x, base))
        return outs
    def pure(s, st, fv, args):
        """evaluate a function value on scalar arguments to a single merged scalar (no side effects, no panic)"""
        n0 = len(st.pc)
        rs = s.call_sub(st.copy(), fv, args)
        val = None
        for st2, v in reversed(rs):
            if isinstance(v, Panic): raise Unsupported("closure may panic")
            if not (isinstance(v, (int, bool)) or isz(v)): raise Unsupported("closure result %r" % (v,))
            c = And(*st2.pc[n0:])
            val = v if val is None else ite(c if isz(c) or isinstance(c, bool) else c, v, val)
        if val is None: raise Unsupported("closure without result")
        return val

models.attach(Ex)
def simpz(x): return z3.simplify(x)
def simpsel(arr, h):
    # read over write on syntactically decidable handles
    while z3.is_store(arr):
        d = z3.simplify(arr.arg(1) == h)
        if z3.is_true(d): return arr.arg(2)
        if z3.is_false(d): arr = arr.arg(0)
        else: break
    t = z3.Select(arr, h)
    return KNOWN[t.get_id()][1] if t.get_id() in KNOWN else t
