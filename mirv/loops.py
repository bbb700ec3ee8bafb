"""Loops: exact unrolling when every path leaves the loop within a bound, otherwise an inductive summary.

Summary: the set of memory locations changed by the body is found by running it (to a fixpoint), those are
havocked, candidate invariants (automatic linear ones + the registered templates) that do not hold initially or
are not preserved are dropped (Houdini), and the exits of the body from the havocked state are the loop's exits.
"""
import z3
from core import *

LIMIT = 40
RLIMIT = 600000
MAXLIVE = 48
MAXCONC = 260     # when the number of iterations is known

class Loc:
    """a memory location: root + path of Agg field indices"""
    __slots__ = ("r", "p")
    def __init__(s, r, p): s.r, s.p = r, p
    def key(s): return (s.r, s.p)

def same(a, b):
    if a is b: return True
    if type(a) is not type(b):
        if isinstance(a, (int, bool)) or isinstance(b, (int, bool)): return False
        return False
    if isinstance(a, (int, bool)): return a == b
    if isz(a): return a.eq(b)
    if isinstance(a, Agg): return a.v == b.v and len(a.f) == len(b.f) and all(same(x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, SEnum): return same(a.d, b.d) and a.pay.keys() == b.pay.keys() and all(all(same(x, y) for x, y in zip(a.pay[k], b.pay[k])) for k in a.pay)
    if isinstance(a, SeqV): return len(a.segs) == len(b.segs) and all(x[0] == y[0] and same(x[1], y[1]) for x, y in zip(a.segs, b.segs))
    if isinstance(a, (RcV, WeakV)): return same(a.h, b.h)
    if isinstance(a, IterV): return same(a.seq, b.seq) and same(a.lo, b.lo) and same(a.hi, b.hi)
    if isinstance(a, Ptr): return a.b[0] == b.b[0] and len(a.b) == len(b.b) and all((x is y) or (not isinstance(x, (SeqV,)) and same(x, y)) or (isinstance(x, str) and x == y) for x, y in zip(a.b, b.b)) and len(a.p) == len(b.p) and all(len(x) == len(y) and all(u == v if isinstance(u, str) else same(u, v) for u, v in zip(x, y)) for x, y in zip(a.p, b.p))
    if isinstance(a, MapV): return a.base is b.base and a.upd == b.upd
    if isinstance(a, Guard): return a.id == b.id
    if isinstance(a, BoxV): return a.cell == b.cell
    if isinstance(a, FnV): return a.name == b.name
    return False

def diff(a, b, path, out):
    if same(a, b): return
    if isinstance(a, Agg) and isinstance(b, Agg) and a.v == b.v and a.ty == b.ty and len(a.f) == len(b.f):
        for i, (x, y) in enumerate(zip(a.f, b.f)): diff(x, y, path + (i,), out)
        return
    out.append(path)

def changes(s0, s1):
    out = set()
    for f0 in s0.frames:
        f1 = s1.frame(f0.uid)
        for l, v in f0.loc.items():
            if l not in f1.loc: out.add((("L", f0.uid, l), ())); continue
            o = []; diff(v, f1.loc[l], (), o)
            for p in o: out.add((("L", f0.uid, l), p))
    for c, v in s0.cells.items():
        o = []; diff(v, s1.cells[c], (), o)
        for p in o: out.add((("C", c), p))
    for k, v in s0.heap.items():
        if not v.eq(s1.heap[k]): out.add((("heap", k), ()))
    for k, v in s0.ghost.items():
        w = s1.ghost.get(k)
        if k in ("anch", "orig", "steps"):
            if not v.eq(w): out.add((("ghost", k), ()))
    if s1.nk != s0.nk: out.add((("next",), ()))
    return out

def getp(v, p):
    for i in p: v = v.f[i]
    return v
def setp(v, p, new):
    if not p: return new
    f = list(v.f); f[p[0]] = setp(f[p[0]], p[1:], new); return Agg(v.ty, v.v, f)

def loctype(ex, st, r, p):
    try:
        if r[0] == "L":
            t = st.frame(r[1]).body["locals"][r[2]]
            v = st.frame(r[1]).loc[r[2]]
        else: return None
        for i in p:
            if isinstance(v, Agg) and v.ty is not None:
                t = ex.ty.vfields(v.ty, v.v)[i]
            else: return None
            v = v.f[i]
        return t
    except Exception: return None

def opt_node(ex, ty):
    """Option<RefNode>: "own"; Option<&RefNode>: "ref" """
    if not ex.ty.isopt(ty): return None
    a = ex.ty[ty]["a"][0]
    if ex.ty.handle_kind(a) == "node": return "own"
    return "ref" if ex.ty[a]["k"] == "ref" and ex.ty.handle_kind(ex.ty[a]["e"]) == "node" else None
def opt_handle(ex, st, v):
    """the node of such a value, -1 for None"""
    if opt_node(ex, v.ty) == "own": return ex.pack(st, v.ty, v)
    def h(x):
        while isinstance(x, Ptr): x = ex.load(st, x)
        if not isinstance(x, RcV): raise Unsupported("a node is expected: %r" % (x,))
        return zi(x.h)
    if isinstance(v, SEnum): return z3.If(zi(v.d) == 1, h(v.pay[1][0]), z3.IntVal(-1))
    return h(v.f[0]) if v.v == 1 else z3.IntVal(-1)
def opt_some(ex, st, v):
    if isinstance(v, SEnum): return zi(v.d) == 1
    return z3.BoolVal(v.v == 1)
def fresh_like(ex, st, v, ty):
    if isinstance(v, bool) or (isz(v) and z3.is_bool(v)): return fresh(B, "lb")
    if isinstance(v, int) or (isz(v) and z3.is_int(v)):
        x = fresh(I, "li")
        if ty is not None and ex.ty[ty]["k"] in ("char", "int", "uint"):
            o = []; ex.ty.facts(ty, x, None, o); st.pc.extend(o)
        else: st.pc.append(z3.And(x >= 0, x < USIZE))
        return x
    if isinstance(v, SeqV):
        if v.ety is None: return UN
        return SeqV(v.ety, [("s", fresh(seqof(ex.ty.sort(v.ety)).S, "ls"))])
    if isinstance(v, (RcV, WeakV)) and v.k == "node":
        h = fresh(I, "lh"); st.pc.append(z3.And(h >= 0, h < zi(st.next()))); return type(v)("node", h)
    if isinstance(v, IterV):
        lo, hi = fresh(I, "lo"), fresh(I, "hi")
        return v.repl(lo=lo, hi=hi)
    if isinstance(v, (Agg, SEnum)) and v.ty is not None and opt_node(ex, v.ty) == "ref":
        h, d = fresh(I, "lh"), fresh(I, "ld"); st.pc += [z3.And(h >= 0, h < zi(st.next())), z3.Or(d == 0, d == 1)]
        return SEnum(v.ty, d, {0: (), 1: (Ptr(("V", RcV("node", h))),)})
    if isinstance(v, (Agg, SEnum)) and v.ty is not None:
        try: return ex.ty.unpack(v.ty, fresh(ex.ty.sort(v.ty), "lv"), st)
        except Unsupported: return UN
    return UN

def havoc(ex, s0, W):
    st = s0.copy()
    if (("next",), ()) in W:
        n = fresh(I, "next"); st.pc.append(n >= zi(s0.next())); st.nbase, st.nk = n, 0
    if W: st.ghost["approx"] = True
    for r, p in sorted(W, key=repr):
        if r[0] == "L":
            f = st.frame(r[1]); old = getp(f.loc[r[2]], p)
            new = fresh_like(ex, st, old, loctype(ex, s0, r, p))
            f.loc[r[2]] = setp(f.loc[r[2]], p, new)
        elif r[0] == "C":
            old = getp(st.cells[r[1]], p); new = fresh_like(ex, st, old, None)
            if new is UN: raise Unsupported("loop writes %r" % (old,))
            st.cells[r[1]] = setp(st.cells[r[1]], p, new)
        elif r[0] == "heap": st.heap[r[1]] = fresh(st.heap[r[1]].sort(), "lheap_" + r[1])
        elif r[0] == "ghost": st.ghost[r[1]] = fresh(st.ghost[r[1]].sort(), "lg")
    return st
def read(st, loc):
    r, p = loc
    if r[0] == "L": return getp(st.frame(r[1]).loc[r[2]], p)
    if r[0] == "C": return getp(st.cells[r[1]], p)
    if r[0] == "heap": return st.heap[r[1]]
    if r[0] == "ghost": return st.ghost[r[1]]
    return None

def int_leaves(ex, st, W):
    """(name, getter) of integer-valued leaves among the changed locations"""
    out = []
    for loc in sorted(W, key=repr):
        v = read(st, loc)
        if isinstance(v, IterV):
            out.append((loc, lambda s, l=loc: read(s, l).lo)); out.append((loc, lambda s, l=loc: read(s, l).hi))
        elif not isinstance(v, bool) and (isinstance(v, int) or (isz(v) and z3.is_int(v))):
            out.append((loc, lambda s, l=loc: read(s, l)))
        elif isinstance(v, SeqV):
            out.append((loc, lambda s, l=loc: ex.seq_len(s, read(s, l))))
    return out

def auto_candidates(ex, s0, W):
    C = []
    L = int_leaves(ex, s0, W)
    for loc in W:
        v = read(s0, loc)
        if isinstance(v, IterV):
            C.append(("iter", lambda s, l=loc, v=v: And(le(v.lo, read(s, l).lo), le(read(s, l).lo, read(s, l).hi), le(read(s, l).hi, v.hi))))
    for i, (_, g) in enumerate(L):
        x0 = g(s0)
        C.append(("ge", lambda s, g=g, x0=x0: le(x0, g(s))))
        C.append(("le", lambda s, g=g, x0=x0: le(g(s), x0)))
        for _, h in L[i + 1:]:
            y0 = h(s0)
            C.append(("diff", lambda s, g=g, h=h, x0=x0, y0=y0: eq(simp(zi(g(s)) - zi(h(s))), simp(zi(x0) - zi(y0)))))
            C.append(("sum", lambda s, g=g, h=h, x0=x0, y0=y0: eq(simp(zi(g(s)) + zi(h(s))), simp(zi(x0) + zi(y0)))))
    return C

def valid(ex, st, c):
    if isz(c): c = simp(c)
    if isinstance(c, bool): return c
    q = getattr(ex, "loopquant", ()); so = mksolver(8000 if q else 4000); so.set("rlimit", RLIMIT * (10 if q else 1))
    so.add(*[x for x in st.pc if x.get_id() not in QUANT or QUANT[x.get_id()].qid() in q]); so.add(*ex.axioms); so.add(z3.Not(c))
    return so.check() == z3.unsat

def run_body(ex, st, head):
    """one iteration from the head; outcomes back / exit / panic / unsup"""
    return ex.run(st, -1)

def obs_mark(ex):
    """obligations recorded by contracts while a loop is explored count only in the final round"""
    r = getattr(ex, "obsrec", None); return None if r is None else len(r.obls)
def obs_reset(ex, m):
    if m is not None: del ex.obsrec.obls[m:]
def handle(ex, st, f, head):
    nodes = ex.heads(f.sym)[head]
    base = st
    f = base.top(); outer = f.aux
    f.aux = (head, nodes, outer)
    # exact unrolling
    s0 = base.copy()
    exits = []; live = [s0]; ok = True; k = 0; bounded = False
    mark = obs_mark(ex)
    while live:
        k += 1
        if k > LIMIT or len(live) > (MAXCONC if bounded else MAXLIVE) or (k > 9 and not concrete_driver(live[0], f.uid)): ok = False; break
        nxt = []
        for s in live:
            for o in run_body(ex, s, head):
                if o.kind == "back": nxt.append(o.st)
                elif o.kind == "exit": exits.append(o)
                else: exits.append(o)
            if len(nxt) > MAXCONC: break
        live = nxt
        if k == 3 and live:
            if symbolic_driver(ex, live[0], f.uid): ok = False; break
            bounded = any(isinstance(v.f[0] if isinstance(v, Agg) and v.f else v, IterV) for v in live[0].frame(f.uid).loc.values())
    if not ok:
        obs_reset(ex, mark)
        exits = summarise(ex, base, head)
    res = []
    for o in exits:
        if o.kind == "exit":
            o.st.top().aux = outer
            bb = o.st.top().bb
            ex.enter(o.st, bb, res)
        else: res.append(o)
    return res

def concrete_driver(st, uid):
    for v in st.frame(uid).loc.values():
        w = v.f[0] if isinstance(v, Agg) and v.f and isinstance(v.f[0], IterV) else v
        if isinstance(w, IterV) and isinstance(simp(sub(w.hi, w.lo)), int): return True
    return False
def symbolic_driver(ex, st, uid):
    """an iterator with an unbounded remaining length drives the loop"""
    f = st.frame(uid)
    for v in f.loc.values():
        w = v.f[0] if isinstance(v, Agg) and v.f and isinstance(v.f[0], IterV) else v
        if isinstance(w, IterV):
            n = simp(sub(w.hi, w.lo))
            if isz(n) and ex.feasible(st, n > LIMIT): return True
    return False

def summarise(ex, base, head):
    # candidates dropped for this loop on another path stay dropped (fewer candidates: weaker, never unsound)
    W = set(); dropped = ex.dropcache.setdefault((base.top().sym, head), set())
    norm = {f.uid: i for i, f in enumerate(reversed(base.frames))}; cells = {c: i for i, c in enumerate(sorted(base.cells))}
    def nloc(w):
        r, p = w
        if r[0] == "L": r = ("L", norm.get(r[1]), r[2])
        elif r[0] == "C": r = ("C", cells.get(r[1]))
        return (r, p)
    mark = obs_mark(ex)
    for rnd in range(40):
        obs_reset(ex, mark)
        s0 = base.copy()
        st = havoc(ex, s0, W)
        C = [("c%d:%s" % (i, n), c) for i, (n, c) in enumerate(auto_candidates(ex, s0, W))]
        uid = s0.top().uid
        for ti, tm in enumerate(ex.loop_templates):
            try: cs = tm(ex, s0, W, uid) or []
            except z3.Z3Exception: cs = []      # a template that does not fit the loop
            for j, (n, c) in enumerate(cs): C.append(("t%d.%d:%s" % (ti, j, n), c))
        sig = tuple(sorted(repr(nloc(w)) for w in W))
        act = []
        for n, c in C:
            if n.endswith(":fact") :
                try: s0.pc.append(zb(c(s0)))
                except Unsupported: pass
        for n, c in C:
            if (sig, n) in dropped: continue
            if n.endswith(":fact"): act.append((n, c)); continue
            try: g = c(s0)
            except Unsupported: dropped.add((sig, n)); continue
            if valid(ex, s0, g): act.append((n, c))
            else: dropped.add((sig, n))
        for n, c in act:
            g = c(st)
            if g is not True: st.pc.append(zb(g))
        start = st.copy()
        outs = run_body(ex, st, head)
        new = set()
        for o in outs:
            if o.kind == "back": new |= changes(start, o.st)
        # normalise: a changed whole local subsumes its fields
        W2 = W | new
        W2 = {w for w in W2 if not any(w[0] == v[0] and len(v[1]) < len(w[1]) and w[1][:len(v[1])] == v[1] for v in W2)}
        if W2 != W:
            W = W2; continue
        bad = False
        for o in outs:
            if o.kind != "back": continue
            for n, c in act:
                if (sig, n) in dropped or n.endswith(":fact"): continue
                try: g = c(o.st)
                except Unsupported: g = False
                if not valid(ex, o.st, g): dropped.add((sig, n)); bad = True
        if bad: continue
        ex.summaries.append((start.top().body["name"], head, [n for n, _ in act]))
        for o in outs: o.st.ghost["approx"] = True
        return [o for o in outs if o.kind != "back"]
    raise Unsupported("loop summary did not converge")
