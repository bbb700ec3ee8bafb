"""Node::clone_node, clone_node_with, clone_node_without_childs, Clone for Node: the copy of a subtree.

Contract of clone_node_with(h, reduce), for a node h of a document (nodes 0..B) whose nodes start at or after their parent and
not before reduce: every node made by the call (handles [lo, hi)) is the copy of an old node `orig`, with the same
data, its positions reduced, its children and end tag the copies of orig's children and end tag (in order, with the same index, linked
back to it, and none of them the result); nothing that existed before is changed."""
import z3, json
from core import *
from vc import Rec, refuted
import spec, models, loops, ex as exm
from spec import *
from pstep import Lay, forall, isok
from pure_units import mk, ref
from tree_units import handle
CW, CN = P + "Node::clone_node_with", P + "Node::clone_node"
DATA = ("node_type", "content", "meta")
P18 = {"C18"}

def enum_clones(ex):
    """derived Clone impls of enums without data: {name: type}"""
    out = {}
    for sym, b in ex.bodies.items():
        n = b["name"]
        if n.endswith(" as std::clone::Clone>::clone") and n.startswith("<rphtml::"):
            t = b["locals"][0]
            if ex.ty[t]["k"] == "adt" and len(ex.ty[t]["v"]) > 1 and all(not v["f"] for v in ex.ty[t]["v"]): out[n] = t
    return out
def c_enum(ex, st, a, t): return [(st, models.val(ex, st, a[0]))]
def unit_enums(J):
    rec = Rec("enum clones"); ex = mk(J, dict(spec.HELPERS))
    for n, t in sorted(enum_clones(ex).items()):
        st = St(); st.nbase = z3.Int("next0"); d = z3.Int("d"); ds = [v["d"] for v in ex.ty[t]["v"]]; st.pc.append(z3.Or(*[d == x for x in ds])); k = 0
        for o in ex.call_fn(st, n, [ref(SEnum(t, d, {}))]):
            if o.kind == "unsup": rec.unsup(n, P18, o.msg); continue
            if o.kind == "panic": rec.prove(ex, o.st, False, "%s: no panic (%s)" % (n, o.msg), P18); continue
            k += 1; rec.prove(ex, o.st, zi(ex.ty.disc(o.val)) == d, "%s: the same value" % n, P18)
        rec.functions.add(n)
        if not k: rec.unsup(n, P18, "no outcome")
    return rec, ex
def setup(J):
    ex = mk(J, dict(spec.HELPERS)); ex.loopquant = {"local"}
    for n in enum_clones(ex): ex.contracts[n] = c_enum
    # Option's Clone (std) of handles and character lists: the same value (Weak and Vec clones are modelled like that)
    for b in ex.bodies.values():
        if b["name"].startswith(("<std::option::Option<std::rc::Weak<", "<std::option::Option<std::vec::Vec<char>>")) and b["name"].endswith(" as std::clone::Clone>::clone"): ex.contracts[b["name"]] = c_enum
    L = Lay(ex)
    return ex, L
class Src:
    """the document: its nodes are 0..B, and stay as they are"""
    def __init__(s, ex, L, st):
        s.ex, s.L, s.B = ex, L, z3.Int("doc_nodes"); s.H = dict(st.heap); st.pc += [s.B >= 1, s.B <= st.nbase]
        h, j = z3.Int("h"), z3.Int("j"); H = s.H; ch = z3.Select(H["childs"], h); et = z3.Select(H["end_tag"], h); bg = lambda x: z3.Select(H["begin_at"], x)
        s.kid = lambda h, j: z3.Implies(z3.And(0 <= h, h < s.B, 0 <= j, j < L.nch(z3.Select(H["childs"], h))), z3.And(0 <= s.child(h, j), s.child(h, j) < s.B, bg(s.child(h, j)) >= bg(h)))
        s.one = lambda h: z3.Implies(z3.And(0 <= h, h < s.B), z3.And(0 <= bg(h), bg(h) <= z3.Select(H["end_at"], h), z3.Select(H["end_at"], h) < ISIZE, z3.Select(H["end_tag"], h) >= -1, z3.Implies(z3.Select(H["end_tag"], h) != -1, z3.And(z3.Select(H["end_tag"], h) < s.B, bg(z3.Select(H["end_tag"], h)) >= bg(h)))))
        st.pc.append(forall([h, j], s.kid(h, j), [s.child(h, j)])); st.pc.append(forall([h], s.one(h), [bg(h)]))
    def child(s, h, j): return s.L.child(z3.Select(s.H["childs"], h), j)
    def at(s, f, h): return z3.Select(s.H[f], h)

def copyof(L, S, st, n, reduce, lo, hi, other):
    """node n is a copy of orig[n] whose links stay within [lo, hi) and avoid `other`; (name, condition)"""
    H, o = st.heap, z3.Select(st.ghost["orig"], n); at = lambda f, x: z3.Select(H[f], x); j = z3.Int("cj"); ch, och = at("childs", n), S.at("childs", o); c = L.child(ch, j); et, oet = at("end_tag", n), S.at("end_tag", o); og = lambda x: z3.Select(st.ghost["orig"], x)
    ok = lambda x: z3.And(lo <= x, x < hi, *([x != other] if other is not None else []))
    yield "a node of the document", z3.And(0 <= o, o < S.B)
    for f in DATA: yield f, at(f, n) == S.at(f, o)
    for f in ("begin_at", "end_at"): yield f, at(f, n) == S.at(f, o) - reduce
    yield "as many children", z3.And(L.ovec.recognizer(1)(ch) == L.ovec.recognizer(1)(och), L.nch(ch) == L.nch(och))
    def kids(j): c = L.child(ch, j); return z3.Implies(z3.And(0 <= j, j < L.nch(och)), z3.And(ok(c), og(c) == S.child(o, j), at("parent", c) == n, at("index", c) == S.at("index", S.child(o, j))))
    yield "children", kids
    yield "end tag", z3.If(oet == -1, et == -1, z3.And(ok(et), og(et) == oet))
def clauses(L, S, st, reduce, lo, hi, other, skip=None):
    """for every node of [lo, hi): (name, quantified formula)"""
    n, j = z3.Int("n"), z3.Int("cj"); g = z3.And(lo <= n, n < hi, *([n != skip] if skip is not None else []))
    for nm, c in copyof(L, S, st, n, reduce, lo, hi, other):
        if callable(c): yield nm, lambda c=c: forall([n, j], z3.Implies(g, c(j)), [L.child(z3.Select(st.heap["childs"], n), j)]), lambda n_, j_, c=c: None
        elif nm == "a node of the document": yield nm, lambda c=c: forall([n], z3.Implies(g, c), [z3.Select(st.ghost["orig"], n)]), None
        else: yield nm, lambda c=c, nm=nm: forall([n], z3.Implies(g, c), [z3.Select(st.heap[{"end tag": "end_tag", "as many children": "childs"}.get(nm, nm)], n)]), None
def frame(H0, st, n0):
    n = z3.Int("n")
    for f in H0: yield "old " + f, lambda f=f: z3.BoolVal(True) if st.heap[f].eq(H0[f]) else forall([n], z3.Implies(z3.And(0 <= n, n < n0), z3.Select(st.heap[f], n) == z3.Select(H0[f], n)), [z3.Select(st.heap[f], n)])
def old_orig(o0, st, n0):
    n = z3.Int("n"); return z3.BoolVal(True) if st.ghost["orig"].eq(o0) else forall([n], z3.Implies(z3.And(0 <= n, n < n0), z3.Select(st.ghost["orig"], n) == z3.Select(o0, n)), [z3.Select(st.ghost["orig"], n)])
def c_clone(L, S, rec, REDUCE):
    def c(ex, st, a, t):
        h = handle(ex, st, a[0]); red = zi(a[1]); lo = zi(simp(st.next()))
        # the node is one of the document, unchanged since
        s1 = st.copy(); s1.pc.append(zb(S.one(h)))
        rec.prove(ex, s1, z3.And(0 <= h, h < S.B, red <= S.at("begin_at", h)), "%s: clones a node that starts at or after the base" % rec.unit, P18)
        H0, o0 = dict(st.heap), st.ghost["orig"]
        hi = fresh(I, "hi"); r = fresh(I, "copy"); st.pc += [lo <= r, r < hi, zb(S.one(h))]; st.nbase, st.nk = hi, 0
        for f in H0: st.heap[f] = fresh(H0[f].sort(), "ch_" + f)
        st.ghost["orig"] = fresh(o0.sort(), "corig")
        for nm, q in frame(H0, st, lo): st.pc.append(q())
        st.pc.append(old_orig(o0, st, lo))
        for nm, q, _ in clauses(L, S, st, red, lo, hi, r): st.pc.append(q())
        st.pc += [z3.Select(st.ghost["orig"], r) == h, z3.Select(st.heap["parent"], r) == -1]
        # no node links to the result (proved for the contract) and the locals are gone: this handle is the only one
        st.ghost["unique"] = dict(st.ghost.get("unique", {}), **{str(r): True})
        return [(st, RcV("node", r))]
    return c
def t_clone(L, S, h, red):
    """invariant of the loop over the children"""
    def tm(ex, s0, W, uid):
        C = []; lo = zi(simp(s0.next())); H0 = dict(s0.heap); o0 = s0.ghost["orig"]; names = []
        seqs = []
        for l in sorted(W, key=repr):
            v = loops.read(s0, l)
            if isinstance(v, SeqV) and v.ety is not None and ex.ty.handle_kind(v.ety) == "node": seqs.append(lambda s, l=l: ex.term(s, loops.read(s, l)))
        pars = [zi(v.h) for f in s0.frames if f.uid == uid for v in f.loc.values() if isinstance(v, RcV) and v.k == "node"]
        for k, sq in spec.counters(ex, s0, W, uid):
            if sq is None or sq.ety is None or ex.ty.handle_kind(sq.ety) != "node": continue
            C.append(("next", lambda s: lo <= zi(s.next())))
            for f in H0: C.append(("old " + f, lambda s, f=f: dict(frame(H0, s, lo))["old " + f]()))
            C.append(("old orig", lambda s: old_orig(o0, s, lo)))
            for nm in [x[0] for x in clauses(L, S, s0, red, lo, lo, None)]:
                C.append((nm, lambda s, nm=nm: {n: q for n, q, _ in clauses(L, S, s, red, lo, zi(s.next()), None)}[nm]()))
            for X in seqs:
                j = z3.Int("xj")
                C.append(("length", lambda s, X=X, k=k: L.qn.len(X(s)) == k(s)))
                for p in pars[:3]:
                    def ln(s, X=X, k=k, p=p):
                        c = sat(X(s), j); return forall([j], z3.Implies(z3.And(0 <= j, j < k(s)), z3.And(lo <= c, c < zi(s.next()), z3.Select(s.ghost["orig"], c) == S.child(h, j), z3.Select(s.heap["parent"], c) == p, z3.Select(s.heap["index"], c) == S.at("index", S.child(h, j)))), [c])
                    C.append(("list %s" % p, ln))
            def kid(s, k=k): return z3.Implies(k(s) < L.nch(S.at("childs", h)), z3.And(S.kid(h, k(s)), S.one(S.child(h, k(s)))))
            C.append(("fact", kid))
        return C
    return tm
def prove(rec, ex, st, g, name):
    return rec.prove(ex, st, g, name, P18, timeout=20000)
def init(J, rec):
    ex, L = setup(J); ex.obsrec = rec; st = St(); st.nbase = z3.Int("next0"); st.pc += [st.nbase >= 1, st.nbase < ISIZE]
    for n, t in ex.node_fields: st.heap[n] = z3.Const("H_" + n, z3.ArraySort(I, ex.ty.sort(t)))
    st.ghost["orig"] = z3.Const("orig", z3.ArraySort(I, I))
    S = Src(ex, L, st); h = z3.Int("h0"); st.pc += [0 <= h, h < S.B, zb(S.one(h))]
    return ex, L, st, S, h
def ensures(rec, ex, L, S, o, fn, h, red, H0, o0, lo, k):
    s = o.st; hi = zi(s.next())
    if not (isinstance(o.val, RcV) and o.val.k == "node"): rec.unsup("%s: result" % fn, P18, repr(o.val)); return
    r = zi(o.val.h)
    if fn.endswith("_with"): s.ghost["orig"] = z3.Store(s.ghost["orig"], r, h)      # ghost: what this node is the copy of
    lab = "[path %d]" % k
    if k < 4: rec.covers.append(("%s %s is not vacuous" % (fn, lab), not refuted(ex, s)))
    prove(rec, ex, s, z3.And(lo <= r, r < hi, z3.Select(s.heap["parent"], r) == -1, z3.Select(s.ghost["orig"], r) == h), "%s: a new node without parent, the copy of the given one %s" % (fn, lab))
    for nm, q in frame(H0, s, lo):
        sk = fresh(I, "n"); f = nm[4:]
        prove(rec, ex, s, z3.Implies(z3.And(0 <= sk, sk < lo), z3.Select(s.heap[f], sk) == z3.Select(H0[f], sk)), "%s: %s of the nodes there were is kept %s" % (fn, f, lab))
    sk = fresh(I, "n"); prove(rec, ex, s, z3.Implies(z3.And(0 <= sk, sk < lo), z3.Select(s.ghost["orig"], sk) == z3.Select(o0, sk)), "%s: ghost frame %s" % (fn, lab))
    n = fresh(I, "n"); j = fresh(I, "j")
    for nm, c in copyof(L, S, s, n, red, lo, hi, r):
        g = c(j) if callable(c) else c
        prove(rec, ex, s, z3.Implies(z3.And(lo <= n, n < hi), g), "%s: every new node is a copy: %s %s" % (fn, nm, lab))
    rec.prove(ex, s, z3.BoolVal(not s.guards), "%s: no borrow left %s" % (fn, lab), P18)
def unit_with(J):
    rec = Rec("clone_node_with"); ex, L, st, S, h = init(J, rec); red = z3.Int("reduce"); st.pc += [0 <= red, red <= S.at("begin_at", h)]
    ex.contracts[CW] = c_clone(L, S, rec, red); ex.loop_templates = [t_clone(L, S, h, red)]
    rec.functions |= {"Node::clone_node_with", "Node::clone_node_without_childs"}; rec.covers.append((rec.unit, ex.feasible(st)))
    H0, o0, lo = dict(st.heap), st.ghost["orig"], zi(st.next()); n = 0
    for k, o in enumerate(ex.call_fn(st, CW, [Ptr(("H", h)), red])):
        if o.kind == "unsup": rec.unsup("clone_node_with: %s at %s" % (o.msg, o.loc), P18, o.msg); continue
        if o.kind == "panic": prove(rec, ex, o.st, False, "clone_node_with: no panic (%s at %s) [path %d]" % (o.msg, o.loc, k)); continue
        n += 1; ensures(rec, ex, L, S, o, "clone_node_with", h, red, H0, o0, lo, k)
    if not n: rec.unsup("clone_node_with: no outcome", P18, "")
    return rec, ex
def unit_clone(J):
    rec = Rec("clone_node"); n = 0
    for fn in (CN, "<rphtml::parser::Node as std::clone::Clone>::clone"):
        ex, L, st, S, h = init(J, rec); red = S.at("begin_at", h); ex.contracts[CW] = c_clone(L, S, rec, red)
        rec.functions.add(fn.split("::", 1)[1]); rec.covers.append((fn, ex.feasible(st))); H0, o0, lo = dict(st.heap), st.ghost["orig"], zi(st.next())
        for k, o in enumerate(ex.call_fn(st, fn, [Ptr(("H", h))])):
            if o.kind == "unsup": rec.unsup("%s: %s at %s" % (fn, o.msg, o.loc), P18, o.msg); continue
            if o.kind == "panic": prove(rec, ex, o.st, False, "%s: no panic (%s at %s) [path %d]" % (fn, o.msg, o.loc, k)); continue
            n += 1
            if isinstance(o.val, Opq) and o.val.tag == "ownednode": o.val = o.val.args      # the value behind the only handle
            ensures(rec, ex, L, S, o, fn.split("::")[-1] if fn == CN else "Clone for Node", h, red, H0, o0, lo, k)
    if n < 2: rec.unsup("clone_node: no outcome", P18, "")
    return rec, ex
UNITS = [("clone_node", unit_clone, P18), ("enum clones", unit_enums, P18), ("clone_node_with", unit_with, P18)]
if __name__ == "__main__":
    import sys, time; sys.setrecursionlimit(20000)
    J = json.load(open("/verif/build/mir.json"))
    for n, f, ps in UNITS:
        if sys.argv[1:] and not any(a in n for a in sys.argv[1:]): continue
        t = time.time(); rec, ex = f(J)
        print("==", n, "%.1fs" % (time.time() - t), len(rec.obls), "obligations", sum(o["status"] == "proved" for o in rec.obls), "proved", [n for n, ok in rec.covers if not ok])
        for o in rec.obls:
            if o["status"] != "proved": print("   ", o["status"], o["name"], (o["detail"] or "")[:400])
        print("  ", ex.summaries, flush=True)
