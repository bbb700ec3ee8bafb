"""Whole trees: Node::build_tree, Node::build, DocHolder::render*, Node::is_document, lookups, on top of build_node's contract."""
import z3, json
from core import *
from vc import Rec
import spec, models, loops, ex as exm
from spec import *
from pure_units import ref
from pstep import tword
from render_units import setup, wf, mkst, optcell, status, paths, check_out, same_seq, segs, NONE, HTML, TEXT, node_parts, PROPS, attr_facts
ft = z3.Function("first_tag", SI, I)       # index of the first tag among the children, the length if there is none
ft2 = z3.Function("second_tag", SI, I)
BT, BN = P + "Node::build_tree", P + "Node::build_node"
TREE = {"C02", "C04", "C13", "C14", "C15", "C16", "C17"}

def handle(ex, st, a):
    p = a; n = 0
    while not (isinstance(p, Ptr) and p.b[0] == "H" and not p.p) and n < 4:
        p = ex.load(st, p) if isinstance(p, Ptr) else p
        if isinstance(p, Guard): p = p.ptr
        if isinstance(p, RcV): return zi(p.h)
        n += 1
    if not (isinstance(p, Ptr) and p.b[0] == "H"): raise Unsupported("not a node: %r" % (a,))
    return zi(p.b[1])
def stat(ex, L, st, a):
    p = models.base_ptr(ex, st, a); v = ex.load(st, p)
    return p, v, zi(ex.ty.disc(v.f[L.RS["inner_type"]])), zb(v.f[L.RS["root"]]), zb(v.f[L.RS["is_in_pre"]])
def append(ex, st, a, t):
    p = models.base_ptr(ex, st, a); v = ex.load(st, p); ex.store(st, p, SeqV(v.ety if v.ety is not None else ex.ty.chart, v.segs + (("s", t),)))
def same_options(ex, L, st, a):
    v = models.val(ex, st, a)
    return isinstance(v, Agg) and all(loops.same(x, L.o[f[0]]) for x, f in zip(v.f, ex.ty[L.rot]["v"][0]["f"]))
def c_node(L, rec, props):
    def c(ex, st, a, t):
        if not same_options(ex, L, st, a[1]): raise Unsupported("build_node with other options")
        h = handle(ex, st, a[0]); p, v, inner, root, pre = stat(ex, L, st, a[2])
        pre_ok(ex, L, st, rec, h, props)
        append(ex, st, a[3], L.piece(h, inner, root, pre))
        f = list(v.f); f[L.RS["is_in_pre"]] = L.npre(h, pre); ex.store(st, p, Agg(v.ty, v.v, f))
        return [(st, ex.UNIT)]
    return c
def pre_ok(ex, L, st, rec, h, props):
    rec.prove(ex, st, z3.And(h >= 0, h < zi(st.next())), "%s: the node rendered is a node of the tree" % rec.unit, props)
def c_tree(L, rec, props):
    def c(ex, st, a, t):
        if not same_options(ex, L, st, a[1]): raise Unsupported("build_tree with other options")
        h = handle(ex, st, a[0]); p, v, inner, root, pre = stat(ex, L, st, a[2])
        pre_ok(ex, L, st, rec, h, props)
        append(ex, st, a[3], L.tree(h, inner, root, pre)); return [(st, ex.UNIT)]
    return c
def kid_facts(L, T, k, inner, p): return [L.kids(T, z3.IntVal(0), inner, p) == QI.empty, L.kids(T, k + 1, inner, p) == QI.app(L.kids(T, k, inner, p), L.tree(AT(T, k), inner, z3.BoolVal(False), p))]
def is_nodes(ex, sq): return sq is not None and sq.ety is not None and ex.ty.handle_kind(sq.ety) == "node" and len(sq.segs) == 1 and sq.segs[0][0] == "s"
def t_kids(L, inner, ps):
    def tm(ex, s0, W, uid):
        _, _, seqs = leaves(ex, s0, W); C = []
        for k, sq in counters(ex, s0, W, uid):
            if not is_nodes(ex, sq): continue
            T = sq.segs[0][1]
            for p in ps:
                C.append(("fact", lambda s, k=k, T=T, p=p: z3.And(*kid_facts(L, T, k(s), inner, p))))
                for _, v in seqs:
                    v0 = v(s0); C.append(("kids", lambda s, v=v, v0=v0, k=k, T=T, p=p: v(s) == QI.app(v0, L.kids(T, k(s), inner, p))))
        return C
    return tm
def c_bnode_range(ex, L, st, h):
    """links of a finished document lead to nodes"""
    H = st.heap; j = z3.Int("j")
    return [z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < L.nch(z3.Select(H["childs"], h))), z3.And(L.child(z3.Select(H["childs"], h), j) >= 0, L.child(z3.Select(H["childs"], h), j) < st.nbase)), patterns=[L.child(z3.Select(H["childs"], h), j)])]
def tree_parts(ex, L, st, h, inner, root, pre, d):
    ch, e = z3.Select(st.heap["childs"], h), z3.Select(st.heap["end_tag"], h); q = L.npre(h, pre); r = [L.piece(h, inner, root, pre)]
    if d(L.ovec.recognizer(1)(ch)):
        T = simpacc(L.ovec.accessor(1, 0), ch); r.append(L.kids(T, QI.len(T), inner, q))
    if d(e != -1): r.append(L.piece(e, inner, root, q))
    return r
def init(J, contracts=None):
    ex, L = setup(J, contracts); st = mkst(ex); h = z3.Int("h"); st.pc += [z3.And(h >= 0, h < st.nbase), wf(ex, L, st)(h)]
    for c in c_bnode_range(ex, L, st, h): st.pc.append(c); QUANT[c.get_id()] = c
    T = z3.Select(st.heap["node_type"], h); st.pc.append(z3.And(T >= 0, T < len(L.K)))
    return ex, L, st, h
def heap_same(s, h0): return And(*[z3.BoolVal(s.heap[n].eq(h0[n])) for n in h0])
def unit_tree(J):
    rec = Rec("build_tree"); ex, L, st, h = init(J); ex.obsrec = rec; ex.contracts[BN] = c_node(L, rec, TREE); ex.contracts[BT] = c_tree(L, rec, TREE)
    inner, root, pre = z3.Int("inner"), z3.Bool("root"), z3.Bool("pre"); st.pc.append(z3.And(inner >= 0, inner <= 2))
    ex.loop_templates = [t_kids(L, inner, [L.npre(h, pre), pre])] + ex.loop_templates
    R = z3.Const("R", SI); opts = optcell(ex, L, st)
    sc = Ptr(("C", ex.newcell(st, status(ex, L, inner, root, pre)))); rc = Ptr(("C", ex.newcell(st, SeqV(ex.ty.chart, [("s", R)]))))
    h0 = dict(st.heap); rec.functions.add("Node::build_tree"); rec.covers.append((rec.unit, ex.feasible(st)))
    def extra(s, o):
        v = ex.load(s, sc)
        return [("is_in_pre restored", {"C13", "C02"}, zb(v.f[L.RS["is_in_pre"]]) == pre), ("root and inner kept", TREE, And(zb(v.f[L.RS["root"]]) == root, zi(ex.ty.disc(v.f[L.RS["inner_type"]])) == inner)), ("nodes unchanged", {"C18", "C02"}, heap_same(s, h0)), ("no borrow left", {"C02"}, z3.BoolVal(not s.guards))]
    for k, o in enumerate(ex.call_fn(st, BT, [Ptr(("H", h)), opts, sc, rc])):
        check_out(rec, ex, L, o, "Node::build_tree", TREE, lambda d, s: [R] + tree_parts(ex, L, s, h, inner, root, pre, d), lambda s, o: ex.load(s, rc), k, extra)
    return rec, ex

# ---------------------------------------------------------------- build
def tag_facts(L, st, T, k):
    """definition of first_tag and second_tag at one index"""
    ty = lambda i: z3.Select(st.heap["node_type"], AT(T, i)); n = QI.len(T); g = L.K["Tag"]; a, b = ft(T), ft2(T)
    return [0 <= a, a <= b, b <= n, z3.Implies(a < n, z3.And(ty(a) == g, a < b)), z3.Implies(b < n, ty(b) == g), z3.Implies(z3.And(0 <= k, k < a), ty(k) != g), z3.Implies(z3.And(a < k, k < b), ty(k) != g)]
def t_first(L, st):
    def tm(ex, s0, W, uid):
        _, bools, _ = leaves(ex, s0, W); C = []
        for k, sq in counters(ex, s0, W, uid):
            if not is_nodes(ex, sq): continue
            T = sq.segs[0][1]
            C.append(("fact", lambda s, k=k, T=T: z3.And(*tag_facts(L, st, T, k(s)))))
            C.append(("second", lambda s, k=k, T=T: k(s) <= ft2(T)))
            for _, b in bools: C.append(("found", lambda s, b=b, k=k, T=T: zb(b(s)) == (ft(T) < k(s))))
            for l in sorted(W, key=repr):
                v = loops.read(s0, l)
                if isinstance(v, (Agg, SEnum)) and v.ty is not None and loops.opt_node(ex, v.ty):
                    C.append(("some", lambda s, l=l, k=k, T=T: loops.opt_some(ex, s, loops.read(s, l)) == (ft(T) < k(s))))
                    C.append(("node", lambda s, l=l, k=k, T=T: loops.opt_handle(ex, s, loops.read(s, l)) == z3.If(ft(T) < k(s), AT(T, ft(T)), -1)))
            for l in sorted(W, key=repr):
                v = loops.read(s0, l)
                if isinstance(v, int) and not isinstance(v, bool): C.append(("count", lambda s, l=l, k=k, T=T: zi(loops.read(s, l)) == z3.If(ft(T) < k(s), 1, 0) + z3.If(ft2(T) < k(s), 1, 0)))
        return C
    return tm
def doc_panic(ex, L, st, h, inner, text):
    """the documented cases in which build panics"""
    T = z3.Select(st.heap["node_type"], h); ch = z3.Select(st.heap["childs"], h); C = simpacc(L.ovec.accessor(1, 0), ch); K = L.K
    one = z3.And(ft(C) < QI.len(C), ft2(C) == QI.len(C))
    return z3.Or(z3.And(text, L.o["inner_html"]), z3.And(inner != NONE, z3.If(T == K["AbstractRoot"], z3.And(L.ovec.recognizer(1)(ch), z3.Not(one)), z3.Not(z3.Or(T == K["Tag"], z3.And(inner == TEXT, z3.Or(T == K["Comment"], T == K["XMLCDATA"])))))))
def unit_build(J):
    rec = Rec("build"); Pp = {"C17", "C02", "C04"}; ex, L, st, h = init(J); ex.obsrec = rec; ex.contracts[BT] = c_tree(L, rec, Pp)
    text = z3.Bool("inner_text"); inner = z3.Int("inner"); st.pc.append(inner == z3.If(text, TEXT, z3.If(L.o["inner_html"], HTML, NONE))); opts = optcell(ex, L, st)
    ch = z3.Select(st.heap["childs"], h); C = simpacc(L.ovec.accessor(1, 0), ch)
    st.pc += tag_facts(L, st, C, z3.IntVal(0)); ex.loop_templates = [t_first(L, st)] + ex.loop_templates
    h0 = dict(st.heap); rec.functions.add("Node::build"); rec.covers.append((rec.unit, ex.feasible(st)))
    F = z3.BoolVal(False); Tr = z3.BoolVal(True)
    def expect(d, s):
        if d(z3.And(inner != NONE, z3.Select(s.heap["node_type"], h) == L.K["AbstractRoot"])):
            if not d(L.ovec.recognizer(1)(ch)): return []
            return [L.tree(AT(C, ft(C)), inner, Tr, F)]
        return [L.tree(h, inner, Tr, F)]
    for k, o in enumerate(ex.call_fn(st, P + "Node::build", [Ptr(("H", h)), opts, text])):
        if o.kind == "panic":
            rec.prove(ex, o.st, doc_panic(ex, L, o.st, h, inner, text), "Node::build: panics only in the documented cases (%s) [path %d]" % (o.msg[:60], k), {"C02"}); continue
        check_out(rec, ex, L, o, "Node::build", {"C17", "C04", "C02"}, expect, lambda s, o: o.val, k, lambda s, o: [("nodes unchanged", {"C18", "C02"}, heap_same(s, h0)), ("no borrow left", {"C02"}, z3.BoolVal(not s.guards)), ("the documented cases are refused", {"C17"}, z3.Not(doc_panic(ex, L, s, h, inner, text)))])
    return rec, ex

# ---------------------------------------------------------------- the document handle
def holder(ex, L, st, **fields):
    """a DocHolder whose document has these fields (and any others)"""
    fs = [UN] * len(ex.ty[L.doct]["v"][0]["f"])
    for k, v in fields.items(): fs[L.D[k]] = v
    return Ptr(("V", Agg(ex.ty.find(P + "DocHolder"), 0, (RcV("doc", ex.newcell(st, Agg(L.doct, 0, fs))),))))
def c_build(L, rec, props, ran):
    def c(ex, st, a, t):
        if not same_options(ex, L, st, a[1]): raise Unsupported("build with other options")
        h = handle(ex, st, a[0]); ran.append(1)
        return [(st, SeqV(ex.ty.chart, [("s", BUILD(h, zb(a[2])))]))]
    return c
BUILD = z3.Function("build", I, B, SI)        # what Node::build returns with the given options
def unit_holder(J):
    rec = Rec("DocHolder"); ex, L, st, h = init(J); ran = []; ex.contracts[P + "Node::build"] = c_build(L, rec, {"C04", "C17"}, ran)
    for fn, text in (("render", False), ("render_text", True)):
        s0 = st.copy(); opts = optcell(ex, L, s0); d = holder(ex, L, s0, root=RcV("node", h)); rec.functions.add("DocHolder::" + fn)
        h0 = dict(s0.heap)
        for k, o in enumerate(ex.call_fn(s0, P + "DocHolder::" + fn, [d, opts])):
            check_out(rec, ex, L, o, "DocHolder::" + fn, {"C04", "C13", "C14", "C15", "C16", "C17", "C02"}, lambda d, s: [BUILD(h, z3.BoolVal(text))], lambda s, o: o.val, k, lambda s, o: [("nodes unchanged", {"C02"}, heap_same(s, h0)), ("no borrow left", {"C02"}, z3.BoolVal(not s.guards))])
    s0 = st.copy(); d = holder(ex, L, s0, root=RcV("node", h)); rec.functions.add("DocHolder::get_root_node")
    for k, o in enumerate(ex.call_fn(s0, P + "DocHolder::get_root_node", [d])):
        if o.kind != "ret": rec.unsup("DocHolder::get_root_node", {"C03"}, o.msg); continue
        rec.prove(ex, o.st, eq(o.val.h, h), "DocHolder::get_root_node: the document's root", {"C03", "C02"})
    # lookup
    s0 = st.copy(); m = z3.Const("ids", ex.ty.sort(L.idmap)); ids = ex.newcell(s0, ex.ty.unpack(L.idmap, m, s0)); d = holder(ex, L, s0, root=RcV("node", h), id_tags=RcV("cell", ids)); q = z3.Const("q", SI)
    rec.functions.add("DocHolder::get_element_by_id")
    s0.pc.append(z3.And(z3.Select(m, q) >= -1, z3.Select(m, q) < s0.nbase))
    for k, o in enumerate(ex.call_fn(s0, P + "DocHolder::get_element_by_id", [d, ref(SeqV(ex.ty.chart, [("s", q)]))])):
        if o.kind != "ret": rec.prove(ex, o.st, False, "DocHolder::get_element_by_id: no panic (%s)" % o.msg, {"C11"}) if o.kind == "panic" else rec.unsup("DocHolder::get_element_by_id", {"C11"}, o.msg); continue
        b = ex.ty.body_ret(ex, P + "DocHolder::get_element_by_id") if False else ex.bodies[ex.byname[P + "DocHolder::get_element_by_id"]]["locals"][0]
        rec.prove(ex, o.st, ex.pack(o.st, b, o.val) == z3.Select(m, q), "DocHolder::get_element_by_id: the node recorded for exactly this value [path %d]" % k, {"C11"})
    return rec, ex
# ---------------------------------------------------------------- is_document
fh = z3.Function("first_html", SI, I); fx = z3.Function("first_other", SI, I)
def html_facts(L, st, T, k):
    H = st.heap; ty = lambda i: z3.Select(H["node_type"], AT(T, i)); n = QI.len(T); K = L.K
    def ishtml(i): return z3.And(ty(i) == K["Tag"], tword(L.mf(z3.Select(H["meta"], AT(T, i)), "name"), "html"))
    def other(i): return z3.And(ty(i) != K["Comment"], ty(i) != K["SpacesBetweenTag"], ty(i) != K["HTMLDOCTYPE"], i != fh(T))
    a, b = fh(T), fx(T)
    return [0 <= a, a <= n, 0 <= b, b <= n, z3.Implies(a < n, ishtml(a)), z3.Implies(b < n, other(b)), z3.Implies(z3.And(0 <= k, k < a), z3.Not(ishtml(k))), z3.Implies(z3.And(0 <= k, k < b), z3.Not(other(k))),
        z3.Implies(z3.And(0 <= k, k < n), z3.Implies(ty(k) == K["Tag"], L.some_m(z3.Select(H["meta"], AT(T, k)))))]
def t_html(L, st):
    def tm(ex, s0, W, uid):
        _, bools, _ = leaves(ex, s0, W); C = []
        for k, sq in counters(ex, s0, W, uid):
            if not is_nodes(ex, sq): continue
            T = sq.segs[0][1]
            C.append(("fact", lambda s, k=k, T=T: z3.And(*html_facts(L, st, T, k(s)))))
            for _, b in bools:
                C.append(("html", lambda s, b=b, k=k, T=T: zb(b(s)) == (fh(T) < k(s)))); C.append(("ok", lambda s, b=b, k=k, T=T: zb(b(s)) == (fx(T) >= k(s)))); C.append(("other", lambda s, b=b, k=k, T=T: zb(b(s)) == (fx(T) < k(s))))
        return C
    return tm
def unit_document(J):
    rec = Rec("is_document"); ex, L, st, h = init(J); ch = z3.Select(st.heap["childs"], h); T = simpacc(L.ovec.accessor(1, 0), ch)
    st.pc += html_facts(L, st, T, z3.IntVal(0)); ex.loop_templates = [t_html(L, st)] + ex.loop_templates; rec.functions.add("Node::is_document"); rec.covers.append((rec.unit, ex.feasible(st)))
    isdoc = z3.And(z3.Select(st.heap["node_type"], h) == L.K["AbstractRoot"], L.ovec.recognizer(1)(ch), fh(T) < QI.len(T))
    for k, o in enumerate(ex.call_fn(st, P + "Node::is_document", [Ptr(("H", h))])):
        if o.kind != "ret": rec.prove(ex, o.st, False, "Node::is_document: no panic (%s)" % o.msg, {"C20"}) if o.kind == "panic" else rec.unsup("Node::is_document", {"C20"}, o.msg); continue
        rec.prove(ex, o.st, zb(o.val.f[0]) == isdoc, "Node::is_document: first flag [path %d]" % k, {"C20"})
        rec.prove(ex, o.st, zb(o.val.f[1]) == z3.Not(z3.And(isdoc, fx(T) < QI.len(T))), "Node::is_document: second flag [path %d]" % k, {"C20"})
    return rec, ex
UNITS = [("build_tree", unit_tree, TREE | {"C18"}), ("build", unit_build, {"C02", "C04", "C17", "C18"}), ("DocHolder", unit_holder, TREE | {"C03", "C11"}), ("is_document", unit_document, {"C20"})]
if __name__ == "__main__":
    import sys, time; sys.setrecursionlimit(20000)
    J = json.load(open("/verif/build/mir.json"))
    for n, f, ps in UNITS:
        if sys.argv[1:] and not any(a in n for a in sys.argv[1:]): continue
        t = time.time(); rec, ex = f(J)
        print("==", n, "%.1fs" % (time.time() - t), len(rec.obls), "obligations", sum(o["status"] == "proved" for o in rec.obls), "proved", [n for n, ok in rec.covers if not ok])
        for o in rec.obls:
            if o["status"] != "proved": print("   ", o["status"], o["name"], (o["detail"] or "")[:400])
        print("  ", ex.summaries, flush=True)
