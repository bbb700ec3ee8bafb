"""Rendering: Attr::build, TagMeta::attrs_to_string, Node::build_node, Node::build_tree, Node::build, DocHolder::render*.

The heap is an arbitrary one that satisfies what the parser units establish for finished documents (texts and end tags
have content, tags and doctypes a name, child lists are not empty, children are nodes); rendering never writes it."""
import z3, json
from core import *
from ex import Ex
from vc import Rec
import spec, models, loops, ex as exm
from spec import *
from pure_units import mk, word, wordx, ref, outcomes
from pstep import Lay, tword
from models import decode
OPTS = ("minify_spaces", "lowercase_tagname", "remove_endtag_space", "remove_attr_quote", "remove_comment", "always_close_void", "inner_html", "decode_entity", "encode_content")
NEEDQ = [32, 9, 10, 12, 13, 34, 39, 96, 61, 60, 62]
anyq = z3.Function("anyquote", SI, B)        # some character that does not go without quotes
RENDER = {"C02", "C04", "C13", "C14", "C15", "C16", "C17"}
NONE, HTML, TEXT = 0, 1, 2

def setup(J, contracts=None):
    cs = dict(spec.HELPERS); cs.update(contracts or {})
    ex = mk(J, cs); ex.axioms = ex.axioms + spec.app_axioms()
    x = z3.Int("elem"); ex.preds = ex.preds + [(zb(Or(*[eq(x, k) for k in NEEDQ])), anyq)]
    L = Lay(ex); T = ex.ty
    L.rot = T.find("rphtml::config::RenderOptions"); L.RO = {f[0]: i for i, f in enumerate(T[L.rot]["v"][0]["f"])}
    for k in OPTS:
        if k not in L.RO: raise Unsupported("RenderOptions.%s not found" % k)
    if len(L.RO) != len(OPTS): raise Unsupported("RenderOptions has other fields")
    L.rst = T.find(P + "RenderStatus"); L.RS = {f[0]: i for i, f in enumerate(T[L.rst]["v"][0]["f"])}
    for k in ("inner_type", "is_in_pre", "root"):
        if k not in L.RS: raise Unsupported("RenderStatus.%s not found" % k)
    if len(L.RS) != 3: raise Unsupported("RenderStatus has other fields")
    L.inn = T[L.rst]["v"][0]["f"][L.RS["inner_type"]][1]
    L.abuild = z3.Function("abuild", L.attr, B, SI)           # one attribute
    L.attrsp = z3.Function("attrsp", L.qa.S, I, B, SI)        # the first k attributes, each after a space
    L.o = {k: z3.Bool("o_" + k) for k in OPTS}
    L.piece = z3.Function("piece", I, I, B, B, SI)            # what build_node adds: node, inner, root, pre
    L.npre = z3.Function("npre", I, B, B)                     # is_in_pre after build_node
    L.tree = z3.Function("tree", I, I, B, B, SI)              # what build_tree adds
    L.kids = z3.Function("kids", L.qn.S, I, I, B, SI)         # the first k children: list, k, inner, pre
    return ex, L
def wf(ex, L, st):
    """what every finished document satisfies (obligations of the parser units), at one node"""
    H = st.heap; K = L.K
    def f(h):
        T = z3.Select(H["node_type"], h)
        return z3.And(z3.Implies(z3.Or(T == K["Text"], T == K["SpacesBetweenTag"], T == K["TagEnd"]), L.some_c(z3.Select(H["content"], h))), z3.Implies(z3.Or(T == K["Tag"], T == K["HTMLDOCTYPE"]), L.some_m(z3.Select(H["meta"], h))), z3.Implies(L.ovec.recognizer(1)(z3.Select(H["childs"], h)), L.nch(z3.Select(H["childs"], h)) >= 1))
    return f
def mkst(ex):
    st = St(); st.nbase = z3.Int("next0"); st.pc.append(st.nbase >= 1)
    for n, t in ex.node_fields: st.heap[n] = z3.Const("H_" + n, z3.ArraySort(I, ex.ty.sort(t)))
    return st
def optcell(ex, L, st):
    return Ptr(("C", ex.newcell(st, Agg(L.rot, 0, [L.o[f[0]] for f in ex.ty[L.rot]["v"][0]["f"]]))))
def status(ex, L, inner, root, pre):
    fs = [None] * 3; fs[L.RS["inner_type"]] = Agg(L.inn, inner, ()) if isinstance(inner, int) else SEnum(L.inn, inner, {}); fs[L.RS["is_in_pre"]] = pre; fs[L.RS["root"]] = root
    return Agg(L.rst, 0, fs)
def paths(ex, st, f):
    """f(dec) for every way its decisions can go: [(state, result)]"""
    out = []; work = [(st, [])]
    while work:
        s0, dec = work.pop(); s = s0.copy(); n = [0]
        class Split(Exception): pass
        def d(c):
            c = simp(c) if isz(c) else c
            if isinstance(c, bool): return c
            i = n[0]; n[0] += 1
            if i < len(dec): v = dec[i]; s.pc.append(c if v else z3.Not(c)); return v
            ft = ex.feasible(s, c); ff = ex.feasible(s, z3.Not(c))
            if ft and ff:
                work.append((s0, dec + [True])); work.append((s0, dec + [False])); raise Split()
            v = ft; dec.append(v); s.pc.append(c if v else z3.Not(c)); return v
        try: r = f(d, s)
        except Split: continue
        out.append((s, r))
    return out
def needq(t): return z3.Or(SLEN(t) == 0, anyq(t))
def app(*parts):
    """concatenation in normal form: strings and terms"""
    r = QI.empty
    for p in parts:
        if isinstance(p, str): r = push(r, p)
        elif isinstance(p, tuple): r = QI.snoc(r, p[0])
        else: r = p if r.eq(QI.empty) else QI.app(r, p)
    return r
def segs(parts):
    out = []
    for p in parts:
        if isinstance(p, str): out += [("e", ord(c)) for c in p]
        elif isinstance(p, tuple): out.append(("e", p[0]))
        else: out.append(("s", p))
    return out
def abuild_parts(L, a, rq, d):
    """the text of one attribute"""
    key, val, q = L.ahas(a), L.ahas(a, "value"), L.af(a, "quote")
    hk = d(key); r = [L.akey(a)] if hk else []
    if not d(val): return r
    v = L.aval(a); oq = L.ex.ty.sort(L.AT["quote"])
    if hk: r.append("=")
    if d(oq.recognizer(1)(q)) and d(z3.Or(L.af(a, "need_quote"), z3.Not(rq), z3.BoolVal(not hk), needq(v))):
        qc = simpacc(oq.accessor(1, 0), q); return r + [(qc,), v, (qc,)]
    return r + [v]
def same_seq(ex, st, got, parts, ety=None):
    """goal: the sequence is the concatenation of the parts"""
    want = SeqV(got.ety if got.ety is not None else ex.ty.chart, segs(parts))
    w = ex.term(st, want); g = ex.term(st, got)
    return g == w

# ---------------------------------------------------------------- attributes
def unit_attrs(J):
    rec = Rec("attributes"); ex, L = setup(J); Pp = {"C15", "C04", "C02"}
    # Attr::need_quoted_char is part of the public surface
    c = z3.Int("c"); st = St(); st.pc.append(z3.And(c >= 0, c <= 0x10FFFF))
    outcomes(rec, ex, "Attr::need_quoted_char", ex.call_fn(st, P + "Attr::need_quoted_char", [ref(c)]), {"C15"}, lambda s, v: [("whitespace, quotes, '<', '>', '=' or backtick", zb(v) == zb(Or(*[eq(c, k) for k in NEEDQ])))])
    a = z3.Const("attr", L.attr); rq = z3.Bool("rq")
    st = St(); av = ex.ty.unpack(L.attrt, a, st)
    rec.functions.add("Attr::build")
    for k, o in enumerate(ex.call_fn(st, P + "Attr::build", [Ptr(("V", av)), rq])):
        check_out(rec, ex, L, o, "Attr::build", Pp, lambda d, s: abuild_parts(L, a, rq, d), lambda s, o: o.val, k)
    # attrs_to_string: the attributes in order, each after one space
    m = z3.Const("meta", L.meta); A = simpacc(L.meta.accessor(0, L.M["attrs"]), m); st = St(); mv = ex.ty.unpack(L.metat, m, st)
    hook(rec, ex, L, A, rq, Pp)
    ex.contracts[P + "Attr::build"] = lambda e, s, ar, t: c_abuild(e, L, s, ar)
    ex.loop_templates = ex.loop_templates + [lambda e, s0, W, uid: t_attrs(e, L, s0, W, uid, A, rq)]
    rec.functions.add("TagMeta::attrs_to_string")
    for k, o in enumerate(ex.call_fn(st, P + "TagMeta::attrs_to_string", [Ptr(("V", mv)), rq])):
        o.st.pc += attr_facts(L, A, L.qa.len(A), rq)
        check_out(rec, ex, L, o, "TagMeta::attrs_to_string", Pp, lambda d, s: [L.attrsp(A, L.qa.len(A), rq)], lambda s, o: o.val, k)
    return rec, ex
def attr_facts(L, A, k, rq): return [L.attrsp(A, z3.IntVal(0), rq) == QI.empty, L.attrsp(A, k + 1, rq) == QI.app(QI.snoc(L.attrsp(A, k, rq), z3.IntVal(32)), L.abuild(L.qa.at(A, k), rq)), L.qa.len(A) >= 0]
def c_abuild(ex, L, st, a):
    v = models.val(ex, st, a[0]); return [(st, SeqV(ex.ty.chart, [("s", L.abuild(ex.pack(st, L.attrt, v), zb(a[1])))]))]
def t_attrs(ex, L, s0, W, uid, A, rq):
    _, _, seqs = leaves(ex, s0, W); C = []
    for k, sq in counters(ex, s0, W, uid):
        if sq is not None and (sq.ety is None or ex.ty.name(sq.ety) != ex.ty.name(L.attrt)): continue
        C.append(("fact", lambda s, k=k: z3.And(*attr_facts(L, A, k(s), rq))))
        for _, v in seqs:
            v0 = v(s0); C.append(("attrs", lambda s, v=v, v0=v0, k=k: v(s) == (L.attrsp(A, k(s), rq) if v0.eq(QI.empty) else QI.app(v0, L.attrsp(A, k(s), rq)))))
    return C
def hook(rec, ex, L, A, rq, Pp):
    """flat_map over the attributes: what one element contributes, for an arbitrary element"""
    def h(e, st, src, fv):
        if not isinstance(src, IterV) or src.rev: return None
        t = ex.term(st, ex.seq_slice(src.seq, src.lo, src.hi, st))
        if not t.eq(A): return None
        k = z3.Int("k"); s1 = st.copy(); s1.pc.append(z3.And(0 <= k, k < L.qa.len(A))); el = ex.ty.unpack(L.attrt, L.qa.at(A, k), s1)
        for i, (s2, v) in enumerate(ex.call_sub(s1, fv, [ref(el)])):
            if isinstance(v, Panic): rec.prove(ex, s2, False, "TagMeta::attrs_to_string: no panic (%s)" % v.msg, Pp); continue
            if not isinstance(v, SeqV) or loops.changes(st, s2): return None
            if not rec.prove(ex, s2, same_seq(ex, s2, v, [" ", L.abuild(L.qa.at(A, k), rq)]), "TagMeta::attrs_to_string: each attribute follows one space [path %d]" % i, Pp): return None
        return [(st, (("s", L.attrsp(A, L.qa.len(A), rq)),))]
    ex.contracts["#flat_map"] = h
def check_out(rec, ex, L, o, name, props, expect, result, k, extra=None):
    if o.kind == "panic": rec.prove(ex, o.st, False, "%s: no panic (%s) [path %d]" % (name, o.msg, k), {"C02"}); return
    if o.kind != "ret": rec.unsup("%s: %s at %s" % (name, o.msg, o.loc), props, o.msg); return
    for j, (s, e) in enumerate(paths(ex, o.st, expect)):
        got = result(s, o)
        if not isinstance(got, SeqV): rec.unsup("%s: result %r" % (name, got), props, ""); continue
        rec.prove(ex, s, same_seq(ex, s, got, e), "%s: result [path %d.%d]" % (name, k, j), props)
        for nm, pr, g in (extra(s, o) if extra else ()): rec.prove(ex, s, g, "%s: %s [path %d.%d]" % (name, nm, k, j), pr)

# ---------------------------------------------------------------- build_node
def c_attrs(L):
    def c(ex, st, a, t):
        m = models.val(ex, st, a[0])
        if isinstance(m, Guard): m = ex.load(st, m.ptr)
        A = ex.term(st, m.f[L.M["attrs"]]); st.pc += attr_facts(L, A, z3.IntVal(0), zb(a[1]))
        return [(st, SeqV(ex.ty.chart, [("s", L.attrsp(A, L.qa.len(A), zb(a[1])))]))]
    return c
def trim(t): return ssub(t, z3.IntVal(0), trimlen(t))
PRE = "pre"
def node_parts(ex, L, st, h, kind, inner, root, pre, d):
    """(parts, is_in_pre afterwards)"""
    o = L.o; H = st.heap; con = z3.Select(H["content"], h); me = z3.Select(H["meta"], h); C = L.con(con)
    tag = d(z3.If(root, inner == NONE, inner != TEXT))
    if kind == "Text":
        t = C
        if d(z3.And(z3.Not(pre), o["minify_spaces"])): t = spec.minif(C)
        return [decode(t) if d(o["decode_entity"]) else t], pre
    if kind == "SpacesBetweenTag": return ([] if d(z3.And(z3.Not(pre), o["minify_spaces"])) else [C]), pre
    if kind == "Tag":
        nm = L.mf(me, "name"); r = []; A = L.mf(me, "attrs")
        if tag:
            r = ["<", lower(nm) if d(o["lowercase_tagname"]) else nm, L.attrsp(A, L.qa.len(A), o["remove_attr_quote"])]
            if d(z3.Or(L.mf(me, "self_closed"), z3.And(L.mf(me, "is_void"), o["always_close_void"]))): r.append(" /")
            r.append(">")
        if d(L.some_c(con)): r.append(spec.enc(C) if d(z3.And(o["encode_content"], z3.Or(tword(nm, "title"), tword(nm, "textarea")))) else C)
        return r, z3.Or(pre, tword(nm, PRE))
    if kind == "TagEnd":
        p2 = z3.And(pre, z3.Not(tword(trim(C), PRE)) if False else z3.Not(endpre(C)))
        if not tag: return [], p2
        t = trim(C) if d(o["remove_endtag_space"]) else C
        return ["</", lower(t) if d(o["lowercase_tagname"]) else t, ">"], p2
    if kind == "HTMLDOCTYPE":
        A = L.mf(me, "attrs")
        return ["<!", L.mf(me, "name"), L.attrsp(A, L.qa.len(A), o["remove_attr_quote"]) if d(L.qa.len(A) != 0) else " ", ">"], pre
    if kind == "Comment":
        if d(z3.Or(o["remove_comment"], z3.And(z3.Not(root), inner == TEXT))): return [], pre
        c = [C] if d(L.some_c(con)) else []
        return (c if d(z3.And(root, inner == TEXT)) else ["<!--"] + c + ["-->"]), pre
    if kind == "XMLCDATA": return ["<![CDATA["] + ([C] if d(L.some_c(con)) else []) + ["]]>"], pre
    return [], pre
def endpre(C): return z3.And(trimlen(C) == 3, *[lc(AT(C, z3.IntVal(i))) == ord(x) for i, x in enumerate(PRE)])
PROPS = {"Text": {"C02", "C04", "C13", "C16", "C17"}, "SpacesBetweenTag": {"C02", "C04", "C13", "C17"}, "Tag": {"C02", "C04", "C14", "C15", "C16", "C17", "C13"}, "TagEnd": {"C04", "C14", "C17", "C13"}, "HTMLDOCTYPE": {"C04", "C15", "C17"}, "Comment": {"C04", "C14", "C17"}, "XMLCDATA": {"C04", "C17"}, "AbstractRoot": {"C04", "C17"}}
def unit_node(kind, split=()):
    def unit(J):
        rec = Rec("build_node " + kind + "".join(" %s=%s" % x for x in split))
        ex, L = setup(J); ex.contracts[P + "TagMeta::attrs_to_string"] = c_attrs(L); ex.contracts[WCE] = c_wce
        if kind not in L.K: raise Unsupported("NodeType::%s" % kind)
        st = mkst(ex); h = z3.Int("h"); inner, root, pre = z3.Int("inner"), z3.Bool("root"), z3.Bool("pre")
        st.pc += [z3.And(h >= 0, h < st.nbase), z3.And(inner >= 0, inner <= 2), z3.Select(st.heap["node_type"], h) == L.K[kind], wf(ex, L, st)(h)]
        for k, v in split: st.pc.append(L.o[k] if v else z3.Not(L.o[k]))
        R = z3.Const("R", SI); opts = optcell(ex, L, st)
        sc = Ptr(("C", ex.newcell(st, status(ex, L, inner, root, pre)))); rc = Ptr(("C", ex.newcell(st, SeqV(ex.ty.chart, [("s", R)]))))
        h0 = dict(st.heap); rec.functions.add("Node::build_node"); rec.covers.append((rec.unit, ex.feasible(st)))
        nx = {}
        def expect(d, s):
            p, np = node_parts(ex, L, s, h, kind, inner, root, pre, d); nx["p"] = np
            return [R] + p
        def extra(s, o):
            v = ex.load(s, sc)
            return [("is_in_pre", {"C13", "C02"}, zb(v.f[L.RS["is_in_pre"]]) == nx["p"]), ("root and inner kept", PROPS[kind], And(zb(v.f[L.RS["root"]]) == root, zi(ex.ty.disc(v.f[L.RS["inner_type"]])) == inner)), ("nodes unchanged", {"C18", "C02"}, And(*[z3.BoolVal(s.heap[n].eq(h0[n])) for n in h0]))]
        for k, o in enumerate(ex.call_fn(st, P + "Node::build_node", [Ptr(("H", h)), opts, sc, rc])):
            if o.kind == "ret":
                A = L.mf(z3.Select(o.st.heap["meta"], h), "attrs"); o.st.pc += attr_facts(L, A, z3.IntVal(0), L.o["remove_attr_quote"])
                C = L.con(z3.Select(o.st.heap["content"], h))
            check_out(rec, ex, L, o, "Node::build_node(%s)" % kind, PROPS[kind], expect, lambda s, o: ex.load(s, rc), k, extra)
        return rec, ex
    return unit
WCE = P + "write_content_encode"
def c_wce(ex, st, a, t):
    x = models.seqarg(ex, st, a[0]); p = models.base_ptr(ex, st, a[1]); v = ex.load(st, p)
    ex.store(st, p, SeqV(v.ety, v.segs + (("s", spec.enc(ex.term(st, x))),))); return [(st, ex.UNIT)]
def unit_wce(J):
    rec = Rec("write_content_encode"); ex, L = setup(J); st = St(); C, R = z3.Consts("C R", SI)
    rc = Ptr(("C", ex.newcell(st, SeqV(ex.ty.chart, [("s", R)]))))
    rec.functions.add("write_content_encode")
    for k, o in enumerate(ex.call_fn(st, WCE, [ref(SeqV(ex.ty.chart, [("s", C)])), rc])):
        check_out(rec, ex, L, o, "write_content_encode", {"C16", "C02"}, lambda d, s: [R, spec.enc(C)], lambda s, o: ex.load(s, rc), k)
    return rec, ex
UNITS = [("write_content_encode", unit_wce, {"C16", "C02"}), ("attributes", unit_attrs, {"C02", "C04", "C15"})] + [("build_node " + k, unit_node(k), PROPS[k] | {"C02"}) for k in PROPS if k != "Tag"]
UNITS = [("build_node Tag", unit_node("Tag", (("lowercase_tagname", a), ("encode_content", b)) + c), PROPS["Tag"] | {"C02"}) for a in (True, False) for b in (True, False) for c in (((("always_close_void", True),), (("always_close_void", False),)) if a else ((),))] + UNITS
if __name__ == "__main__":
    import sys, time; sys.setrecursionlimit(20000)
    J = json.load(open("/verif/build/mir.json"))
    for n, f, ps in UNITS:
        if sys.argv[1:] and not any(a in n for a in sys.argv[1:]): continue
        t = time.time(); rec, ex = f(J)
        print("==", n, "%.1fs" % (time.time() - t), len(rec.obls), "obligations", sum(o["status"] == "proved" for o in rec.obls), "proved", [n for n, ok in rec.covers if not ok])
        for o in rec.obls:
            if o["status"] != "proved": print("   ", o["status"], o["name"], (o["detail"] or "")[:400])
        print("  ", ex.summaries, flush=True)
