"""C24: the public building blocks (create_text_node, Node::new, the attribute setters, check_if_id, need_quoted_char, is_same)."""
import z3, json
from core import *
from vc import Rec
import spec, models
from spec import *
from pure_units import mk, ref, outcomes, seqc
from pstep import Lay, name_facts, isid, deq
P24 = {"C24"}
def unit_blocks(J):
    rec = Rec("building blocks"); ex = mk(J, dict(spec.HELPERS)); L = Lay(ex); T = ex.ty; K = L.K
    def st0():
        st = St(); st.nbase = z3.Int("next0"); st.pc.append(z3.And(st.nbase >= 1, st.nbase < ISIZE))
        for n, t in ex.node_fields: st.heap[n] = z3.Const("H_" + n, z3.ArraySort(I, T.sort(t)))
        return st
    F = lambda v, f: v.f[L.N[f]]
    def pk(s, v, f): return ex.pack(s, L.NT[f], F(v, f))
    nolinks = lambda s, v: [("no links (%s)" % f, pk(s, v, f) == (z3.IntVal(-1) if T.sort(L.NT[f]) == I else T.sort(L.NT[f]).constructor(0)())) for f in ("end_tag", "prev", "parent", "root", "childs", "meta") if f in L.N] + [("index", eq(F(v, "index"), 0))]
    # Node::new
    nt = L.ntt; k = z3.Int("kind"); at = z3.Int("at"); st = st0(); st.pc += [z3.And(k >= 0, k < len(T[nt]["v"])), z3.And(at >= 0, at < ISIZE)]
    outcomes(rec, ex, "Node::new", ex.call_fn(st, P + "Node::new", [SEnum(nt, k, {}), at]), P24, lambda s, v: [("kind", zi(T.disc(F(v, "node_type"))) == k), ("position", z3.And(eq(F(v, "begin_at"), at), eq(F(v, "end_at"), at))), ("no content", pk(s, v, "content") == T.sort(L.NT["content"]).constructor(0)())] + nolinks(s, v))
    # create_text_node
    a = seqc(ex, "content"); t = a.segs[0][1]; b = next(b for b in ex.bodies.values() if b["name"] == P + "Node::create_text_node"); ot = b["locals"][2]
    for given in (True, False):
        st = st0(); st.pc.append(z3.And(at >= 0, at < ISIZE)); w = at if given else z3.IntVal(0)
        outs = ex.call_fn(st, P + "Node::create_text_node", [a, Agg(ot, 1, (at,)) if given else Agg(ot, 0, ())])
        outcomes(rec, ex, "Node::create_text_node(%s)" % ("position" if given else "no position"), outs, P24, lambda s, v: [
            ("white space is whitespace between tags, anything else is text", zi(T.disc(F(v, "node_type"))) == z3.If(allws(t), z3.IntVal(K["SpacesBetweenTag"]), z3.IntVal(K["Text"]))),
            ("the content is kept", z3.And(L.some_c(pk(s, v, "content")), deq(L.con(pk(s, v, "content")), t))),
            ("position", z3.And(zi(F(v, "begin_at")) == w, zi(F(v, "end_at")) == w))] + nolinks(s, v))
    # characters that need quotes
    x = z3.Int("ch"); st = st0(); st.pc.append(z3.And(x >= 0, x <= 0x10FFFF, z3.Or(x < 0xD800, x > 0xDFFF)))
    must = z3.Or(zb(ws(x)), *[x == ord(c) for c in "\"'<>=`"])
    outcomes(rec, ex, "Attr::need_quoted_char", ex.call_fn(st, P + "Attr::need_quoted_char", [ref(x)]), P24, lambda s, v: [("result equals the definition", zb(v) == must)])
    # attributes
    A = z3.Const("attr", L.attr); st = st0(); key, val = L.akey(A), L.aval(A)
    fs = []; T.facts(L.attrt, A, None, fs) if hasattr(T, "facts") else None
    st.pc += fs + name_facts(key)
    rt = next(b for b in ex.bodies.values() if b["name"] == P + "Attr::check_if_id")["locals"][0]
    isid_ = z3.And(L.ahas(A), isid(key), L.ahas(A, "value"))
    def idpost(s, v):
        p = ex.pack(s, rt, v); so = p.sort()
        return [("the value of an id, and nothing else", z3.And(so.recognizer(1)(p) == isid_, z3.Implies(isid_, deq(so.accessor(1, 0)(p), val))))]
    outcomes(rec, ex, "Attr::check_if_id", ex.call_fn(st, P + "Attr::check_if_id", [ref(T.unpack(L.attrt, A, st))]), P24, idpost)
    # the setters
    none = L.odat.constructor(0)(); some = lambda t: L.odat.constructor(1)(L.dat.constructor(0)(t)); oqt = L.AT["quote"]; oq = T.sort(oqt)
    def mkattr(**kw):
        d = dict(key=none, value=none, quote=oq.constructor(0)(), need_quote=z3.BoolVal(False)); d.update(kw)
        return L.attr.constructor(0)(*[d[f] for f, i in sorted(L.A.items(), key=lambda x: x[1])])
    def metaval(st, attrs):
        return Agg(L.metat, 0, [attrs if f == "attrs" else T.unpack(L.MT[f], z3.Const("m_" + f, T.sort(L.MT[f])), st) for f, i in sorted(L.M.items(), key=lambda x: x[1])])
    bef = z3.Const("attrs_before", L.qa.S); last = z3.Const("last", L.attr); new = seqc(ex, "new"); nt_ = new.segs[0][1]; Q = z3.Const("quote", oq); uq = T.unpack(oqt, Q)
    def run(fn, args, with_last, want):
        st = st0(); n0 = L.qa.len(bef); st.pc.append(n0 < ISIZE - 2)
        at_ = SeqV(L.attrt, [("s", bef)] + ([("e", T.unpack(L.attrt, last, st))] if with_last else []))
        m0 = metaval(st, at_); cell = ex.newcell(st, m0); bt = ex.pack(st, L.MT["attrs"], SeqV(L.attrt, [("s", bef), ("e", T.unpack(L.attrt, want, st))]))
        def post(s, v):
            m = s.cells[cell]; ta = ex.pack(s, L.MT["attrs"], m.f[L.M["attrs"]]); out = [("the attributes", deq(ta, bt))]
            for f, i in L.M.items():
                if f != "attrs": out.append(("%s is not touched" % f, deq(ex.pack(s, L.MT[f], m.f[i]), z3.Const("m_" + f, T.sort(L.MT[f])))))
            return out
        outcomes(rec, ex, "TagMeta::" + fn, ex.call_fn(st, P + "TagMeta::" + fn, [Ptr(("C", cell))] + args), P24, post)
    from pstep import attr_with
    run("add_attr_key", [], False, mkattr(key=some(QI.empty)))
    run("add_attr_value", [uq], False, mkattr(value=some(QI.empty), quote=Q))
    run("set_attr_key", [new], True, attr_with(L, last, key=some(nt_)))
    run("set_attr_value", [new, uq], True, attr_with(L, last, value=some(nt_), quote=Q))
    # identity
    h, g = z3.Int("h"), z3.Int("g"); st = st0(); st.pc += [z3.And(0 <= h, h < st.nbase), z3.And(0 <= g, g < st.nbase)]
    outcomes(rec, ex, "Node::is_same", ex.call_fn(st, P + "Node::is_same", [ref(RcV("node", h)), ref(RcV("node", g))]), P24, lambda s, v: [("true exactly for the same node", zb(v) == (h == g))])
    return rec, ex
UNITS = [("building blocks", unit_blocks, P24)]
