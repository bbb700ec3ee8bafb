"""Lemmas over the specification machine (pstep.cases, pstep.eof_cases).

The step units prove that Doc::next takes exactly the steps of that machine and that Doc::eof ends as it says.  The lemmas here compare
runs of the machine: two related states stay related under every character and end alike (congruence), and the particular runs the
properties speak of (an ignored end tag, a bare '<', missing end tags) lead to related states.  A state stands for every
state that satisfies the invariant of its mode; a step for every state it may lead to."""
import z3
from core import *
from vc import Rec
import pstep, spec, models, ex as exm
from pstep import Lay, View, Eff, inv, assume, cases, eof_cases, setup as psetup, isvoid, KW
from spec import SI, QI, ws, lc, lower, AT, allws

MODES = [("wait",), ("text",), ("lt",), ("bang", None, 0)] + [("bang", kw, k) for kw in ("--", "DOCTYPE", "[CDATA[") for k in range(1, len(kw))] + [("name",), ("dname",), ("comment",), ("cdata",), ("raw",), ("tagend",)] + [("in", d) + s for d in (False, True) for s in (("gap",), ("key",), ("aft",), ("wv",), ("val",), ("slash", False), ("slash", True))]
CURFREE = ("wait", "lt", "bang")           # modes in which only a current text matters
PENDING = ("text", "comment", "cdata", "tagend")   # modes in which the content of the current node is not settled
METAF = ("name", "is_void")
def same_attr(L, a, b, weak):
    """weak: the same key and value, in whatever quotes"""
    return z3.And(L.af(a, "key") == L.af(b, "key"), L.af(a, "value") == L.af(b, "value")) if weak else a == b

def mstate(ex, L, mode, sfx, heap=None, ccls=True):
    """an arbitrary state of the mode"""
    st = St(); T = ex.ty; m0 = mode[0]; z = lambda n, so=I: z3.Const(n + sfx, so)
    st.nbase = z("next"); st.pc.append(z3.And(st.nbase >= 1, st.nbase < ISIZE))
    for n, t in ex.node_fields: st.heap[n] = z("H_" + n, z3.ArraySort(I, T.sort(t)))
    st.ghost["anch"] = z("anch", z3.ArraySort(I, B)); st.ghost["idw"] = z("idw", z3.ArraySort(SI, I))
    C = z("chain", L.qn.S); st.pc.append(L.qn.len(C) >= 1)
    def chs(k): return SeqV(T.chart, [("e", z("p%d" % i)) for i in range(k)])
    if m0 == "bang": pend = chs(mode[2])
    elif m0 == "dname": pend = chs(7)
    elif m0 in ("wait", "lt") or (m0 == "in" and mode[2] in ("gap", "aft", "slash", "wv")): pend = SeqV(T.chart)
    else: pend = SeqV(T.chart, [("s", z("pending", SI))])
    return view(ex, L, st, mode, sfx, C, z("cur"), pend, opts=None)
def view(ex, L, st, mode, sfx, C, cur, pend, opts=None, special=None, chain=None):
    T = ex.ty; z = lambda n, so=I: z3.Const(n + sfx, so); d = {}
    d["position"] = z("position"); d["mem_position"] = z("mem"); d["mark_char"] = z("mark"); st.pc.append(z3.And(d["mark_char"] >= 0, d["mark_char"] <= 0x10FFFF))
    d["code_in"] = Opq("code_in"); d["handle"] = Opq("handle")
    if mode[0] == "raw": d["detect"] = Agg(L.DT["detect"], 1, (SeqV(T.chart, [("e", 60), ("e", 47), ("s", L.mf(exm.simpsel(st.heap["meta"], cur), "name"))]),))
    else: d["detect"] = Agg(L.DT["detect"], 0, ())
    d["prev_chars"] = pend; d["chain_nodes"] = chain if chain is not None else SeqV(T.elem(L.DT["chain_nodes"]), [("s", C)])
    d["current_node"] = RcV("node", cur); d["root"] = RcV("node", 0); d["repeat_whitespace"] = z("blank", B)
    if special is None:
        tt = T[L.DT["in_special"]]["a"][0]; so = z("special_some"); st.pc.append(z3.And(so >= 0, so <= 1))
        special = SEnum(L.DT["in_special"], so, {1: (Agg(tt, 0, (SEnum(T[tt]["f"][0], z("special_kind"), {}), SeqV(T.chart, [("s", z("special_name", SI))]), z("special_depth"))),)})
    d["in_special"] = special
    ck = z("check"); d["check_textnode"] = T.unpack(L.DT["check_textnode"], ck, st)
    d["parse_options"] = opts or Agg(L.optt, 0, [z3.Bool("o_" + f[0]) for f in T[L.optt]["v"][0]["f"]])
    d["id_tags"] = RcV("cell", ex.newcell(st, MapV(T[L.idmap]["a"][0], T[L.idmap]["a"][1], z("ids", T.sort(L.idmap)))))
    cell = ex.newcell(st, Agg(L.doct, 0, [d.get(f, Opq(f)) for f, t in T[L.doct]["v"][0]["f"]]))
    return View(ex, L, st, cell)
def with_inv(V, mode, skip=()):
    """assume the invariant of the mode"""
    cl = [c for c in inv(V, mode) if c[0] not in skip and not (c[1] <= {"C18", "C11", "C23", "C12"}) and "name map" not in c[0] and "id map" not in c[0]]
    assume(V.st, cl); return V
_n = [0]
def apply(V, e, c=None, withinv=True, inv_of=None):
    """an arbitrary state the step e leads to"""
    ex, L, T = V.ex, V.L, V.ex.ty; _n[0] += 1; sfx = "'%d" % _n[0]
    st = St(); st.pc = list(V.st.pc) + [e.g]; st.facts = set(V.st.facts); st.cells = dict(V.st.cells)
    st.nbase = simp(V.next() + (1 if e.new is not None else 0)); st.nbase = zi(st.nbase)
    st.heap = dict(e.H); st.ghost = {"anch": z3.Const("anch" + sfx, z3.ArraySort(I, B)), "idw": z3.Const("idw" + sfx, z3.ArraySort(SI, I)), "clauses": []}
    for i, (f, h) in enumerate(sorted(e.free, key=lambda x: (x[0], str(x[1])))): st.heap[f] = z3.Store(st.heap[f], h, fresh(st.heap[f].range(), "any_" + f))
    for f, a in list(st.heap.items()):
        if not z3.is_const(a): st.heap[f] = z3.Const("H_" + f + sfx, a.sort()); st.pc.append(st.heap[f] == a)
    C, n = V.C(), V.n(); rct = T.elem(L.DT["chain_nodes"])
    if e.chain == "keep": chain = V.chain()
    elif e.chain == "push": chain = SeqV(rct, V.chain().segs + (("e", RcV("node", V.next())),))
    else: chain = SeqV(rct, [("s", ssub(C, z3.IntVal(0), n - 1))])
    nontext = isinstance(e.cur, str); cur = fresh(I, "cur") if nontext else (e.cur if e.cur is not None else V.cur())
    pend = e.pend if e.pend is not None else V.pend()
    V2 = view(ex, L, st, e.mode, sfx, None, cur, pend, opts=V.d("parse_options"), chain=chain)
    if nontext: st.pc.append(z3.Select(st.heap["node_type"], cur) != L.K["Text"])
    st.pc.append(zi(V2.d("position")) == zi(V.d("position")) + 1)
    s0, nm0, d0 = V.special(); s1, nm1, d1 = V2.special(); s0, s1 = zb(s0), zb(s1)
    keep = z3.And(s1 == s0, z3.Implies(s1, z3.And(nm1 == nm0, d1 == d0)))
    if e.special == "keep": g = keep
    elif e.special[0] == "clear": g = z3.If(e.special[1], z3.Not(s1), keep)
    else: g = z3.If(e.special[1], z3.And(s1, nm1 == e.special[2], d1 == e.special[3]), keep)
    st.pc.append(g)
    for nm, pr, f in e.extra: st.pc.append(zb(f(V2)))
    ex.term(st, V2.pend()); V2.C()
    if withinv: with_inv(V2, e.mode)
    return V2

class Ren:
    """a one-to-one map of nodes"""
    def __init__(s, f, inv_): s.f, s.inv = f, inv_
    def __call__(s, h): return s.f(h)
def sym_ren(sfx=""):
    f = z3.Function("ren" + sfx, I, I); g = z3.Function("unren" + sfx, I, I); return Ren(f, g)
ID = Ren(lambda h: h, lambda h: h)
def extend(r, a, b): return Ren(lambda h: z3.If(h == a, b, r(h)), lambda h: z3.If(h == b, a, r.inv(h)))

def rel(V1, V2, mode, r, weak=False):
    """the relation of two states of one mode: [(name, vars, body, patterns)]"""
    L, K, ex = V1.L, V1.L.K, V1.ex; m0 = mode[0]; out = []
    nx1, nx2, n1, n2, C1, C2, c1, c2 = V1.next(), V2.next(), V1.n(), V2.n(), V1.C(), V2.C(), V1.cur(), V2.cur()
    def cl(name, body, vars=(), pats=None): out.append((name, vars, body, pats))
    old = lambda h: z3.And(0 <= h, h < nx1); S1 = lambda f, h: z3.Select(V1.h(f), h); S2 = lambda f, h: z3.Select(V2.h(f), r(h)); attrs = lambda i, h: L.mf((S1, S2)[i - 1]("meta", h), "attrs")
    cl("nodes correspond", lambda h: z3.Implies(old(h), z3.And(0 <= r(h), r(h) < nx2, r.inv(r(h)) == h)), [I], lambda h: [r(h), z3.Select(V1.h("node_type"), h)])
    cl("the roots correspond", lambda: z3.And(r(z3.IntVal(0)) == 0, r(z3.IntVal(-1)) == -1, nx1 >= 1, nx2 >= 1))
    cl("as many open elements", lambda: n1 == n2)
    cl("the open elements correspond", lambda i: z3.Implies(z3.And(0 <= i, i < n1), sat(C2, i) == r(sat(C1, i))), [I], lambda i: [sat(C1, i), sat(C2, i)])
    cl("kinds", lambda h: z3.Implies(old(h), S1("node_type", h) == S2("node_type", h)), [I], lambda h: [S1("node_type", h)])
    cl("children", lambda h: z3.Implies(old(h), z3.And(L.nch(S1("childs", h)) == L.nch(S2("childs", h)), L.ovec.recognizer(1)(S1("childs", h)) == L.ovec.recognizer(1)(S2("childs", h)))), [I], lambda h: [S1("childs", h)])
    cl("each child", lambda h, j: z3.Implies(z3.And(old(h), 0 <= j, j < L.nch(S1("childs", h))), L.child(S2("childs", h), j) == r(L.child(S1("childs", h), j))), [I, I], lambda h, j: [L.child(S1("childs", h), j)])
    cl("end tags", lambda h: z3.Implies(old(h), S2("end_tag", h) == r(S1("end_tag", h))), [I], lambda h: [S1("end_tag", h)])
    cl("tag data", lambda h: z3.Implies(old(h), z3.And(L.some_m(S1("meta", h)) == L.some_m(S2("meta", h)), z3.Implies(L.some_m(S1("meta", h)), z3.And(*[L.mf(S1("meta", h), f) == L.mf(S2("meta", h), f) for f in METAF], L.qa.len(attrs(1, h)) == L.qa.len(attrs(2, h)), z3.Or(S1("node_type", h) == K["HTMLDOCTYPE"], L.mf(S1("meta", h), "self_closed") == L.mf(S2("meta", h), "self_closed")))))), [I], lambda h: [S1("meta", h)])
    cl("each attribute", lambda h, j: z3.Implies(z3.And(old(h), L.some_m(S1("meta", h)), 0 <= j, j < L.qa.len(attrs(1, h))), same_attr(L, L.qa.at(attrs(1, h), j), L.qa.at(attrs(2, h), j), weak)), [I, I], lambda h, j: [L.qa.at(attrs(1, h), j)])
    pend = (lambda h: h == c1) if m0 in PENDING else (lambda h: z3.BoolVal(False))
    cl("contents", lambda h: z3.Implies(z3.And(old(h), z3.Not(pend(h)), S1("node_type", h) != K["TagEnd"]), S1("content", h) == S2("content", h)), [I], lambda h: [S1("content", h)])
    cl("contents of end tags", lambda h: z3.Implies(z3.And(old(h), S1("end_tag", h) != -1), z3.Select(V1.h("content"), S1("end_tag", h)) == z3.Select(V2.h("content"), S2("end_tag", h))), [I], lambda h: [S1("end_tag", h)])
    isT = lambda V, h: z3.Select(V.h("node_type"), h) == K["Text"]
    same = lambda a, b: z3.Or(b == r(a), z3.And(z3.Not(isT(V1, a)), z3.Not(isT(V2, b))))
    rng = lambda a, b: z3.And(0 <= a, a < nx1, 0 <= b, b < nx2)
    cl("the current nodes correspond", lambda: z3.And(same(c1, c2) if m0 in CURFREE else c2 == r(c1)))
    if m0 == "tagend": cl("the nodes before the end tags correspond", lambda: z3.Implies(zb(V1.opt("auto_fix_unexpected_endtag")), same(z3.Select(V1.h("prev"), c1), z3.Select(V2.h("prev"), c2))))
    cl("the same pending characters", lambda: ex.term(V1.st, V1.pend()) == ex.term(V2.st, V2.pend()))
    s0, nm0, d0 = V1.special(); s1, nm1, d1 = V2.special()
    cl("the same svg or math scope", lambda: z3.And(zb(s0) == zb(s1), z3.Implies(zb(s0), z3.And(nm0 == nm1, d0 == d1))))
    if m0 == "in" and mode[2] == "val": cl("the same quote", lambda: zi(V1.d("mark_char")) == zi(V2.d("mark_char")))
    return out
def rassume(pc, cls):
    for name, vars, body, pats in cls:
        if not vars: pc.append(zb(body())); continue
        vs = [z3.Const("r%d" % i, so) for i, so in enumerate(vars)]; b = zb(body(*vs))
        if z3.is_true(z3.simplify(b)): continue
        ps = [p for p in pats(*vs) if not (z3.is_const(p))]
        pc.append(z3.ForAll(vs, b, patterns=ps, qid="rel"))
def rgoals(cls):
    for name, vars, body, pats in cls: yield name, zb(body(*[fresh(so, "sk") for so in vars]))
class Pc:
    def __init__(s, pc): s.pc = pc; s.ghost = {}
def lemma(rec, ex, pc, goal, name, props, timeout=8000): return rec.prove(ex, Pc(pc), goal, "lemma: " + name, props, timeout=timeout, seeds=(1, 2, 3, 4))
def uniq(*ls):
    seen = set(); out = []
    for l in ls:
        for x in l:
            if x.get_id() not in seen: seen.add(x.get_id()); out.append(x)
    return out
def mname(mode): return "/".join(str(x) for x in mode)

def unit_congruence(mode, props, weak=False):
    """related states take the same step and stay related"""
    def run(J):
        ex, L = psetup(J); KNOWN.clear(); rec = Rec("congruence of the machine in %s" % mname(mode)); r = sym_ren()
        V1, V2 = with_inv(mstate(ex, L, mode, "_1"), mode), with_inv(mstate(ex, L, mode, "_2"), mode); c = z3.Int("c")
        base = [z3.And(c >= 0, c <= 0x10FFFF)]; R = rel(V1, V2, mode, r, weak)
        rassume(base, R)
        cs1, cs2 = cases(V1, mode, c), cases(V2, mode, c)
        rec.covers.append(("the same cases", len(cs1) == len(cs2)))
        rec.covers.append(("related states of %s exist" % mname(mode), feasible(ex, uniq(V1.st.pc, V2.st.pc, base))))
        for k, (a, b) in enumerate(zip(cs1, cs2)):
            pc = uniq(V1.st.pc, V2.st.pc, base)
            lemma(rec, ex, pc, a.g == b.g, "%s: both or none (%d)" % (a.name, k), props)
            assert (a.err is None) == (b.err is None) and a.mode == b.mode
            if a.err is not None: continue
            A, B_ = apply(V1, a, c, False), apply(V2, b, c, False)
            r2 = extend(r, V1.next(), V2.next()) if a.new is not None else r
            pc = uniq(A.st.pc, B_.st.pc, base); gs = list(rgoals(rel(A, B_, a.mode, r2, weak)))
            pc = uniq(pc, A.st.pc, B_.st.pc)
            for nm, g in gs: lemma(rec, ex, pc, g, "%s: %s (%d)" % (a.name, nm, k), props)
        return rec, ex
    return run
def feasible(ex, pc):
    so = mksolver(2000)
    for x in pc:
        if not z3.is_quantifier(x): so.add(x)
    return so.check() != z3.unsat

# ---------------------------------------------------------------- the end of the input
class Fin:
    """the finished document of an accepted end: the nodes of the state, the data of the tree and the text of each end tag"""
    def __init__(s, V, e, sfx):
        L = V.L; s.V, s.L, s.e, s.nx, s.H = V, L, e, V.next(), e.H; pidx = s.pidx = z3.Function("level_of" + sfx, I, I); C, n = V.C(), V.n()
        i = z3.Int("qi"); s.pc = [z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), pidx(sat(C, i)) == i), patterns=[sat(C, i)]), pidx(V.top()) == n - 1]
        s.opn = lambda h: z3.And(1 <= pidx(h), pidx(h) < n, sat(C, pidx(h)) == h)
        s.fixed = lambda h: z3.And(s.opn(h), z3.Not(isvoid(L.mf(z3.Select(s.H["meta"], h), "name"))))
        et = lambda h: z3.Select(V.h("end_tag"), h)
        s.hasend = lambda h: z3.Or(s.fixed(h), et(h) != -1)
        s.endtext = lambda h: z3.If(s.fixed(h), L.mf(z3.Select(s.H["meta"], h), "name"), L.con(z3.Select(V.h("content"), et(h))))
def frel(A, B_, r, weak=False):
    """two finished documents with the same data"""
    L = A.L; out = []; K = L.K
    def cl(name, body, vars=(), pats=None): out.append((name, vars, body, pats))
    old = lambda h: z3.And(0 <= h, h < A.nx); S1 = lambda f, h: z3.Select(A.H[f], h); S2 = lambda f, h: z3.Select(B_.H[f], r(h)); attrs = lambda i, h: L.mf((S1, S2)[i - 1]("meta", h), "attrs")
    cl("the roots correspond", lambda: r(z3.IntVal(0)) == 0)
    cl("nodes correspond", lambda h: z3.Implies(old(h), z3.And(0 <= r(h), r(h) < B_.nx, r.inv(r(h)) == h)), [I], lambda h: [r(h)])
    live = lambda h: S1("node_type", h) != K["TagEnd"]
    cl("kinds", lambda h: z3.Implies(old(h), S1("node_type", h) == S2("node_type", h)), [I], lambda h: [S1("node_type", h)])
    cl("contents", lambda h: z3.Implies(z3.And(old(h), live(h)), S1("content", h) == S2("content", h)), [I], lambda h: [S1("content", h)])
    cl("children", lambda h: z3.Implies(old(h), z3.And(L.nch(S1("childs", h)) == L.nch(S2("childs", h)), L.ovec.recognizer(1)(S1("childs", h)) == L.ovec.recognizer(1)(S2("childs", h)))), [I], lambda h: [S1("childs", h)])
    cl("each child", lambda h, j: z3.Implies(z3.And(old(h), 0 <= j, j < L.nch(S1("childs", h))), L.child(S2("childs", h), j) == r(L.child(S1("childs", h), j))), [I, I], lambda h, j: [L.child(S1("childs", h), j)])
    cl("tag data", lambda h: z3.Implies(old(h), z3.And(L.some_m(S1("meta", h)) == L.some_m(S2("meta", h)), z3.Implies(L.some_m(S1("meta", h)), z3.And(*[L.mf(S1("meta", h), f) == L.mf(S2("meta", h), f) for f in METAF], L.qa.len(attrs(1, h)) == L.qa.len(attrs(2, h)), z3.Or(S1("node_type", h) == K["HTMLDOCTYPE"], L.mf(S1("meta", h), "self_closed") == L.mf(S2("meta", h), "self_closed")))))), [I], lambda h: [S1("meta", h)])
    cl("each attribute", lambda h, j: z3.Implies(z3.And(old(h), L.some_m(S1("meta", h)), 0 <= j, j < L.qa.len(attrs(1, h))), same_attr(L, L.qa.at(attrs(1, h), j), L.qa.at(attrs(2, h), j), weak)), [I, I], lambda h, j: [L.qa.at(attrs(1, h), j)])
    cl("end tags", lambda h: z3.Implies(z3.And(old(h), live(h)), z3.And(A.hasend(h) == B_.hasend(r(h)), z3.Implies(A.hasend(h), A.endtext(h) == B_.endtext(r(h))))), [I], lambda h: [S1("end_tag", h)])
    return out
def unit_eof(mode, props, weak=False):
    """related states end alike"""
    def run(J):
        ex, L = psetup(J); KNOWN.clear(); rec = Rec("congruence of the end of the input in %s" % mname(mode)); r = sym_ren()
        V1, V2 = with_inv(mstate(ex, L, mode, "_1"), mode), with_inv(mstate(ex, L, mode, "_2"), mode)
        base = []; rassume(base, rel(V1, V2, mode, r, weak)); eof_pair(rec, ex, V1, V2, mode, mode, r, base, props, "", weak)
        return rec, ex
    return run
def eof_pair(rec, ex, V1, V2, m1, m2, r, base, props, lab, weak=False):
    c1, c2 = eof_cases(V1, m1), eof_cases(V2, m2)
    for a, b in zip(c1, c2):
        pc = uniq(V1.st.pc, V2.st.pc, base)
        lemma(rec, ex, pc, a.g == b.g, "%s%s: both or none" % (lab, a.name), props)
        if (a.err is None) != (b.err is None): rec.fail("lemma: %s%s: one is accepted" % (lab, a.name), props, ""); continue
        if a.err is not None: continue
        A, B_ = Fin(V1, a, "_1"), Fin(V2, b, "_2")
        pc = uniq(pc, [a.g, b.g], A.pc, B_.pc)
        for nm, g in rgoals(frel(A, B_, r, weak)): lemma(rec, ex, pc, g, "%s%s: %s" % (lab, a.name, nm), props)

# ---------------------------------------------------------------- particular runs
def refuted(ex, pc, ms=1500):
    so = mksolver(ms); so.add(*pc); so.add(*ex.axioms); return so.check() == z3.unsat
def walk(V, mode, chars, extra=()):
    """every state a sequence of characters may lead to: [(state, mode, names of the steps)]"""
    ex = V.ex; cur = [(V, mode, ())]
    for c in chars:
        nxt = []
        for W, m, tr in cur:
            for e in cases(W, m, zi(c)):
                pc = uniq(W.st.pc, list(extra), [e.g])
                if z3.is_false(z3.simplify(e.g)) or refuted(ex, pc): continue
                if e.err is not None: nxt.append((None, "rejected: " + e.name, tr + (e.name,))); continue
                nxt.append((apply(W, e), e.mode, tr + (e.name,)))
        if any(w is None for w, _, _ in nxt): return nxt
        cur = nxt
    return cur
def need(rec, cond, name, props):
    rec.add("lemma: " + name, props, "proved") if cond else rec.fail("lemma: " + name, props, "the machine does not do this")
def prove_rel(rec, ex, pc, cls, name, props):
    for nm, g in list(rgoals(cls)): lemma(rec, ex, pc, g, "%s: %s" % (name, nm), props)
def other(c): return z3.Not(z3.Or(z3.And(c >= 65, c <= 90), z3.And(c >= 97, c <= 122), c == 47, c == 33))
def unit_bare_lt(J):
    """a bare '<' has the effect of '&lt;' """
    ex, L = psetup(J); KNOWN.clear(); rec = Rec("a bare '<' against '&lt;'"); P8 = {"C08"}; c = z3.Int("c")
    for m in (("wait",), ("text",)):
        V = with_inv(mstate(ex, L, m, "_"), m); hyp = [zb(V.opt("auto_fix_unescaped_lt")), other(c), c >= 0, c <= 0x10FFFF]; V.st.pc += hyp
        As, Bs = walk(V, m, [60, c]), walk(V, m, [38, 108, 116, 59, c])
        rec.covers.append(("runs from %s" % m[0], bool(As) and bool(Bs) and not refuted(ex, V.st.pc)))
        for i, (A, ma, ta) in enumerate(As):
            for j, (B_, mb, tb) in enumerate(Bs):
                lab = "from %s [%d %d]" % (m[0], i, j)
                if A is None or B_ is None: need(rec, False, "%s: both are accepted" % lab, P8); continue
                pc = uniq(A.st.pc, B_.st.pc, hyp)
                if refuted(ex, pc): continue
                need(rec, ma == mb, "%s: the same mode" % lab, P8)
                if ma == mb: prove_rel(rec, ex, pc, rel(A, B_, ma, ID), lab, P8)
        # the option is needed, and a '<' at the end is an error
        U = with_inv(mstate(ex, L, m, "_u"), m); U.st.pc += [z3.Not(zb(U.opt("auto_fix_unescaped_lt")))] + hyp[1:]
        r = walk(U, m, [60, c]); need(rec, r and all(x[0] is None for x in r), "from %s: rejected without the option" % m[0], P8)
    V = with_inv(mstate(ex, L, ("lt",), "_l"), ("lt",)); need(rec, all(e.err is not None for e in eof_cases(V, ("lt",))), "a '<' that ends the input is an error", P8)
    return rec, ex

def trel(V, W, m):
    """W is V (in wait or text) in the middle of an end tag that began there"""
    out = [c for c in rel(V, W, m, ID) if c[0] not in ("the current nodes correspond", "the same pending characters")]
    L = V.L
    out.append(("the end tag is a new node", (), lambda: z3.And(W.cur() == V.next(), W.next() == V.next() + 1, W.at("node_type", W.cur()) == L.K["TagEnd"]), None))
    out.append(("the node before is known", (), lambda: z3.Implies(zb(V.opt("auto_fix_unexpected_endtag")), z3.Select(W.h("prev"), W.cur()) == V.cur()), None))
    if m[0] == "text": out.append(("the text is kept", (), lambda: z3.Select(W.h("content"), V.cur()) == L.oc(V.ex.term(V.st, V.pend())), None))
    return out
def qrel(V1, V2, r):
    """a text being read, and the same text left open in wait"""
    L = V1.L; out = [c for c in rel(V1, V2, ("text",), r) if c[0] not in ("the current nodes correspond", "the same pending characters")]
    out.append(("the current texts correspond", (), lambda: V2.cur() == r(V1.cur()), None))
    out.append(("the text is kept", (), lambda: z3.Select(V2.h("content"), V2.cur()) == L.oc(V1.ex.term(V1.st, V1.pend())), None))
    return out
def unit_stray(J):
    """an ignored end tag leads back to the state before it"""
    ex, L = psetup(J); KNOWN.clear(); rec = Rec("an ignored end tag"); P7 = {"C07"}; P67 = {"C06", "C07"}; c = z3.Int("c")
    for m in (("wait",), ("text",)):
        V = with_inv(mstate(ex, L, m, "_v"), m)
        As = walk(V, m, [60, 47])
        need(rec, len(As) == 1 and As[0][0] is not None and As[0][1] == ("tagend",), "from %s: '</' is the beginning of an end tag" % m[0], P67)
        for A, ma, ta in As: prove_rel(rec, ex, A.st.pc, trel(V, A, m), "from %s: '</'" % m[0], P67)
        # its characters
        W = with_inv(mstate(ex, L, ("tagend",), "_w"), ("tagend",)); base = []; rassume(base, trel(V, W, m))
        pc0 = uniq(V.st.pc, W.st.pc, base); rec.covers.append(("an end tag after %s" % m[0], not refuted(ex, pc0)))
        for e in cases(W, ("tagend",), c):
            if e.name != "a character of an end tag": continue
            A = apply(W, e); prove_rel(rec, ex, uniq(V.st.pc, A.st.pc, base), trel(V, A, m), "from %s: a character of the end tag" % m[0], P67)
        # its end
        fe = zb(V.opt("auto_fix_unexpected_endtag"))
        es = [e for e in cases(W, ("tagend",), c) if e.name == "an unexpected end tag is ignored"]; need(rec, len(es) == 1 and es[0].mode == ("wait",), "an unexpected end tag is ignored", P7)
        for e in es:
            A = apply(W, e); pc = uniq(V.st.pc, A.st.pc, base)
            rec.covers.append(("an ignored end tag after %s" % m[0], not refuted(ex, pc)))
            prove_rel(rec, ex, pc, rel(V, A, m, ID) if m[0] == "wait" else qrel(V, A, ID), "from %s: after the ignored end tag" % m[0], P7)
    # a text being read against the same text left open
    r = sym_ren(); V1, V2 = with_inv(mstate(ex, L, ("text",), "_1"), ("text",)), with_inv(mstate(ex, L, ("wait",), "_2"), ("wait",)); base = [zb(V1.opt("auto_fix_unexpected_endtag")), c >= 0, c <= 0x10FFFF]
    rassume(base, qrel(V1, V2, r)); rec.covers.append(("a text left open", not refuted(ex, uniq(V1.st.pc, V2.st.pc, base))))
    n = 0
    for a in cases(V1, ("text",), c):
        for b in cases(V2, ("wait",), c):
            pc = uniq(V1.st.pc, V2.st.pc, base, [a.g, b.g])
            if refuted(ex, pc): continue
            n += 1; lab = "a text left open: %s / %s" % (a.name, b.name)
            need(rec, a.mode == b.mode and a.err is None and b.err is None, "%s: the same mode" % lab, P7)
            A, B_ = apply(V1, a), apply(V2, b); prove_rel(rec, ex, uniq(A.st.pc, B_.st.pc, base), rel(A, B_, a.mode, r), lab, P7)
    need(rec, n == 2, "a text left open: two cases", P7)
    eof_pair(rec, ex, V1, V2, ("text",), ("wait",), r, base, P7, "a text left open: ")
    return rec, ex

def unit_missing(J):
    """the end of the input with open elements against their end tags written out"""
    ex, L = psetup(J); KNOWN.clear(); rec = Rec("missing end tags against written ones"); P6 = {"C06"}; c, k = z3.Int("c"), z3.Int("k")
    for m in (("wait",), ("text",)):
        V = with_inv(mstate(ex, L, m, "_v"), m); V.st.pc += [V.n() > 1, zb(V.opt("auto_fix_unclosed_tag"))]
        nm = L.mf(z3.Select(V.h("meta"), V.top()), "name"); W = with_inv(mstate(ex, L, ("tagend",), "_w"), ("tagend",)); P_ = ex.term(W.st, W.pend()); base = []; rassume(base, trel(V, W, m)); j = z3.Int("j")
        pre = lambda p, n_: [QI.len(p) == n_, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n_), AT(p, j) == AT(nm, j)), patterns=[AT(p, j)])]
        # '</' (see the ignored end tag) leaves no characters pending
        for A, ma, ta in walk(V, m, [60, 47]):
            if A is None: need(rec, False, "'</' is accepted", P6); continue
            lemma(rec, ex, A.st.pc, zi(simp(ex.seq_len(A.st, A.pend()))) == 0, "from %s: nothing of the name is read yet" % m[0], P6)
        pc0 = uniq(V.st.pc, W.st.pc, base) + [0 <= k, k < QI.len(nm), c == AT(nm, k)] + pre(P_, k)
        rec.covers.append(("a name in an end tag after %s" % m[0], not refuted(ex, pc0)))
        cs = cases(W, ("tagend",), c)
        for e in cs:
            if e.name != "a character of an end tag": lemma(rec, ex, pc0, z3.Not(e.g), "from %s: a character of the name is not '%s'" % (m[0], e.name), P6); continue
            A = apply(W, e); PA = ex.term(A.st, A.pend()); sk = fresh(I, "sk"); pc = uniq(V.st.pc, A.st.pc, pc0)
            lemma(rec, ex, pc, z3.And(QI.len(PA) == k + 1, z3.Implies(z3.And(0 <= sk, sk < k + 1), AT(PA, sk) == AT(nm, sk))), "from %s: one more character of the name" % m[0], P6)
        # '>'
        for b in (False, True):
            pc0 = uniq(V.st.pc, W.st.pc, base) + [c == 62] + pre(P_, QI.len(nm)) + [spec.mism(P_, nm) >= 0]
            if b: pc0.append(P_ == nm)
            if not b:
                lemma(rec, ex, pc0, P_ == nm, "from %s: the whole name" % m[0], P6); continue
            lemma(rec, ex, pc0 + [AT(nm, QI.len(nm) - 1) >= 0], spec.trimlen(P_) == QI.len(P_), "from %s: the name does not end in white space" % m[0], P6)
            pc0.append(spec.trimlen(P_) == QI.len(P_))
            # nothing trimmed: the whole sequence
            pc0.append(ssub(P_, z3.IntVal(0), spec.trimlen(P_)) == P_)
            for e in cs:
                if e.name != "an end tag closes the innermost element": lemma(rec, ex, pc0, z3.Not(e.g), "from %s: the written end tag is not '%s'" % (m[0], e.name), P6); continue
                lemma(rec, ex, pc0, e.g, "from %s: the written end tag closes the element" % m[0], P6)
                A = apply(W, e); e1 = [x for x in eof_cases(V, m)]; e2 = eof_cases(A, ("wait",))
                pc = uniq(V.st.pc, A.st.pc, pc0, [e.g])
                rec.covers.append(("a written end tag after %s" % m[0], not refuted(ex, pc)))
                for x in e1:
                    lemma(rec, ex, pc, x.g if x.err is None else z3.Not(x.g), "from %s: %s: %s" % (m[0], x.name, "accepted" if x.err is None else "not the case"), P6)
                for y in e2:
                    lemma(rec, ex, pc, y.g if y.err is None else z3.Not(y.g), "from %s, end tag written: %s: %s" % (m[0], y.name, "accepted" if y.err is None else "not the case"), P6)
                x, = [x for x in e1 if x.err is None]; y, = [y for y in e2 if y.err is None]
                FA, FB = Fin(V, x, "_1"), Fin(A, y, "_2")
                pc = uniq(pc, V.st.pc, A.st.pc, FA.pc, FB.pc); prove_rel(rec, ex, pc, frel(FA, FB, ID), "from %s: the same document" % m[0], P6)
    return rec, ex

def unit_option(opt, props, hyp):
    """where an option is not called for it changes nothing"""
    def run(J):
        ex, L = psetup(J); KNOWN.clear(); rec = Rec("where %s is not called for" % opt); c = z3.Int("c"); K = L.K
        for mode in MODES:
            V1, V2 = mstate(ex, L, mode, "_1"), mstate(ex, L, mode, "_2"); r = sym_ren()
            # V1: without the option, V2: with it
            for V, val in ((V1, False), (V2, True)):
                o = V.d("parse_options"); fs = list(o.f); fs[L.O[opt]] = z3.BoolVal(val); d = list(V.doc.f); d[L.D["parse_options"]] = Agg(o.ty, o.v, fs); V.doc = Agg(V.doc.ty, V.doc.v, d); V.st.cells[V.cell] = V.doc; with_inv(V, mode)
            def R(A, B_, md, r):
                out = rel(A, B_, md, r)
                if opt == "auto_fix_unexpected_endtag" and md[0] == "wait": out.append(("no text is left open", (), lambda: z3.And(z3.Not(z3.Select(A.h("node_type"), A.cur()) == K["Text"]), z3.Not(z3.Select(B_.h("node_type"), B_.cur()) == K["Text"])), None))
                return out
            base = [c >= 0, c <= 0x10FFFF]; rassume(base, R(V1, V2, mode, r)); base += hyp(V1, mode, c)
            for k, (a, b) in enumerate(zip(cases(V1, mode, c), cases(V2, mode, c))):
                pc = uniq(V1.st.pc, V2.st.pc, base); lab = "%s: %s (%d)" % (mname(mode), a.name, k)
                lemma(rec, ex, pc, a.g == b.g, lab + ": both or none", props)
                if a.err is not None: continue
                if refuted(ex, pc + [a.g]): continue
                A, B_ = apply(V1, a, c, False), apply(V2, b, c, False); r2 = extend(r, V1.next(), V2.next()) if a.new is not None else r
                pc = uniq(A.st.pc, B_.st.pc, base); gs = list(rgoals(R(A, B_, a.mode, r2))); pc = uniq(pc, A.st.pc, B_.st.pc)
                for nm, g in gs: lemma(rec, ex, pc, g, "%s: %s" % (lab, nm), props)
            if opt == "auto_fix_unclosed_tag": base.append(V1.n() == 1)
            eof_pair(rec, ex, V1, V2, mode, mode, r, base, props, mname(mode) + ": ")
        return rec, ex
    return run
def no_bare(V, mode, c): return [z3.Not(other(c))] if mode[0] == "lt" else []
def no_stray(V, mode, c):
    if mode[0] != "tagend": return []
    e, = [e for e in cases(V, mode, c) if e.name == "an unexpected end tag is rejected"]
    return [z3.Not(e.g)]
CONG = {"C04", "C07", "C08"}
GROUPS = [MODES[i::4] for i in range(4)]
def group(i, weak=False):
    def run(J):
        rec = None; PP = {"C15"} if weak else CONG
        for m in GROUPS[i]:
            for u in (unit_congruence, unit_eof):
                r_, ex = u(m, PP, weak)(J)
                if rec is None: rec = Rec("congruence of the machine%s (%d)" % (", whatever the quotes" if weak else "", i))
                for o in r_.obls: rec.obls.append(dict(o, unit=rec.unit, name="%s: %s" % (mname(m), o["name"])))
                rec.covers += r_.covers
        return rec, ex
    return run
UNITS = [("congruence %d" % i, group(i), CONG) for i in range(4)] + [("weak congruence %d" % i, group(i, True), {"C15"}) for i in range(4)] + [("bare lt", unit_bare_lt, {"C08"}), ("ignored end tag", unit_stray, {"C06", "C07"}), ("missing end tags", unit_missing, {"C06"})] + [
    ("option unclosed", unit_option("auto_fix_unclosed_tag", {"C06"}, lambda V, m, c: []), {"C06"}), ("option endtag", unit_option("auto_fix_unexpected_endtag", {"C07"}, no_stray), {"C07"}), ("option lt", unit_option("auto_fix_unescaped_lt", {"C08"}, no_bare), {"C08"})]
if __name__ == "__main__":
    import sys, json, time
    J = json.load(open("/verif/build/mir.json"))
    for n, u, ps in UNITS:
        if len(sys.argv) > 1 and not any(a in n for a in sys.argv[1:]): continue
        t = time.time(); rec, ex = u(J)
        print("==", rec.unit, "%.1fs" % (time.time() - t), len(rec.obls), sum(o["status"] == "proved" for o in rec.obls), [x for x in rec.covers if not x[1]], flush=True)
        for o in rec.obls:
            if o["status"] != "proved": print("   ", o["status"], o["name"], "%.1f" % (o["ms"] / 1000), (o["detail"] or "")[:100])
