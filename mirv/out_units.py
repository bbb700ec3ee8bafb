"""The rendering of what has been read, as an invariant of the specification machine (C04).

Ghost state: done (finished nodes), R (the rendering of a finished node), A (the rendering of the first k children of a node), B
(the rendering of everything before the start tag of an open element).  OUT, the default rendering of everything read so far, is defined
from these for every mode; each step appends to OUT exactly what the property says is kept of the character it reads, and at the end of
the input OUT is the rendering of the root."""
import z3
from core import *
from vc import Rec
import pstep, spec, models, ex as exm
from pstep import cases, eof_cases, isvoid, in_tag
from spec import SI, QI, ws, lower, AT, allws
from render_units import setup as rsetup, needq, attr_facts, node_parts, mkst, wf, paths, segs, NONE, abuild_parts
from tree_units import kid_facts
from lemma_units import KINDS, flat, node
from machine_units import mstate, with_inv, apply, rassume, rgoals, lemma, uniq, mname, refuted, feasible, need, MODES, Pc
P4 = {"C04"}
F_ = z3.BoolVal(False)
def cat(*ps):
    r = QI.empty
    for p in ps:
        if isinstance(p, str): r = spec.push(r, p)
        elif isinstance(p, tuple): r = QI.snoc(r, p[0])
        elif r.eq(QI.empty): r = p
        elif p.eq(QI.empty): pass
        else: r = QI.app(r, p)
    return r
class G:
    def __init__(s, R, A, Bf, done): s.R, s.A, s.B, s.done = R, A, Bf, done
def ghost(sfx):
    return G(z3.Const("gR" + sfx, z3.ArraySort(I, SI)), z3.Const("gA" + sfx, z3.ArraySort(I, z3.ArraySort(I, SI))), z3.Const("gB" + sfx, z3.ArraySort(I, SI)), z3.Const("gdone" + sfx, z3.ArraySort(I, B)))
def tools(L, rq=False):
    """defined functions: the piece of a node and the text of its end tag (rq: with remove_attr_quote)"""
    L.rq = z3.BoolVal(rq)
    L.pf = z3.Function("piece_of", I, L.ocon, SI, L.qa.S, B, SI); L.ef = z3.Function("end_of", B, SI, SI)
    K = L.K; t, c, n, a, sc = z3.Int("t"), z3.Const("c", L.ocon), z3.Const("n", SI), z3.Const("a", L.qa.S), z3.Bool("sc"); ap = L.attrsp(a, L.qa.len(a), L.rq)
    some, con = L.some_c(c), L.con(c)
    tag = lambda s_: cat("<", n, ap, *([" /"] if s_ else []), ">")
    X = L.pf(t, c, n, a, sc); b = z3.Bool("b"); ax = []
    def q(g, v): ax.append(z3.ForAll([t, c, n, a, sc], z3.Implies(g, X == v), patterns=[X]))
    q(z3.Or(t == K["Text"], t == K["SpacesBetweenTag"]), con)
    for s_ in (False, True):
        g = z3.And(t == K["Tag"], sc if s_ else z3.Not(sc)); q(z3.And(g, z3.Not(some)), tag(s_)); q(z3.And(g, some), cat("<", n, ap, *([" /"] if s_ else []), ">", con))
    q(z3.And(t == K["HTMLDOCTYPE"], L.qa.len(a) == 0), cat("<!", n, " >")); q(z3.And(t == K["HTMLDOCTYPE"], L.qa.len(a) != 0), cat("<!", n, ap, ">"))
    q(z3.And(t == K["Comment"], some), cat("<!--", con, "-->")); q(z3.And(t == K["Comment"], z3.Not(some)), cat("<!---->"))
    q(z3.And(t == K["XMLCDATA"], some), cat("<![CDATA[", con, "]]>")); q(z3.And(t == K["XMLCDATA"], z3.Not(some)), cat("<![CDATA[]]>"))
    q(t == K["AbstractRoot"], QI.empty)
    ax.append(z3.ForAll([n], z3.And(L.ef(z3.BoolVal(True), n) == cat("</", n, ">"), L.ef(z3.BoolVal(False), n) == QI.empty), patterns=[L.ef(z3.BoolVal(True), n)]))
    ax.append(z3.ForAll([b, n], L.ef(b, n) == z3.If(b, cat("</", n, ">"), QI.empty), patterns=[L.ef(b, n)]))
    k = z3.Int("k")
    ax.append(z3.ForAll([a], L.attrsp(a, z3.IntVal(0), L.rq) == QI.empty, patterns=[L.qa.len(a)]))
    return ax
def piece(L, H, h):
    m = z3.Select(H["meta"], h); return L.pf(z3.Select(H["node_type"], h), z3.Select(H["content"], h), L.mf(m, "name"), L.mf(m, "attrs"), L.mf(m, "self_closed"))
def ending(L, H, h):
    e = z3.Select(H["end_tag"], h); return L.ef(e != -1, L.con(z3.Select(H["content"], e)))
def nchild(L, H, h): return L.nch(z3.Select(H["childs"], h))
def full(L, H, g, h): return cat(piece(L, H, h), z3.Select(z3.Select(g.A, h), nchild(L, H, h)), ending(L, H, h))
def pchild(mode): return mode[0] in ("text", "comment", "cdata", "dname") or (mode[0] == "in" and mode[1])   # the current node is an unfinished child
def jinv(V, g, mode):
    """the invariant of the ghost state: [(name, vars, body, patterns)]"""
    L, K = V.L, V.L.K; out = []; H = V.st.heap; nx, n, C, top, cur = V.next(), V.n(), V.C(), V.top(), V.cur()
    def cl(name, body, vars=(), pats=None): out.append((name, vars, body, pats))
    D = lambda h: z3.Select(g.done, h); A = lambda h, k: z3.Select(z3.Select(g.A, h), k); kid = lambda h, j: L.child(z3.Select(H["childs"], h), j); old = lambda h: z3.And(0 <= h, h < nx)
    cl("no children, nothing of them", lambda h: z3.Implies(old(h), A(h, z3.IntVal(0)) == QI.empty), [I], lambda h: [z3.Select(g.A, h)])
    cl("finished nodes are nodes", lambda h: z3.Implies(D(h), old(h)), [I], lambda h: [D(h)])
    cl("one more finished child", lambda h, j: z3.Implies(z3.And(old(h), 0 <= j, j < nchild(L, H, h), D(kid(h, j))), A(h, j + 1) == cat(A(h, j), z3.Select(g.R, kid(h, j)))), [I, I], lambda h, j: [kid(h, j)])
    cl("the rendering of a finished node", lambda h: z3.Implies(D(h), z3.Select(g.R, h) == full(L, H, g, h)), [I], lambda h: [D(h)])
    cl("children of finished nodes are finished", lambda h, j: z3.Implies(z3.And(D(h), 0 <= j, j < nchild(L, H, h)), D(kid(h, j))), [I, I], lambda h, j: [kid(h, j)])
    cl("children before an open element are finished", lambda i, j: z3.Implies(z3.And(0 <= i, i < n - 1, 0 <= j, j < nchild(L, H, sat(C, i)) - 1), D(kid(sat(C, i), j))), [I, I], lambda i, j: [kid(sat(C, i), j)])
    last = 1 if pchild(mode) else 0
    cl("children of the innermost open element are finished", lambda j: z3.Implies(z3.And(0 <= j, j < nchild(L, H, top) - last), D(kid(top, j))), [I], lambda j: [kid(top, j)])
    cl("open elements are not finished", lambda i: z3.Implies(z3.And(0 <= i, i < n), z3.Not(D(sat(C, i)))), [I], lambda i: [sat(C, i)])
    if pchild(mode) or mode[0] == "tagend": cl("the node being read is not finished", lambda: z3.Not(D(cur)))
    cl("what is before an open element", lambda i: z3.Implies(z3.And(0 <= i, i < n - 1), z3.Select(g.B, sat(C, i + 1)) == cat(z3.Select(g.B, sat(C, i)), piece(L, H, sat(C, i)), A(sat(C, i), nchild(L, H, sat(C, i)) - 1))), [I], lambda i: [sat(C, i)])
    cl("nothing before the root", lambda: z3.Select(g.B, z3.IntVal(0)) == QI.empty)
    return out
def starttag(V, k, excl=False):
    L = V.L; m = V.at("meta", V.cur()); return ["<!" if excl else "<", L.mf(m, "name"), L.attrsp(L.mf(m, "attrs"), k, L.rq)]
def outparts(V, g, mode, split):
    """the rendering of what has been read.  split: decisions on the pending attribute (has a key, quoted)"""
    L, ex = V.L, V.ex; H = V.st.heap; top, cur = V.top(), V.cur(); m0 = mode[0]; Pn = ex.term(V.st, V.pend()); Bt = z3.Select(g.B, top)
    base = [Bt, piece(L, H, top), z3.Select(z3.Select(g.A, top), nchild(L, H, top) - (1 if pchild(mode) else 0))]
    if m0 == "wait": return base
    if m0 == "text": return base + [Pn]
    if m0 == "lt": return base + ["<"]
    if m0 == "bang": return base + ["<!"] + ([mode[1][:mode[2]]] if mode[1] == "[CDATA[" else [Pn] if mode[1] else [])
    if m0 == "dname": return base + ["<!", Pn]
    if m0 == "comment": return base + ["<!--", Pn]
    if m0 == "cdata": return base + ["<![CDATA[", Pn]
    if m0 == "tagend": return base + ["</", Pn]
    if m0 == "raw": return [Bt, piece(L, H, top), Pn]
    if m0 == "name": return [Bt, "<", Pn]
    doct, sub = mode[1], mode[2]; pre = base if doct else [Bt]
    A_ = L.mf(V.at("meta", cur), "attrs"); al = L.qa.len(A_); la = L.qa.at(A_, al - 1)
    if sub in ("gap", "aft", "wv", "slash"): return pre + starttag(V, al, doct)
    if sub == "key": return pre + starttag(V, al - 1, doct) + [" ", Pn]
    hk, qu = split
    if z3.is_true(L.rq) and hk and qu: return pre + starttag(V, al - 1, doct) + [" ", L.akey(la)]      # written when it is known
    return pre + starttag(V, al - 1, doct) + [" "] + ([L.akey(la), "="] if hk else []) + ([(zi(V.d("mark_char")),)] if qu else []) + [Pn]
def splits(V, mode):
    """the decisions of outparts: [(facts, split)]"""
    if not (mode[0] == "in" and mode[2] == "val"): return [([], None)]
    L = V.L; A_ = L.mf(V.at("meta", V.cur()), "attrs"); la = L.qa.at(A_, L.qa.len(A_) - 1); mk = zi(V.d("mark_char")); out = []
    for hk in (True, False):
        for qu in (True, False):
            out.append(([L.ahas(la) if hk else z3.Not(L.ahas(la)), mk != 32 if qu else mk == 32], (hk, qu)))
    return out
def kept(V, mode, e, c):
    """what the property says is kept of the character: the parts appended to the rendering"""
    m0 = mode[0]; n = e.name; C = (c,)
    if m0 == "bang" and (mode[1] == "[CDATA[" or n == "'<!['" or n == "a CDATA section"): return ["[CDATA["[mode[2]]]      # the keyword in upper case
    if m0 in ("name", "dname", "in"):
        gt = n.startswith("'>'") or n.startswith("the tag name ends,") and e.mode != ("in", False, "slash", False)
        if gt:
            if mode[0] == "in" and mode[1]:
                A_ = V.L.mf(V.at("meta", V.cur()), "attrs"); return ("empty?", V.L.qa.len(A_) == 0)
            if "'/>' closes" in n: return [" />"]
            return [">"]
        if n in ("a character of the tag name", "a character of a key", "a character of a value", "the quote ends the value"): return [C]
        if n in ("a key starts", "a key that starts with '='", "a quoted doctype item"): return [" ", C]
        if n in ("a quoted value starts", "an unquoted value starts"): return ["=", C]
        return []        # white space, '/' and '=' in a tag
    return [C]
def kepts(V, mode, e, c, split):
    """the ways it can go: [(facts, parts)]"""
    L = V.L
    if z3.is_true(L.rq) and mode[0] == "in":
        # with remove_attr_quote a quoted value with a key is written when it is known
        if e.name == "a quoted value starts": return [([], [])]
        if mode[2] == "val" and split == (True, True):
            if e.name == "a character of a value": return [([], [])]
            if e.name == "the quote ends the value":
                A_ = L.mf(V.at("meta", V.cur()), "attrs"); la = L.qa.at(A_, L.qa.len(A_) - 1); v = V.ex.term(V.st, V.pend()); nq = z3.Or(L.af(la, "need_quote"), needq(v)); q = (zi(V.d("mark_char")),)
                return [([nq], ["=", q, v, q]), ([z3.Not(nq)], ["=", v])]
    kp = kept(V, mode, e, c)
    return [([kp[1]], [" >"]), ([z3.Not(kp[1])], [">"])] if isinstance(kp, tuple) else [([], kp)]
def step_ghost(V, A_, g, e, mode):
    """the ghost state after a step: (ghost, definitions)"""
    L = V.L; H = A_.st.heap; pc = []; R, Ar, Bf, done = g.R, g.A, g.B, g.done; NEW = V.next()
    def name(t, nm):
        x = fresh(t.sort(), "g" + nm); pc.append(x == t); return x
    if e.new is not None: Ar = z3.Store(Ar, NEW, z3.K(I, QI.empty))
    fin = None
    if e.chain == "push": Bf = z3.Store(Bf, NEW, cat(z3.Select(Bf, V.top()), piece(L, V.st.heap, V.top()), z3.Select(z3.Select(g.A, V.top()), nchild(L, V.st.heap, V.top()))))
    if e.chain == "pop": fin, par = V.top(), sat(V.C(), V.n() - 2)
    elif pchild(mode) and not pchild(e.mode): fin, par = V.cur(), V.top()
    if fin is not None:
        r = full(L, H, G(R, Ar, Bf, done), fin); rr = name(r, "r"); k = nchild(L, H, par)
        R = z3.Store(R, fin, rr); row = z3.Select(Ar, par); Ar = z3.Store(Ar, par, z3.Store(row, k, cat(z3.Select(row, k - 1), rr))); done = z3.Store(done, fin, z3.BoolVal(True))
    return G(*[name(x, n) if not z3.is_const(x) else x for x, n in ((R, "R"), (Ar, "A"), (Bf, "B"), (done, "D"))]), pc, fin
def abuild_ax(L):
    """the text of one attribute"""
    a = z3.Const("a", L.attr); X = L.abuild(a, L.rq); rq = z3.is_true(L.rq); out = []; oq = L.ex.ty.sort(L.AT["quote"]); q = L.af(a, "quote")
    for hk in (True, False):
        for hv in (True, False):
            for hq in (True, False):
                shown = oq.recognizer(1)(q)
                if rq and hk: shown = z3.And(shown, z3.Or(L.af(a, "need_quote"), needq(L.aval(a))))
                gd = z3.And(*[x if b else z3.Not(x) for x, b in ((L.ahas(a), hk), (L.ahas(a, "value"), hv), (shown, hq))])
                ps = ([L.akey(a)] if hk else []) + (([("=")] if hk else []) + ([(oq.accessor(1, 0)(q),)] if hq else []) + [L.aval(a)] + ([(oq.accessor(1, 0)(q),)] if hq else []) if hv else [])
                out.append(z3.ForAll([a], z3.Implies(gd, X == cat(*ps)), patterns=[X]))
    return out
def attrfacts(L, V, A_):
    """instances of the definition of attrsp around a step, and that it reads only the prefix (induction: unit_defs)"""
    out = []; goals = []
    if V.cur() is None: return out, goals
    a = L.mf(V.at("meta", V.cur()), "attrs"); b = L.mf(z3.Select(A_.st.heap["meta"], V.cur()), "attrs")
    for x in (a, b):
        for k in (L.qa.len(x) - 1, L.qa.len(x)): out += [z3.Implies(k >= 0, f) for f in attr_facts(L, x, k, L.rq)]
    j = z3.Int("j")
    for n in (L.qa.len(a), L.qa.len(a) - 1):
        sk = fresh(I, "sk")
        out.append(z3.Implies(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), L.qa.at(a, j) == L.qa.at(b, j)), patterns=[L.qa.at(b, j)]), z3.Implies(n >= 0, L.attrsp(a, n, L.rq) == L.attrsp(b, n, L.rq))))
    return out
def off(V): return [z3.Not(zb(V.opt(o))) for o in ("auto_fix_unclosed_tag", "auto_fix_unexpected_endtag", "auto_fix_unescaped_lt")]
def unit_step(mode, rq=False):
    def run(J):
        P4 = {"C15"} if rq else {"C04"}
        ex, L = rsetup(J); KNOWN.clear(); rec = Rec("the rendering of what has been read%s, in %s" % (" (remove_attr_quote)" if rq else "", mname(mode))); ax = tools(L, rq) + abuild_ax(L)
        V = with_inv(mstate(ex, L, mode, "_"), mode); g = ghost("_"); c = z3.Int("c"); base = [c >= 0, c <= 0x10FFFF] + ax + off(V); rassume(base, jinv(V, g, mode))
        rec.covers.append(("a state of %s" % mname(mode), not refuted(ex, uniq(V.st.pc, base))))
        for k, e in enumerate(cases(V, mode, c)):
            if e.err is not None or refuted(ex, uniq(V.st.pc, base, [e.g])): continue
            A_ = apply(V, e, c, True); g2, gpc, fin = step_ghost(V, A_, g, e, mode)
            lab = "%s (%d)" % (e.name, k)
            af = attrfacts(L, V, A_) if mode[0] in ("in", "name", "dname") else []
            pc0 = uniq(A_.st.pc, base, gpc, af, hints(V, A_, mode, e, c))
            rec.covers.append(("%s: %s happens" % (mname(mode), lab), not refuted(ex, pc0, 1000)))
            for nm, gl in list(rgoals(jinv(A_, g2, e.mode))): lemma(rec, ex, uniq(pc0, A_.st.pc), gl, "%s: %s" % (lab, nm), P4)
            for f1, s1 in splits(V, mode):
                for f2, s2 in splits(A_, e.mode):
                    for kf, kps in kepts(V, mode, e, c, s1):
                        pc = uniq(pc0, f1, f2, kf, A_.st.pc, V.st.pc)
                        if refuted(ex, pc, 700): continue
                        lemma(rec, ex, pc, cat(*outparts(A_, g2, e.mode, s2)) == cat(*outparts(V, g, mode, s1), *kps), "%s: appends %s" % (lab, "".join(x if isinstance(x, str) else "the character" for x in kps) or "nothing"), P4)
        return rec, ex
    return run
def hints(V, A_, mode, e, c):
    """joining and splitting of the pending characters"""
    L, ex = V.L, V.ex; Pn = ex.term(V.st, V.pend()); out = []; n = QI.len(Pn)
    def joined(parts):          # the parts are Pn (extensionality, checked by unit_defs)
        t = cat(*parts); i = z3.Int("i"); return t
    if mode[0] in ("comment", "cdata") and e.mode == ("wait",):
        q = 45 if mode[0] == "comment" else 93; out.append(cat(ssub(Pn, z3.IntVal(0), n - 2), (z3.IntVal(q),), (z3.IntVal(q),)) == Pn)
    if mode[0] == "raw" and e.mode == ("wait",):
        D = ex.term(V.st, V.d("detect").f[0]); o = spec.trimlen(Pn) - QI.len(D); out.append(cat(ssub(Pn, z3.IntVal(0), o), "</", ssub(Pn, o + 2, n)) == Pn)
    return out
def lem(rec, ex, st, goal, name, props=None): return rec.prove(ex, st, goal, "lemma: " + name, props or rec.props, seeds=(1, 2))
def joined(rec, ex, V, parts, Pn, name, pc):
    """the parts are the whole sequence, element by element"""
    st = V.st.copy(); t = ex.term(st, SeqV(ex.ty.chart, segs(parts))); st.pc += pc + [spec.mism(t, Pn) >= 0]
    lem(rec, ex, st, t == Pn, name)
def unit_defs(J, rq=False):
    """the definitions the invariant rests on, its beginning and its end"""
    rec = Rec("the rendering of what has been read%s: definitions, beginning and end" % (" (remove_attr_quote)" if rq else "")); P4 = rec.props = {"C15"} if rq else {"C04"}; RQ = z3.BoolVal(rq)
    # joining and splitting of the pending characters
    c = z3.Int("c")
    for mode in (("comment",), ("cdata",), ("raw",)):
        ex, L = rsetup(J); KNOWN.clear(); V = with_inv(mstate(ex, L, mode, "_"), mode); Pn = ex.term(V.st, V.pend()); n = QI.len(Pn)
        for e in cases(V, mode, c):
            if e.mode != ("wait",): continue
            if mode[0] == "raw":
                D = ex.term(V.st, V.d("detect").f[0]); o = spec.trimlen(Pn) - QI.len(D); parts = [ssub(Pn, z3.IntVal(0), o), "</", ssub(Pn, o + 2, n)]
            else: q = z3.IntVal(45 if mode[0] == "comment" else 93); parts = [ssub(Pn, z3.IntVal(0), n - 2), (q,), (q,)]
            rec.covers.append(("%s ends" % mode[0], not refuted(ex, uniq(V.st.pc, [e.g]))))
            joined(rec, ex, V, parts, Pn, "%s: the pending characters are the content and what ends it" % mode[0], [e.g])
    # the text of one attribute
    ex, L = rsetup(J); a = z3.Const("attr", L.attr); st = St()
    for i, (s, ps) in enumerate(paths(ex, st, lambda d, s: abuild_parts(L, a, RQ, d))):
        t = flat(ex, s, ps); tools(L, rq); s.pc += abuild_ax(L)
        lem(rec, ex, s, L.abuild(a, RQ) == t, "the text of an attribute [path %d]" % i)
    # the piece of a node
    for kind in KINDS:
        ex, L = rsetup(J); h, pre, root = z3.Int("h"), z3.Bool("pre"), z3.Bool("root"); st = mkst(ex); node(ex, L, st, kind, h); st.pc += [z3.Not(x) for n, x in L.o.items() if n != "remove_attr_quote"]; L.o["remove_attr_quote"] = RQ
        rec.covers.append((kind, ex.feasible(st)))
        for i, (s, (ps, p)) in enumerate(paths(ex, st, lambda d, s: node_parts(ex, L, s, h, kind, z3.IntVal(NONE), root, pre, d))):
            t = flat(ex, s, ps); s.pc += tools(L, rq); con = L.con(z3.Select(s.heap["content"], h))
            lem(rec, ex, s, t == (piece(L, s.heap, h) if kind != "TagEnd" else L.ef(z3.BoolVal(True), con)), "%s: what is written without any option [path %d]" % (kind, i))
    # the beginning: only the root (Doc::new)
    ex, L = rsetup(J); KNOWN.clear(); V = with_inv(mstate(ex, L, ("wait",), "_"), ("wait",)); H = V.st.heap
    g = G(z3.Const("gR0", z3.ArraySort(I, SI)), z3.K(I, z3.K(I, QI.empty)), z3.K(I, QI.empty), z3.K(I, F_))
    st = V.st.copy(); st.pc += tools(L, rq) + [V.next() == 1, V.n() == 1, nchild(L, H, z3.IntVal(0)) == 0]; rec.covers.append(("the beginning", ex.feasible(st)))
    for nm, gl in rgoals(jinv(V, g, ("wait",))): lem(rec, ex, st, gl, "the beginning: " + nm)
    lem(rec, ex, st, cat(*outparts(V, g, ("wait",), None)) == QI.empty, "the beginning: nothing is written")
    # the end
    for mode in MODES:
        ex, L = rsetup(J); KNOWN.clear(); V = with_inv(mstate(ex, L, mode, "_"), mode); g = ghost("_"); base = tools(L, rq) + off(V); rassume(base, jinv(V, g, mode))
        for e in eof_cases(V, mode):
            if e.err is not None: continue
            pc = uniq(V.st.pc, base, [e.g])
            if mode[0] not in ("wait", "text"): lemma(rec, ex, uniq(V.st.pc, base), z3.Not(e.g), "%s: the end of the input is an error" % mname(mode), P4); continue
            rec.covers.append(("the end in %s" % mode[0], not refuted(ex, pc)))
            R, A, done, gpc = g.R, g.A, g.done, []
            if mode[0] == "text":
                rr = fresh(SI, "r"); fin = V.cur(); k = nchild(L, e.H, V.top()); row = z3.Select(A, V.top())
                R = z3.Store(R, fin, rr); gpc.append(rr == full(L, e.H, g, fin)); A = z3.Store(A, V.top(), z3.Store(row, k, cat(z3.Select(row, k - 1), rr))); done = z3.Store(done, fin, z3.BoolVal(True))
            g2 = G(R, A, g.B, done); pc = uniq(pc, gpc, V.st.pc)
            for nm, gl in rgoals(final(L, e.H, g2, V.next())): lemma(rec, ex, pc, gl, "the end in %s: %s" % (mode[0], nm), P4)
            root = z3.IntVal(0)
            lemma(rec, ex, pc, z3.Select(z3.Select(A, root), nchild(L, e.H, root)) == cat(*outparts(V, g, mode, None)), "the end in %s: the root's children are what has been written" % mode[0], P4)
    # the tree: what build_tree writes for a finished node is its rendering (induction over the tree and over the child list)
    ex, L = rsetup(J); st = mkst(ex); g = ghost("_"); h, k, pre = z3.Int("h"), z3.Int("k"), z3.Bool("pre"); H = st.heap; st.pc += tools(L, rq); rassume(st.pc, final(L, H, g, st.nbase))
    ch, en = z3.Select(H["childs"], h), z3.Select(H["end_tag"], h); C = simpacc(L.ovec.accessor(1, 0), ch); q = L.npre(h, pre); N0 = z3.IntVal(NONE); Ah = z3.Select(g.A, h)
    for root in (False, True):
        who = "the document" if root else "a finished node"; s0 = st.copy(); s0.pc += [h == 0] if root else [z3.Select(g.done, h)]
        s = s0.copy(); s.pc += kid_facts(L, C, k, N0, q) + [k >= 0, k < nchild(L, H, h), L.ovec.recognizer(1)(ch), L.child(ch, k) == AT(C, k)]
        lem(rec, ex, s, L.kids(C, z3.IntVal(0), N0, q) == z3.Select(Ah, z3.IntVal(0)), "%s: no children" % who)
        s.pc += [L.kids(C, k, N0, q) == z3.Select(Ah, k), z3.Implies(z3.Select(g.done, AT(C, k)), L.tree(AT(C, k), N0, F_, q) == z3.Select(g.R, AT(C, k)))]; rec.covers.append((who + " with children", ex.feasible(s)))
        lem(rec, ex, s, L.kids(C, k + 1, N0, q) == z3.Select(Ah, k + 1), "%s: one more child" % who)
        for hk in (False, True):
            for he in (False, True):
                s = s0.copy(); rk = L.ovec.recognizer(1)(ch); rt = z3.BoolVal(root)
                s.pc += [rk if hk else z3.Not(rk), en != -1 if he else en == -1, z3.Implies(rk, L.kids(C, QI.len(C), N0, q) == z3.Select(Ah, QI.len(C))), nchild(L, H, h) == (QI.len(C) if hk else 0),
                    L.piece(h, N0, rt, pre) == piece(L, H, h), L.piece(en, N0, rt, q) == L.ef(z3.BoolVal(True), L.con(z3.Select(H["content"], en))),
                    L.tree(h, N0, rt, pre) == cat(L.piece(h, N0, rt, pre), *([L.kids(C, QI.len(C), N0, q)] if hk else []), *([L.piece(en, N0, rt, q)] if he else []))]
                if root: lem(rec, ex, s, L.tree(h, N0, rt, pre) == z3.Select(Ah, nchild(L, H, h)), "%s: its rendering is that of its children (children %s, end tag %s)" % (who, hk, he))
                else: lem(rec, ex, s, L.tree(h, N0, rt, pre) == z3.Select(g.R, h), "%s: its rendering (children %s, end tag %s)" % (who, hk, he))
    # the default options switch everything off
    for cfg in ("ParseOptions", "RenderOptions"):
        ex, L = rsetup(J); st = St(); fn = "<rphtml::config::%s as std::default::Default>::default" % cfg; rec.functions.add(cfg + "::default")
        for i, o in enumerate(ex.call_fn(st, fn, [])):
            if o.kind != "ret": rec.unsup("%s: %s" % (fn, o.msg), P4, o.msg); continue
            lem(rec, ex, o.st, z3.And(*[z3.Not(zb(x)) for x in o.val.f if not isinstance(x, Opq)]), "%s: no option by default [path %d]" % (cfg, i)); need(rec, len(o.val.f) >= 5 and not any(isinstance(x, Opq) for x in o.val.f), "%s: every field is known" % cfg, P4)
    return rec, ex
def final(L, H, g, nx):
    """what is left of the invariant in a finished document"""
    out = []; D = lambda h: z3.Select(g.done, h); A = lambda h, k: z3.Select(z3.Select(g.A, h), k); kid = lambda h, j: L.child(z3.Select(H["childs"], h), j); old = lambda h: z3.And(0 <= h, h < nx); r0 = z3.IntVal(0)
    def cl(name, body, vars=(), pats=None): out.append((name, vars, body, pats))
    cl("no children, nothing of them", lambda h: z3.Implies(old(h), A(h, r0) == QI.empty), [I], lambda h: [z3.Select(g.A, h)])
    cl("finished nodes are nodes", lambda h: z3.Implies(D(h), old(h)), [I], lambda h: [D(h)])
    cl("one more finished child", lambda h, j: z3.Implies(z3.And(old(h), 0 <= j, j < nchild(L, H, h), D(kid(h, j))), A(h, j + 1) == cat(A(h, j), z3.Select(g.R, kid(h, j)))), [I, I], lambda h, j: [kid(h, j)])
    cl("the rendering of a finished node", lambda h: z3.Implies(D(h), z3.Select(g.R, h) == full(L, H, g, h)), [I], lambda h: [D(h)])
    cl("children of finished nodes are finished", lambda h, j: z3.Implies(z3.And(z3.Or(h == 0, D(h)), 0 <= j, j < nchild(L, H, h)), D(kid(h, j))), [I, I], lambda h, j: [kid(h, j)])
    cl("the root", lambda: z3.And(nx >= 1, z3.Select(H["node_type"], r0) == L.K["AbstractRoot"], z3.Select(H["end_tag"], r0) == -1))
    return out
def group(modes, rq):
    def run(J):
        rec = None
        for m in modes:
            r_, ex = unit_step(m, rq)(J)
            if rec is None: rec = Rec("the rendering of what has been read%s (%s ...)" % (" (remove_attr_quote)" if rq else "", mname(m)))
            for o in r_.obls: rec.obls.append(dict(o, unit=rec.unit, name="%s: %s" % (mname(m), o["name"])))
            rec.covers += r_.covers
        return rec, ex
    return run
UNITS = [("output%s %d" % (" rq" if rq else "", i), group(MODES[i::4], rq), {"C15"} if rq else {"C04"}) for rq in (False, True) for i in range(4)]
UNITS += [("output definitions", unit_defs, {"C04"}), ("output definitions rq", lambda J: unit_defs(J, True), {"C15"})]
if __name__ == "__main__":
    import sys, json, time
    J = json.load(open("/verif/build/mir.json"))
    if "defs" in sys.argv[1:]: UN = [("defs", unit_defs)]
    elif "rqdefs" in sys.argv[1:]: UN = [("rqdefs", lambda J: unit_defs(J, True))]
    else: UN = [(mname(m), unit_step(m, "rq" in sys.argv)) for m in MODES]
    for m, u in UN:
        if any(a != "rq" for a in sys.argv[1:]) and m not in sys.argv[1:]: continue
        t = time.time(); rec, ex = u(J)
        print("==", rec.unit, "%.1fs" % (time.time() - t), len(rec.obls), sum(o["status"] == "proved" for o in rec.obls), [x for x in rec.covers if not x[1]], flush=True)
        for o in rec.obls:
            if o["status"] != "proved": print("   ", o["status"], o["name"], "%.1f" % (o["ms"] / 1000), (o["detail"] or "")[:60])
