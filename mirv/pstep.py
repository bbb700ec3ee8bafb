"""Parser step units: Doc::new, one Doc::next step from every reachable control state, Doc::eof, Doc::parse, Doc::into_root.

Every control state of the code (handler, code_in, tag code_in, ...) is explored in product with a state ("mode") of
the specification below.  A step is executed symbolically for an arbitrary document state satisfying the invariant of
the mode and an arbitrary character; on each path the result has to be the one the specification prescribes and
the invariant of the next mode has to hold.
"""
import z3, json, time, os
from core import *
from ex import Ex
import vc
from vc import Rec, brief, seqs
import spec, models, loops, ex as exm
from spec import SI, QI, P, ws, lc, lower, trimlen, allws, AT
from pure_units import mk, word, wordx, VOID, ref
RAW = ["script", "style", "title", "textarea"]
SPECIALS = ["svg", "math"]
KW = {"--": "--", "D": "DOCTYPE", "[": "[CDATA["}
ALLP = {"C%02d" % i for i in range(1, 24)}

class Lay:
    """names -> positions in the code's data types"""
    def __init__(s, ex):
        T = ex.ty; s.ex = ex
        s.doct = T.find(P + "Doc"); s.D = {f[0]: i for i, f in enumerate(T[s.doct]["v"][0]["f"])}; s.DT = {f[0]: f[1] for f in T[s.doct]["v"][0]["f"]}
        s.NT = dict(ex.node_fields); s.N = ex.nf
        s.metat = T.find(P + "TagMeta"); s.M = {f[0]: i for i, f in enumerate(T[s.metat]["v"][0]["f"])}; s.MT = {f[0]: f[1] for f in T[s.metat]["v"][0]["f"]}
        s.attrt = T.find(P + "Attr"); s.A = {f[0]: i for i, f in enumerate(T[s.attrt]["v"][0]["f"])}; s.AT = {f[0]: f[1] for f in T[s.attrt]["v"][0]["f"]}
        s.adt = T.find(P + "AttrData")
        s.ntt = T.find(P + "NodeType"); s.K = {v["n"]: v["d"] for v in T[s.ntt]["v"]}
        s.optt = s.DT["parse_options"]; s.O = {f[0]: i for i, f in enumerate(T[s.optt]["v"][0]["f"])}
        for k in ("code_in", "position", "mem_position", "detect", "prev_chars", "mark_char", "chain_nodes", "current_node", "in_special", "repeat_whitespace", "check_textnode", "handle", "root", "id_tags", "parse_options"):
            if k not in s.D: raise Unsupported("field Doc.%s not found" % k)
        for k in ("index", "node_type", "begin_at", "end_at", "end_tag", "prev", "parent", "root", "content", "childs", "meta"):
            if k not in s.N: raise Unsupported("field Node.%s not found" % k)
        for k in ("code_in", "is_void", "self_closed", "auto_fix", "name", "attrs", "lc_name_map"):
            if k not in s.M: raise Unsupported("field TagMeta.%s not found" % k)
        # data the specification does not know of: a failed obligation need not be a defect then
        known = {"Doc": "code_in position mem_position detect prev_chars mark_char chain_nodes current_node in_special repeat_whitespace check_textnode handle chars parse_options root id_tags onerror", "Node": "index node_type begin_at end_at end_tag prev parent root document content childs meta", "TagMeta": "code_in is_void self_closed auto_fix name attrs lc_name_map", "Attr": "key value quote need_quote", "AttrData": "content", "ParseOptions": "case_sensitive_tagname allow_attr_key_starts_with_equal_sign allow_self_closing auto_fix_unclosed_tag auto_fix_unexpected_endtag auto_fix_unescaped_lt"}
        for k, fs in (("Doc", s.D), ("Node", s.N), ("TagMeta", s.M), ("Attr", s.A), ("AttrData", {f[0] for f in T[s.adt]["v"][0]["f"]}), ("ParseOptions", s.O)):
            if set(fs) - set(known[k].split()): vc.SOFT.add("%s has fields the specification does not know" % k)
        # accessors on packed terms
        s.ovec = T.sort(s.NT["childs"]); s.ocon = T.sort(s.NT["content"]); s.ometa = T.sort(s.NT["meta"]); s.meta = T.sort(s.metat); s.attr = T.sort(s.attrt)
        s.qn = seqof(I); s.qa = seqof(s.attr)
        s.odat = T.sort(s.AT["key"]); s.dat = T.sort(s.adt)
        s.mapso = T.sort(s.MT["lc_name_map"])
        s.idmap = T[T[s.DT["id_tags"]]["a"][0]]["a"][0]
    # term level views
    def some_c(s, t): return s.ocon.recognizer(1)(t)
    def con(s, t): return s.ocon.accessor(1, 0)(t)
    def nch(s, t): return z3.If(s.ovec.recognizer(1)(t), s.qn.len(s.ovec.accessor(1, 0)(t)), 0)
    def oc(s, t): return s.ocon.constructor(1)(t)
    def child(s, t, j): return s.qn.at(s.ovec.accessor(1, 0)(t), j)
    def some_m(s, t): return s.ometa.recognizer(1)(t)
    def mf(s, t, f): return simpacc(s.meta.accessor(0, s.M[f]), simpacc(s.ometa.accessor(1, 0), t))
    def af(s, a, f): return simpacc(s.attr.accessor(0, s.A[f]), a)
    def akey(s, a): return simpacc(s.dat.accessor(0, 0), simpacc(s.odat.accessor(1, 0), s.af(a, "key")))
    def ahas(s, a, f="key"): return s.odat.recognizer(1)(s.af(a, f))
    def aval(s, a): return simpacc(s.dat.accessor(0, 0), simpacc(s.odat.accessor(1, 0), s.af(a, "value")))

def tword(t, w):
    """lower(t) == w on a char sequence term"""
    return z3.And(QI.len(t) == len(w), *[lc(AT(t, z3.IntVal(i))) == ord(c) for i, c in enumerate(w)])
def anyword(t, ws_): return z3.Or(*[tword(t, w) for w in ws_])
isvoid = z3.Function("isvoid", SI, B); israw = z3.Function("israw", SI, B); isspec = z3.Function("isspec", SI, B); isid = z3.Function("isid", SI, B)
def name_facts(x):
    """definition of the tag and attribute name classes at one name"""
    return [f(x) == anyword(x, W) for f, W in ((isvoid, VOID), (israw, RAW), (isspec, SPECIALS), (isid, ["id"]))]

class View:
    """a document state: doc value + heap"""
    def __init__(s, ex, L, st, cell):
        s.ex, s.L, s.st, s.cell = ex, L, st, cell
        s.doc = st.cells[cell]
    def d(s, f): return s.doc.f[s.L.D[f]]
    def opt(s, f): return s.d("parse_options").f[s.L.O[f]]
    def chain(s): return s.d("chain_nodes")
    def n(s): return zi(simp(s.ex.seq_len(s.st, s.chain())))
    def C(s): return s.ex.term(s.st, s.chain())
    def top(s): return zi(s.ex.seq_at(s.st, s.chain(), simp(sub(simp(s.ex.seq_len(s.st, s.chain())), 1))).h)
    def cur(s): return zi(s.d("current_node").h)
    def h(s, f): return s.st.heap[f]
    def at(s, f, h): return exm.simpsel(s.st.heap[f], zi(h))
    def next(s): return zi(s.st.next())
    def anch(s, h): return z3.Select(s.st.ghost["anch"], h)
    def check(s):
        v = s.d("check_textnode"); return s.ex.ty.pack(s.L.DT["check_textnode"], v)
    def pend(s): return s.d("prev_chars")
    def special(s):
        """(is some, name term, depth)"""
        v = s.d("in_special")
        if isinstance(v, Agg):
            if v.v == 0: return False, None, None
            t = v.f[0]
            return True, s.ex.term(s.st, t.f[1]), zi(t.f[2])
        t = v.pay[1][0]
        return simp(zi(v.d) == 1), s.ex.term(s.st, t.f[1]), zi(t.f[2])
    def ids(s): return s.st.cells[s.d("id_tags").h]
    def idterm(s): return s.ex.pack(s.st, s.L.idmap, s.ids())

TAGMODES = ("name", "in")
def in_tag(mode): return mode[0] == "name" or (mode[0] == "in" and not mode[1])
def topexcl(mode): return in_tag(mode) or mode[0] == "raw"

def inv(V, mode, final=False):
    """clauses: (name, props, vars, body, patterns)"""
    L, K, ex = V.L, V.L.K, V.ex; C, n, nx, cur = V.C(), V.n(), V.next(), V.cur()
    qn = L.qn; out = []
    cat = lambda i: sat(C, i)
    def cl(name, props, body, vars=(), pats=None): out.append((name, set(props), vars, body, pats))
    H = V.h
    m0 = mode[0]
    Vi = z3.Int("vi"), z3.Int("vj")
    T = lambda h: z3.Select(H("node_type"), h)
    ch = lambda h: z3.Select(H("childs"), h)
    me = lambda h: z3.Select(H("meta"), h)
    et = lambda h: z3.Select(H("end_tag"), h)
    co = lambda h: z3.Select(H("content"), h)
    top = V.top()
    CORE = {"C01", "C03", "C05"}
    cl("the document root is the first node", CORE | {"C23"}, lambda: z3.And(zi(V.d("root").h) == 0, n >= 1, cat(z3.IntVal(0)) == 0, T(z3.IntVal(0)) == K["AbstractRoot"], V.at("root", 0) == 0, nx >= 1, V.anch(z3.IntVal(0))))
    cl("the open elements are elements of the tree", CORE, lambda i: z3.Implies(z3.And(1 <= i, i < n), z3.And(cat(i) > 0, cat(i) < nx, T(cat(i)) == K["Tag"], V.anch(cat(i)))), [I], lambda i: [cat(i)])
    cl("the open elements are in source order", CORE, lambda i, j: z3.Implies(z3.And(0 <= i, i < j, j < n), cat(i) < cat(j)), [I, I], lambda i, j: [z3.MultiPattern(cat(i), cat(j))])
    ex1 = (lambda i: i == n - 1) if m0 == "name" else (lambda i: z3.BoolVal(False))
    lastof = lambda h: L.child(ch(h), L.nch(ch(h)) - 1)
    cl("each open element is the last child of the one around it", {"C05", "C13", "C04"}, lambda i: z3.Implies(z3.And(0 <= i, i < n - 1), z3.And(L.nch(ch(cat(i))) >= 1, lastof(cat(i)) == cat(i + 1))), [I], lambda i: [ch(cat(i))])
    cl("open elements have a name", CORE, lambda i: z3.Implies(z3.And(1 <= i, i < n, z3.Not(ex1(i))), L.some_m(me(cat(i)))), [I], lambda i: [cat(i)])
    ex2 = (lambda i: i == n - 1) if topexcl(mode) else (lambda i: z3.BoolVal(False))
    cl("open elements are not void", {"C05"}, lambda i: z3.Implies(z3.And(1 <= i, i < n, z3.Not(ex2(i))), z3.Not(isvoid(L.mf(me(cat(i)), "name")))), [I], lambda i: [cat(i)])
    cl("open elements are not raw text elements", {"C09"}, lambda i: z3.Implies(z3.And(1 <= i, i < n, z3.Not(ex2(i))), z3.Not(israw(L.mf(me(cat(i)), "name")))), [I], lambda i: [cat(i)])
    # svg / math scope
    sp, nm, dep = V.special(); ntop = n - 1 if in_tag(mode) else n
    cl("no svg or math element is open outside the scope", {"C19"}, lambda i: z3.Implies(z3.And(Not(zb(sp)) if sp is not True else z3.BoolVal(False), 1 <= i, i < ntop), z3.Not(isspec(L.mf(me(cat(i)), "name")))), [I], lambda i: [cat(i)])
    if sp is not False and not final:
        cl("the scope belongs to the outermost open svg or math element", {"C19", "C01"}, lambda: z3.Implies(zb(sp), z3.And(dep >= 2, dep <= ntop, isspec(L.mf(me(cat(dep - 1)), "name")), nm == L.mf(me(cat(dep - 1)), "name"))))
        cl("no svg or math element encloses the scope", {"C19"}, lambda i: z3.Implies(z3.And(zb(sp), 1 <= i, i < dep - 1), z3.Not(isspec(L.mf(me(cat(i)), "name")))), [I], lambda i: [cat(i)])
    # links
    R3 = {"C03"}
    def lnk(h, j):
        k = L.child(ch(h), j)
        return z3.Implies(z3.And(0 <= h, h < nx, 0 <= j, j < L.nch(ch(h))), z3.And(h < k, k < nx, z3.Select(H("parent"), k) == h, z3.Select(H("index"), k) == j, z3.Select(H("root"), k) == 0, T(k) != K["AbstractRoot"], T(k) != K["TagEnd"], V.anch(k)))
    cl("child links", R3 | {"C01"}, lnk, [I, I], lambda h, j: [L.child(ch(h), j)])
    cl("only the root and elements have children", R3 | {"C01"}, lambda h: z3.Implies(z3.And(0 <= h, h < nx, L.nch(ch(h)) > 0), z3.And(z3.Or(T(h) == K["AbstractRoot"], T(h) == K["Tag"]), V.anch(h))), [I], lambda h: [ch(h)])
    cl("end tag links", R3 | {"C02"}, lambda h: z3.Implies(z3.And(0 <= h, h < nx, et(h) != -1), z3.And(T(h) == K["Tag"], et(h) > 0, et(h) < nx, T(et(h)) == K["TagEnd"], z3.Select(H("parent"), et(h)) == h, V.anch(et(h)), V.anch(h), L.some_c(co(et(h))))), [I], lambda h: [et(h)])
    cl("child lists are not empty", {"C02"}, lambda h: z3.Implies(z3.And(0 <= h, h < nx, L.ovec.recognizer(1)(ch(h))), L.nch(ch(h)) >= 1), [I], lambda h: [ch(h)])
    bg = lambda h: z3.Select(H("begin_at"), h)
    bound = zi(V.d("mem_position")) if m0 in ("lt", "bang") and not final else zi(V.d("position"))
    cl("nodes start before the current position and do not end before they start", {"C18"}, lambda h: z3.Implies(z3.And(0 <= h, h < nx), z3.And(0 <= bg(h), bg(h) <= bound, bg(h) <= z3.Select(H("end_at"), h))), [I], lambda h: [bg(h)])
    cl("children start after their parent", {"C18"}, lambda h, j: z3.Implies(z3.And(0 <= h, h < nx, 0 <= j, j < L.nch(ch(h))), bg(L.child(ch(h), j)) >= bg(h)), [I, I], lambda h, j: [L.child(ch(h), j)])
    cl("end tags start after their element", {"C18"}, lambda h: z3.Implies(z3.And(0 <= h, h < nx, et(h) != -1), bg(et(h)) >= bg(h)), [I], lambda h: [et(h)])
    cl("one root", R3, lambda h: z3.Implies(z3.And(0 < h, h < nx), T(h) != K["AbstractRoot"]), [I], lambda h: [T(h)])
    # content and meta of finished nodes
    def fin(h):
        pend = z3.BoolVal(False) if final else (h == cur if m0 in ("text", "name", "dname", "comment", "cdata") else z3.BoolVal(False))
        return z3.Implies(z3.And(0 <= h, h < nx, z3.Not(pend)), z3.And(z3.Implies(z3.Or(T(h) == K["Text"], T(h) == K["SpacesBetweenTag"]), L.some_c(co(h))), z3.Implies(z3.Or(T(h) == K["Tag"], T(h) == K["HTMLDOCTYPE"]), L.some_m(me(h)))))
    cl("texts have content, tags and doctypes have a name", {"C02", "C04"}, fin, [I], lambda h: [T(h)])
    cl("raw text and void elements have no children", {"C05", "C09"}, lambda h: z3.Implies(z3.And(0 <= h, h < nx, T(h) == K["Tag"], L.some_m(me(h)), z3.Or(isvoid(L.mf(me(h), "name")), israw(L.mf(me(h), "name")))), L.nch(ch(h)) == 0), [I], lambda h: [ch(h)])
    cl("void elements have no end tag", {"C05"}, lambda h: z3.Implies(z3.And(0 <= h, h < nx, T(h) == K["Tag"], L.some_m(me(h)), isvoid(L.mf(me(h), "name"))), et(h) == -1), [I], lambda h: [et(h)])
    cl("only raw text elements have content of their own", {"C04", "C17"}, lambda h: z3.Implies(z3.And(0 <= h, h < nx, T(h) == K["Tag"], L.some_c(co(h))), z3.And(L.some_m(me(h)), israw(L.mf(me(h), "name")))), [I], lambda h: [co(h)])
    cl("void flag", {"C05", "C14"}, lambda h: z3.Implies(z3.And(0 <= h, h < nx, L.some_m(me(h))), L.mf(me(h), "is_void") == isvoid(L.mf(me(h), "name"))), [I], lambda h: [me(h)])
    # names: what ended or cannot start them is not in them
    letter = lambda c: z3.Or(z3.And(c >= 65, c <= 90), z3.And(c >= 97, c <= 122))
    namech = lambda c: z3.And(z3.Not(zb(ws(c))), c != 47, c != 62)
    nameof = lambda h: L.mf(me(h), "name")
    NAMEP = {"C04", "C06", "C15"}
    cl("names start with a letter", NAMEP, lambda h: z3.Implies(z3.And(0 <= h, h < nx, T(h) == K["Tag"], L.some_m(me(h))), z3.And(QI.len(nameof(h)) >= 1, letter(AT(nameof(h), z3.IntVal(0))))), [I], lambda h: [me(h)])
    cl("names have no white space, '/' or '>'", NAMEP, lambda h, k: z3.Implies(z3.And(0 <= h, h < nx, T(h) == K["Tag"], L.some_m(me(h)), 0 <= k, k < QI.len(nameof(h))), namech(AT(nameof(h), k))), [I, I], lambda h, k: [AT(nameof(h), k)])
    if m0 == "name" and not final:
        PN = ex.term(V.st, V.pend())
        cl("the name starts with a letter", NAMEP, lambda: z3.And(QI.len(PN) >= 1, letter(AT(PN, z3.IntVal(0)))))
        cl("the name has no white space, '/' or '>'", NAMEP, lambda k: z3.Implies(z3.And(0 <= k, k < QI.len(PN)), namech(AT(PN, k))), [I], lambda k: [AT(PN, k)])
    # attribute name map
    keymode = m0 == "in" and mode[2] == "key" and not final
    def amap(h, a):
        at = L.qa.at(L.mf(me(h), "attrs"), a); pend = z3.And(h == cur, a == L.qa.len(L.mf(me(h), "attrs")) - 1) if keymode else z3.BoolVal(False)
        i = z3.Select(L.mf(me(h), "lc_name_map"), lower(L.akey(at)))
        return z3.Implies(z3.And(0 <= h, h < nx, L.some_m(me(h)), 0 <= a, a < L.qa.len(L.mf(me(h), "attrs")), L.ahas(at), z3.Not(pend)), z3.And(0 <= i, i <= a))
    cl("the name map has every key at its first position", {"C10"}, amap, [I, I], lambda h, a: [L.qa.at(L.mf(me(h), "attrs"), a)])
    def mapa(h, w):
        i = z3.Select(L.mf(me(h), "lc_name_map"), w); ln = L.qa.len(L.mf(me(h), "attrs")); at = L.qa.at(L.mf(me(h), "attrs"), i)
        return z3.Implies(z3.And(0 <= h, h < nx, L.some_m(me(h))), z3.And(i >= -1, z3.Implies(i != -1, z3.And(i < (ln - z3.If(h == cur, 1, 0) if keymode else ln), L.ahas(at), lower(L.akey(at)) == w))))
    cl("the name map has nothing else", {"C10", "C01"}, mapa, [I, SI], lambda h, w: [z3.Select(L.mf(me(h), "lc_name_map"), w)])
    # id map
    idt = V.idterm()
    def idc(h, a):
        at = L.qa.at(L.mf(me(h), "attrs"), a)
        pend = z3.And(h == cur, a == L.qa.len(L.mf(me(h), "attrs")) - 1) if m0 == "in" and mode[2] == "val" and not final else z3.BoolVal(False)
        return z3.Implies(z3.And(0 <= h, h < nx, L.some_m(me(h)), 0 <= a, a < L.qa.len(L.mf(me(h), "attrs")), L.ahas(at), isid(L.akey(at)), L.ahas(at, "value"), z3.Not(pend)), z3.Select(idt, L.aval(at)) != -1)
    cl("every id is in the id map", {"C11"}, idc, [I, I], lambda h, a: [L.qa.at(L.mf(me(h), "attrs"), a)])
    cl("the id map holds nodes", {"C11", "C01"}, lambda w: z3.And(z3.Select(idt, w) >= -1, z3.Select(idt, w) < nx), [SI], lambda w: [z3.Select(idt, w)])
    idw = V.st.ghost["idw"]
    def idx(w):
        h, a = z3.Select(idt, w), z3.Select(idw, w); A_ = L.mf(me(h), "attrs"); at = L.qa.at(A_, a)
        return z3.Implies(h != -1, z3.And(h >= 0, h < nx, L.some_m(me(h)), 0 <= a, a < L.qa.len(A_), L.ahas(at), isid(L.akey(at)), L.ahas(at, "value"), L.aval(at) == w))
    cl("a node found by id has that id", {"C11"}, idx, [SI], lambda w: [z3.Select(idt, w)])
    # current node and buffers
    pos, mem = zi(V.d("position")), zi(V.d("mem_position")); P_ = V.pend(); plen = zi(simp(ex.seq_len(V.st, P_)))
    tc = V.at("node_type", cur); ck = V.check()
    MODE = {"C01", "C04"}
    lastch = lambda x: z3.And(L.nch(ch(top)) >= 1, L.child(ch(top), L.nch(ch(top)) - 1) == x)
    cl("current node", MODE, lambda: z3.And(cur >= 0, cur < nx, top >= 0, top < nx, pos >= 0))
    isT = lambda x: T(x) == K["Text"]
    if final: return out
    endtext = z3.And(L.nch(ch(top)) >= 1, isT(lastof(top)))     # a text ends the innermost open element
    blank = lambda: ck == z3.If(z3.And(endtext, allws(L.con(co(lastof(top))))), lastof(top), z3.IntVal(-1))
    if m0 in ("comment", "cdata", "dname") or (m0 == "in" and mode[1]): cl("the node being read is the last child of the innermost open element", {"C04", "C05", "C13"}, lambda: lastch(cur))
    if m0 in ("wait", "lt", "bang"):
        cl("the current node is in the tree", {"C01", "C07"}, lambda: z3.And(V.anch(cur), tc != K["SpacesBetweenTag"]))
        cl("a current text is the last child of the innermost open element", {"C07", "C08"}, lambda: z3.Implies(isT(cur), lastch(cur)))
        if m0 == "wait": cl("a text is left open only before an ignored end tag", {"C07", "C08"}, lambda: z3.Implies(isT(cur), zb(V.opt("auto_fix_unexpected_endtag"))))
        cl("a text that ends the innermost open element is the current node", {"C13", "C07", "C08"}, lambda: z3.Implies(endtext, cur == lastof(top)))
        cl("a blank text is remembered until the next tag", {"C13"}, blank)
        if m0 != "bang": cl("no characters are pending", MODE | {"C09", "C10"}, lambda: plen == 0)
    if m0 == "lt": cl("the '<' is the character before", {"C12", "C23"}, lambda: mem == pos - 1)
    if m0 == "bang":
        cl("the '<' position is kept", {"C12", "C23"}, lambda: mem == pos - 2 - mode[2])
        k = mode[2]; kw = mode[1]
        def bp():
            if kw is None: return plen == 0
            return z3.And(plen == k, *[zi(models.uc(ex.seq_at(V.st, P_, i))) == ord(kw[i]) for i in range(k)])
        cl("the characters of the keyword", MODE | {"C12"}, bp)
    if m0 == "text":
        cl("the current node is a text of the innermost open element", MODE | {"C05", "C13"}, lambda: z3.And(V.anch(cur), isT(cur), lastch(cur), plen >= 1))
        cl("the blank flag tells whether the text is blank", {"C13"}, lambda: zb(V.d("repeat_whitespace")) == allws(ex.term(V.st, P_)))
        cl("remembered text", {"C01"}, lambda: z3.And(ck >= -1, ck < nx))
    if m0 in ("name", "in", "raw", "dname", "comment", "cdata"):
        cl("no text is remembered", {"C13"}, lambda: ck == -1)
    if m0 == "name":
        cl("the new element is the innermost open one", MODE | {"C05"}, lambda: z3.And(cur == top, n >= 2, z3.Not(L.some_m(V.at("meta", cur))), L.nch(V.at("childs", cur)) == 0, V.at("end_tag", cur) == -1, z3.Not(L.some_c(V.at("content", cur))), plen >= 1))
    if m0 == "dname":
        cl("a new doctype", MODE, lambda: z3.And(tc == K["HTMLDOCTYPE"], V.anch(cur), z3.Not(L.some_m(V.at("meta", cur)))))
        cl("the doctype keyword", {"C04"}, lambda: z3.And(plen == 7, *[zi(models.uc(ex.seq_at(V.st, P_, i))) == ord("DOCTYPE"[i]) for i in range(7)]))
    if m0 == "in":
        doct, sub_ = mode[1], mode[2]
        A_ = L.mf(V.at("meta", cur), "attrs"); al = L.qa.len(A_); la = L.qa.at(A_, al - 1)
        if doct: cl("a doctype is being read", MODE, lambda: z3.And(tc == K["HTMLDOCTYPE"], V.anch(cur), L.some_m(V.at("meta", cur)), z3.Not(isvoid(L.mf(V.at("meta", cur), "name"))), z3.Not(israw(L.mf(V.at("meta", cur), "name"))), z3.Not(isspec(L.mf(V.at("meta", cur), "name")))))
        else: cl("the element being read is the innermost open one", MODE | {"C05", "C10"}, lambda: z3.And(cur == top, n >= 2, L.some_m(V.at("meta", cur)), L.nch(V.at("childs", cur)) == 0, V.at("end_tag", cur) == -1, z3.Not(L.some_c(V.at("content", cur)))))
        cl("not closed yet", {"C04", "C05"}, lambda: z3.Not(L.mf(V.at("meta", cur), "self_closed")))
        if sub_ == "key": cl("an attribute without value is being read", MODE | {"C10"}, lambda: z3.And(al >= 1, L.ahas(la), z3.Not(L.ahas(la, "value")), plen >= 1))
        elif sub_ == "aft" or (sub_ == "slash" and mode[3]) or sub_ == "wv": cl("the last attribute has no value yet", MODE | {"C10"}, lambda: z3.And(al >= 1, L.ahas(la), z3.Not(L.ahas(la, "value")), plen == 0))
        elif sub_ == "val":
            mk_ = zi(V.d("mark_char"))
            cl("a value is being read", MODE | {"C10"}, lambda: z3.And(al >= 1, z3.Or(mk_ == 32, mk_ == 34, mk_ == 39), z3.Implies(mk_ == 32, plen >= 1), z3.Implies(z3.Not(L.ahas(la)), mk_ != 32) if doct else L.ahas(la), z3.Implies(L.ahas(la), z3.Not(L.ahas(la, "value")))))
        else: cl("no characters are pending", MODE | {"C10"}, lambda: plen == 0)
    if m0 == "raw":
        dt = V.d("detect")
        def rawc():
            nmt = L.mf(V.at("meta", cur), "name")
            if not isinstance(dt, Agg) or dt.v != 1: return z3.BoolVal(False)
            e = ex.seq_eq(dt.f[0], SeqV(ex.ty.chart, [("e", 60), ("e", 47), ("s", nmt)]), V.st)
            return z3.And(cur == top, n >= 2, L.some_m(V.at("meta", cur)), L.nch(V.at("childs", cur)) == 0, V.at("end_tag", cur) == -1, z3.Not(L.some_c(V.at("content", cur))), israw(nmt), zb(e))
        cl("the raw text element is the innermost open one and its end tag is awaited", MODE | {"C09", "C05"}, rawc)
    if m0 in ("comment", "cdata"):
        cl("the closing mark", MODE, lambda: zi(V.d("mark_char")) == (45 if m0 == "comment" else 93))
        cl("a comment or CDATA section is being read", MODE, lambda: z3.And(tc == K["Comment" if m0 == "comment" else "XMLCDATA"], V.anch(cur)))
    if m0 == "tagend":
        pv = z3.Select(H("prev"), cur); fe = zb(V.opt("auto_fix_unexpected_endtag"))
        cl("an end tag is the last thing read", {"C18"}, lambda h: z3.Implies(z3.And(0 <= h, h < nx), bg(h) <= bg(cur)), [I], lambda h: [bg(h)])
        cl("a new end tag", MODE | {"C03", "C05"}, lambda: z3.And(tc == K["TagEnd"], cur > 0, z3.Not(V.anch(cur))))
        cl("the node before an end tag is known", {"C01", "C07"}, lambda: z3.Implies(fe, z3.And(pv >= 0, pv < nx, pv != cur, V.anch(pv), T(pv) != K["SpacesBetweenTag"], z3.Implies(isT(pv), lastch(pv)))))
        cl("a text that ends the innermost open element is the node before the end tag", {"C07"}, lambda: z3.Implies(z3.And(fe, endtext), pv == lastof(top)))
        cl("a blank text is remembered until the next tag", {"C13"}, blank)
    return out

def assume(st, cls, points=()):
    """the clauses: quantified for the proofs, at the given points for the feasibility queries"""
    for name, props, vars, body, pats in cls:
        if not vars: st.pc.append(zb(body())); continue
        vs = [z3.Const("q%d_%s" % (i, so.name()), so) for i, so in enumerate(vars)]
        q = z3.ForAll(vs, body(*vs), patterns=pats(*vs), qid=name.replace(" ", "_")); QUANT[q.get_id()] = q; st.pc.append(q)
    st.ghost["clauses"] = [(vars, body) for name, props, vars, body, pats in cls if vars]
    for name, props, vars, body, pats in cls:
        for pt in points:
            if len(pt) == len(vars) and all(x.sort() == so for x, so in zip(pt, vars)): addfact(st, zb(body(*pt)))
def goals(cls, tag=""):
    for name, props, vars, body, pats in cls:
        vs = [fresh(so, "sk") for so in vars]
        yield name, props, zb(body(*vs))

# ---------------------------------------------------------------- pre-state
def prestate(ex, L, ctl, mode):
    """an arbitrary document state of the mode with the given control"""
    st = St(); st.nbase = z3.Int("next0"); st.pc.append(z3.And(st.nbase >= 1, st.nbase < ISIZE))
    for n, t in ex.node_fields: st.heap[n] = z3.Const("H_" + n, z3.ArraySort(I, ex.ty.sort(t)))
    st.ghost["anch"] = z3.Const("anch", z3.ArraySort(I, B)); st.ghost["idw"] = z3.Const("idw", z3.ArraySort(SI, I))
    T = ex.ty
    C = z3.Const("chain", L.qn.S); n = L.qn.len(C); st.pc.append(z3.And(n >= 1, n < ISIZE))
    rct = T.elem(L.DT["chain_nodes"])
    top = L.qn.at(C, n - 1)
    cur = z3.simplify(top) if in_tag(mode) or mode[0] == "raw" else z3.Int("cur")
    PEND = z3.Const("pending", SI); pos = z3.Int("position")
    m0 = mode[0]
    def chs(k): 
        v = [z3.Int("p%d" % i) for i in range(k)]
        for x in v: st.pc.append(z3.And(x >= 0, x <= 0x10FFFF))
        return SeqV(T.chart, [("e", x) for x in v])
    if m0 == "bang": pend = chs(mode[2])
    elif m0 == "dname": pend = chs(7)
    elif m0 in ("wait", "lt") or (m0 == "in" and mode[2] in ("gap", "aft", "slash", "wv")): pend = SeqV(T.chart)
    else: pend = SeqV(T.chart, [("s", PEND)])
    hname, hsym, code_in, tcode, det = ctl
    KNOWN.clear()
    def known(f, h, v):
        t = z3.Select(st.heap[f], h); st.pc.append(t == v); KNOWN[t.get_id()] = (t, v)
    META = None
    if m0 in ("in", "raw"):
        # the data of the tag being read, field by field
        attrs = SeqV(L.attrt, [("s", z3.Const("attrs", L.qa.S))])
        if m0 == "in" and mode[2] in ("key", "val", "aft", "wv") or (m0 == "in" and mode[2] == "slash" and mode[3]):
            u = lambda n, so: z3.Const(n, so); some = lambda n: L.odat.constructor(1)(L.dat.constructor(0)(z3.Const(n, SI))); none = L.odat.constructor(0)()
            key = some("last_key") if not (mode[1] and mode[2] == "val") else u("last_okey", L.odat)
            val = none if not (mode[1] and mode[2] == "val") else u("last_oval", L.odat)
            d_ = dict(key=key, value=val)
            la = L.attr.constructor(0)(*[d_.get(f) if f in d_ else z3.Const("last_" + f, T.sort(L.AT[f])) for f, i in sorted(L.A.items(), key=lambda x: x[1])])
            bef = z3.Const("attrs_before", L.qa.S); attrs = SeqV(L.attrt, [("s", bef), ("e", T.unpack(L.attrt, la, st))])
            i_ = z3.Int("i"); full = ex.pack(st, L.MT["attrs"], attrs)
            st.pc.append(z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < L.qa.len(bef)), L.qa.at(full, i_) == L.qa.at(bef, i_)), patterns=[L.qa.at(bef, i_)]))
        fs = []
        for f, i in sorted(L.M.items(), key=lambda x: x[1]):
            if f == "code_in" and tcode is not None: fs.append(z3.IntVal(tcode))
            elif f == "attrs": fs.append(ex.pack(st, L.MT["attrs"], attrs))
            else: fs.append(z3.Const("tag_" + f, T.sort(L.MT[f])))
        known("meta", cur, L.ometa.constructor(1)(L.meta.constructor(0)(*fs)))
    elif m0 in ("name", "dname"): known("meta", cur, L.ometa.constructor(0)())
    if m0 in ("name", "dname"): st.pc.extend(name_facts(ex.term(st, pend)))
    if m0 in ("in", "raw"): st.pc.extend(name_facts(z3.Const("tag_name", SI)))
    if m0 == "in" and mode[2] == "val": st.pc.extend(name_facts(L.akey(la))[-1:])
    d = {}
    d["code_in"] = Agg(L.DT["code_in"], T.var_of(L.DT["code_in"], code_in), ())
    d["position"] = pos; st.pc.append(z3.And(pos >= 0, pos < ISIZE))
    d["mem_position"] = z3.Int("mem"); st.pc.append(z3.And(z3.Int("mem") >= 0, z3.Int("mem") < ISIZE))
    if det == "none": d["detect"] = Agg(L.DT["detect"], 0, ())
    elif det == "sym":
        if m0 == "raw":
            nm = L.mf(exm.simpsel(st.heap["meta"], cur), "name")
            d["detect"] = Agg(L.DT["detect"], 1, (SeqV(T.chart, [("e", 60), ("e", 47), ("s", nm)]),))
        else: d["detect"] = Agg(L.DT["detect"], 1, (SeqV(T.chart, [("s", z3.Const("detect", SI))]),))
    else: d["detect"] = Agg(L.DT["detect"], 1, (ex.chars(det),))
    d["prev_chars"] = pend
    mk_ = z3.Int("mark"); d["mark_char"] = mk_; st.pc.append(z3.And(mk_ >= 0, mk_ <= 0x10FFFF))
    d["chain_nodes"] = SeqV(rct, [("s", C)])
    d["current_node"] = RcV("node", cur)
    so = z3.Int("special_some"); st.pc.append(z3.And(so >= 0, so <= 1))
    tt = T[L.DT["in_special"]]["a"][0]; sk = z3.Int("special_kind"); sd = z3.Int("special_depth")
    st.pc.append(z3.And(sk >= 0, sk <= 1, sd >= 0, sd < ISIZE))
    if T[tt]["k"] != "tuple" or len(T[tt]["f"]) != 3: raise Unsupported("shape of Doc.in_special")
    d["in_special"] = SEnum(L.DT["in_special"], so, {1: (Agg(tt, 0, (SEnum(T[tt]["f"][0], sk, {}), SeqV(T.chart, [("s", z3.Const("special_name", SI))]), sd)),)})
    d["repeat_whitespace"] = z3.Bool("blank")
    d["check_textnode"] = T.unpack(L.DT["check_textnode"], z3.Int("check"), st)
    d["handle"] = FnV(hsym, hname)
    d["parse_options"] = Agg(L.optt, 0, [z3.Bool("o_" + f[0]) for f in T[L.optt]["v"][0]["f"]])
    d["root"] = RcV("node", 0)
    idc = ex.newcell(st, MapV(T[L.idmap]["a"][0], T[L.idmap]["a"][1], z3.Const("ids", T.sort(L.idmap))))
    d["id_tags"] = RcV("cell", idc)
    fs = []
    for f, t in T[L.doct]["v"][0]["f"]:
        if f in d: fs.append(d[f])
        elif T.isvec(t): fs.append(SeqV(T.elem(t), [("s", z3.Const("doc_" + f, T.sort(t)))]))
        elif T[t]["k"] in ("bool", "char", "int", "uint"):
            x = z3.Const("doc_" + f, T.sort(t)); o = []; T.facts(t, x, None, o); st.pc.extend(o); fs.append(x)
        else: fs.append(Opq("doc_" + f))
    cell = ex.newcell(st, Agg(L.doct, 0, fs))
    V = View(ex, L, st, cell)
    ck = V.check(); one = [n - 1, z3.IntVal(0), cur, top, ck]
    if m0 == "tagend": one.append(z3.Select(st.heap["prev"], cur))
    chn = z3.Select(st.heap["childs"], top); A_ = L.mf(exm.simpsel(st.heap["meta"], cur), "attrs"); al = L.qa.len(A_)
    pts = [(x,) for x in one] + [(sd - 1,), (top, L.nch(chn) - 1), (top, z3.IntVal(0)), (cur, al - 1), (z3.IntVal(0), n - 1), (n - 2, n - 1), (cur, lower(PEND)), (PEND,), (L.child(chn, z3.IntVal(0)),), (L.child(chn, L.nch(chn) - 1),)]
    assume(st, inv(V, mode), pts)
    st.pc.append(z3.And(st.nbase + 4 < ISIZE, n + 2 < ISIZE))
    return V

# ---------------------------------------------------------------- the specification of one step
class Eff:
    """expected result of a step"""
    def __init__(s, V, g, name, props):
        s.V, s.g, s.name, s.props = V, g, name, set(props)
        s.mode = None; s.err = None; s.errp = {"C12"}; s.cur = None; s.pend = None; s.chain = "keep"
        s.H = dict(V.st.heap); s.free = set(); s.new = None; s.ids = None; s.special = "keep"; s.extra = []; s.anyend = set()
    def copy(s):
        e = Eff(s.V, s.g, s.name, s.props); e.__dict__.update({k: (dict(v) if isinstance(v, dict) else set(v) if isinstance(v, set) else list(v) if isinstance(v, list) else v) for k, v in s.__dict__.items()}); return e
    def set(s, f, h, v): s.H[f] = z3.Store(s.H[f], h, v); return s
    def at(s, f, h): return exm.simpsel(s.H[f], h)

def meta_with(L, m, **kw):
    """packed meta m with some fields replaced"""
    so = L.meta
    return so.constructor(0)(*[kw.get(f, simpacc(so.accessor(0, i), m)) for f, i in sorted(L.M.items(), key=lambda x: x[1])])
def attr_with(L, a, **kw):
    so = L.attr
    return so.constructor(0)(*[kw[f] if f in kw else simpacc(so.accessor(0, i), a) for f, i in sorted(L.A.items(), key=lambda x: x[1])])

def cases(V, mode, c):
    L, K, ex, st = V.L, V.L.K, V.ex, V.st; m0 = mode[0]; T = ex.ty
    pos, mem, cur, top, n = zi(V.d("position")), zi(V.d("mem_position")), V.cur(), V.top(), V.n()
    W = zb(ws(c)); GT, LT, SL, EQ = c == 62, c == 60, c == 47, c == 61; QU = z3.Or(c == 34, c == 39)
    Pd = V.pend(); P_ = ex.term(st, Pd); O = V.opt; NEW = V.next()
    app = lambda v, *es: SeqV(T.chart, v.segs + tuple(("e", e) for e in es))
    EMPTY = SeqV(T.chart); ck = V.check()
    sp, spn, spd = V.special(); sp = zb(sp)
    out = []
    def E(g, name, props=(), mode=mode):
        e = Eff(V, g, name, props); e.mode = mode; out.append(e); return e
    def err(g, name, at, props):
        e = E(g, name, props, None); e.err = at; return e
    def newnode(e, kind, begin, h=None, parent=None, seq=True):
        h = NEW if h is None else h; par = top if parent is None else parent
        e.new = (h, K[kind])
        e.set("node_type", h, z3.IntVal(K[kind])).set("begin_at", h, begin)
        e.free.add(("end_at", h))
        none = lambda f: T.sort(L.NT[f]).constructor(0)()
        for f in ("content", "childs", "meta"): e.set(f, h, none(f))
        for f in ("end_tag", ): e.set(f, h, z3.IntVal(-1))
        e.free.add(("prev", h)); e.free.add(("document", h))
        if kind != "TagEnd":
            old = z3.Select(V.h("childs"), par)
            ln = L.nch(old)
            e.set("parent", h, par).set("root", h, z3.IntVal(0)).set("index", h, ln)
            a = ex.pack(st, T[L.NT["childs"]]["a"][0], SeqV(T.elem(T[L.NT["childs"]]["a"][0]), [("s", L.ovec.accessor(1, 0)(old)), ("e", RcV("node", h))]))
            b = ex.pack(st, T[L.NT["childs"]]["a"][0], SeqV(T.elem(T[L.NT["childs"]]["a"][0]), [("e", RcV("node", h))]))
            e.set("childs", par, L.ovec.constructor(1)(z3.If(L.ovec.recognizer(1)(old), a, b)))
        else:
            for f in ("parent", "root", "index"): e.free.add((f, h))
        return h
    def settle(e, cond=True):
        """the remembered blank text is whitespace between tags"""
        cnd = z3.And(ck != -1, zb(cond))
        e.H["node_type"] = z3.If(cnd, z3.Store(e.H["node_type"], ck, z3.IntVal(K["SpacesBetweenTag"])), e.H["node_type"])
    isText = V.at("node_type", cur) == K["Text"]
    con_cur = L.con(z3.Select(V.h("content"), cur))
    def text_end(e, content):
        e.set("content", cur if e.cur is None else e.cur, L.oc(content)).set("end_at", cur if e.cur is None else e.cur, pos)
        e.pend = EMPTY
    if m0 == "wait":
        e = E(LT, "'<'", mode=("lt",)); e.pend = EMPTY; e.cur = cur
        fe = zb(O("auto_fix_unexpected_endtag"))
        e = E(z3.And(z3.Not(LT), fe, isText), "the text goes on after an ignored end tag", {"C07"}, ("text",))
        e.cur = cur; e.pend = SeqV(T.chart, [("s", con_cur), ("e", c)]); e.free.add(("content", cur))
        e = E(z3.And(z3.Not(LT), z3.Not(z3.And(fe, isText))), "a text starts", {"C04"}, ("text",))
        e.cur = newnode(e, "Text", pos); e.pend = app(EMPTY, c); e.free.add(("content", NEW))
    elif m0 == "text":
        e = E(LT, "'<' ends the text", {"C04"}, ("lt",)); e.cur = cur; text_end(e, P_)
        e = E(z3.Not(LT), "a character of the text", {"C04"}); e.cur = cur; e.pend = app(Pd, c); e.free.add(("content", cur))
    elif m0 == "lt":
        letter = z3.Or(z3.And(c >= 65, c <= 90), z3.And(c >= 97, c <= 122))
        e = E(letter, "a start tag", {"C04", "C05"}, ("name",)); e.cur = newnode(e, "Tag", mem); e.chain = "push"; e.pend = app(EMPTY, c); settle(e)
        e = E(SL, "an end tag", {"C05"}, ("tagend",)); e.cur = newnode(e, "TagEnd", mem); e.pend = EMPTY
        e.extra.append(("the node before the end tag is recorded", {"C07"}, lambda V2: z3.Implies(zb(O("auto_fix_unexpected_endtag")), V2.at("prev", NEW) == cur)))
        e = E(c == 33, "'<!'", mode=("bang", None, 0)); e.cur = cur; e.pend = EMPTY
        other = z3.Not(z3.Or(letter, SL, c == 33)); fl = zb(O("auto_fix_unescaped_lt"))
        err(z3.And(other, z3.Not(fl)), "a bare '<' is rejected", mem, {"C08"})
        amp = [38, 108, 116, 59]
        for tx in (True, False):
            for lt_ in (True, False):
                e = E(z3.And(other, fl, isText if tx else z3.Not(isText), LT if lt_ else z3.Not(LT)), "a bare '<' is kept as text", {"C08"}, ("lt",) if lt_ else ("text",))
                if tx: base = [("s", con_cur)] + [("e", x) for x in amp]; e.cur = cur
                else: base = [("e", x) for x in amp]; e.cur = newnode(e, "Text", mem)
                if lt_: text_end(e, ex.term(st, SeqV(T.chart, base)))
                else: e.pend = SeqV(T.chart, base + [("e", c)]); e.free.add(("content", e.cur))
    elif m0 == "bang":
        kw, k = mode[1], mode[2]
        if kw is None:
            E(c == 45, "'<!-'", mode=("bang", "--", 1)).pend = app(EMPTY, c)
            E(z3.Or(c == 68, c == 100), "'<!d'", mode=("bang", "DOCTYPE", 1)).pend = app(EMPTY, c)
            nm = L.mf(z3.Select(V.h("meta"), top), "name")
            ok = z3.And(sp, spn != nm)
            E(z3.And(c == 91, ok), "'<!['", {"C19"}, ("bang", "[CDATA[", 1)).pend = app(EMPTY, c)
            err(z3.And(c == 91, z3.Not(ok)), "CDATA outside svg or math", pos, {"C19"})
            err(z3.Not(z3.Or(c == 45, c == 68, c == 100, c == 91)), "an unknown '<!'", mem, {"C04"})
        else:
            hit = models.uc(c) == ord(kw[k])
            err(z3.Not(hit), "a wrong keyword after '<!'", mem, {"C04"})
            if k + 1 < len(kw): E(hit, "a character of the keyword", mode=("bang", kw, k + 1)).pend = app(Pd, c)
            elif kw == "DOCTYPE":
                e = E(hit, "a doctype", {"C04"}, ("dname",)); e.cur = newnode(e, "HTMLDOCTYPE", mem); e.pend = app(Pd, c); settle(e)
            else:
                kind = "Comment" if kw == "--" else "XMLCDATA"
                e = E(hit, "a comment" if kw == "--" else "a CDATA section", {"C04"}, ("comment",) if kw == "--" else ("cdata",)); e.cur = newnode(e, kind, mem); e.pend = EMPTY; settle(e); e.free.add(("content", NEW))
        for e in out:
            if e.cur is None: e.cur = cur
    elif m0 in ("comment", "cdata"):
        q = 45 if m0 == "comment" else 93; pl = QI.len(P_)
        fin = z3.And(GT, pl >= 2, AT(P_, pl - 1) == q, AT(P_, pl - 2) == q)
        e = E(fin, "the end of a comment or CDATA section", {"C04"}, ("wait",)); e.cur = "nontext"; e.pend = EMPTY
        e.set("content", cur, L.oc(ssub(P_, z3.IntVal(0), pl - 2)))
        if m0 == "comment": e.set("end_at", cur, pos + 1)
        else: e.free.add(("end_at", cur))
        e = E(z3.Not(fin), "a character of a comment or CDATA section", {"C04"}); e.cur = cur; e.pend = app(Pd, c); e.free.add(("content", cur))
    elif m0 == "raw":
        D = V.d("detect"); D = ex.term(st, D.f[0]); dl = QI.len(D); t = spec.trimlen(P_); off = t - dl
        lm = z3.If(zb(O("case_sensitive_tagname")), spec.lmis(D, P_, off), spec.lmisi(D, P_, off))
        fin = z3.And(GT, t >= dl, lm == 0)
        e = E(fin, "the end tag of a raw text element", {"C09"}, ("wait",)); e.cur = "nontext"; e.pend = EMPTY; e.chain = "pop"
        newnode(e, "TagEnd", pos); e.free.add(("begin_at", NEW)); e.free.discard(("parent", NEW)); e.set("parent", NEW, cur)
        e.set("end_tag", cur, NEW).set("content", cur, L.oc(ssub(P_, z3.IntVal(0), off))).set("content", NEW, L.oc(ssub(P_, off + 2, QI.len(P_)))); e.free.add(("end_at", cur))
        e = E(z3.Not(fin), "a character of raw text", {"C09"}); e.cur = cur; e.pend = app(Pd, c)
    elif m0 == "tagend":
        tm = z3.Select(V.h("meta"), top); nm = L.mf(tm, "name"); tr = ssub(P_, z3.IntVal(0), spec.trimlen(P_))
        match = z3.And(n > 1, lower(nm) == lower(tr)); cs_ = zb(O("case_sensitive_tagname")); fe = zb(O("auto_fix_unexpected_endtag"))
        e = E(z3.Not(GT), "a character of an end tag", {"C04", "C05"}); e.cur = cur; e.pend = app(Pd, c); e.free.add(("content", cur))
        err(z3.And(GT, match, cs_, nm != tr), "an end tag in the wrong letter case", pos, {"C05", "C07"})
        e = E(z3.And(GT, match, z3.Not(z3.And(cs_, nm != tr))), "an end tag closes the innermost element", {"C05"}, ("wait",))
        e.cur = "nontext"; e.pend = EMPTY; e.chain = "pop"; e.set("end_tag", top, cur).set("content", cur, L.oc(P_)).set("parent", cur, top); e.free.add(("end_at", cur)); e.free.add(("root", cur)); e.free.add(("index", cur))
        kids = z3.Select(V.h("childs"), top)
        only = z3.And(L.nch(kids) == 1, V.at("node_type", L.child(kids, z3.IntVal(0))) == K["Text"])
        settle(e, z3.Not(only)); e.special = ("clear", z3.And(sp, n - 1 < spd))
        err(z3.And(GT, z3.Not(match), z3.Not(fe)), "an unexpected end tag is rejected", pos, {"C05", "C07"})
        e = E(z3.And(GT, z3.Not(match), fe), "an unexpected end tag is ignored", {"C07"}, ("wait",)); e.cur = z3.Select(V.h("prev"), cur); e.pend = EMPTY
        for f in ("content", "parent", "root", "index", "end_at"): e.free.add((f, cur))
    elif m0 in ("name", "dname", "in"): tagcases(V, mode, c, out, E, err)
    return out

def tagcases(V, mode, c, out, E, err):
    L, K, ex, st = V.L, V.L.K, V.ex, V.st; m0 = mode[0]; T = ex.ty
    pos, cur, n = zi(V.d("position")), V.cur(), V.n()
    W = zb(ws(c)); GT, SL, EQ = c == 62, c == 47, c == 61; QU = z3.Or(c == 34, c == 39)
    Pd = V.pend(); P_ = ex.term(st, Pd); O = V.opt; EMPTY = SeqV(T.chart)
    app = lambda v, *es: SeqV(T.chart, v.segs + tuple(("e", e) for e in es))
    sp, spn, spd = V.special(); sp = zb(sp)
    M0 = simpacc(L.ometa.accessor(1, 0), V.at("meta", cur))
    setm = lambda e, m: e.set("meta", cur, L.ometa.constructor(1)(m))
    getm = lambda e: simpacc(L.ometa.accessor(1, 0), e.at("meta", cur))
    aso = L.qa
    none = L.odat.constructor(0)(); some = lambda t: L.odat.constructor(1)(L.dat.constructor(0)(t))
    oq = T.sort(L.AT["quote"]); qnone = oq.constructor(0)(); qsome = lambda x: oq.constructor(1)(x)
    vt = L.MT["attrs"]
    def close(e, doct, selfc, name):
        """'>' of a start tag or doctype; e: the state so far"""
        r = []
        def br(g, label, props, mode):
            f = e.copy(); f.g = z3.And(e.g, g); f.name = e.name + label; f.props |= props; f.mode = mode; f.pend = EMPTY; out.append(f); return f
        T_ = z3.BoolVal(True)
        if doct:
            f = br(T_, ", the end of a doctype", {"C04"}, ("wait",)); f.cur = "nontext"; f.free.add(("end_at", cur))
            if selfc: setm(f, meta_with(L, getm(f), self_closed=T_))
            return
        v, rw = isvoid(name), israw(name)
        if selfc:
            ok = z3.Or(zb(O("allow_self_closing")), v, sp)
            f = br(z3.Not(ok), ", '/>' not allowed here", {"C05", "C19"}, None); f.err = pos
            f = br(ok, ", '/>' closes the element", {"C05", "C19"}, ("wait",)); f.cur = "nontext"; f.chain = "pop"; f.free.add(("end_at", cur)); setm(f, meta_with(L, getm(f), self_closed=T_))
            return
        f = br(v, ", a void element", {"C05"}, ("wait",)); f.cur = "nontext"; f.chain = "pop"; f.free.add(("end_at", cur))
        f = br(z3.And(z3.Not(v), rw), ", a raw text element", {"C09"}, ("raw",)); f.cur = cur; f.free.add(("end_at", cur))
        f = br(z3.And(z3.Not(v), z3.Not(rw)), ", an element is open", {"C05"}, ("wait",)); f.cur = "nontext"; f.free.add(("end_at", cur))
        f.special = ("set", z3.And(z3.Not(sp), isspec(name)), name, n)
    if m0 in ("name", "dname"):
        m = L.meta.constructor(0)(*[{"code_in": L.mf(V.at("meta", cur), "code_in"), "is_void": isvoid(P_), "self_closed": z3.BoolVal(False), "auto_fix": z3.BoolVal(False), "name": P_, "attrs": aso.empty, "lc_name_map": z3.K(SI, z3.IntVal(-1))}[f] for f, i in sorted(L.M.items(), key=lambda x: x[1])])
        def fin(g, name, props, mode):
            e = Eff(V, g, name, props); e.mode = mode; setm(e, m); e.cur = cur; e.pend = EMPTY; return e
        if m0 == "dname":
            out.append(fin(W, "the doctype keyword ends", {"C04"}, ("in", True, "gap")))
            err(z3.Not(W), "no space after the doctype keyword", pos, {"C04"})
            return
        end = z3.Or(GT, SL, W)
        e = E(z3.Not(end), "a character of the tag name", {"C04", "C05"}); e.cur = cur; e.pend = app(Pd, c)
        close(fin(GT, "the tag name ends", {"C04", "C05"}, None), False, False, P_)
        out.append(fin(SL, "the tag name ends, '/'", {"C04", "C05"}, ("in", False, "slash", False)))
        out.append(fin(W, "the tag name ends", {"C04", "C05"}, ("in", False, "gap")))
        return
    doct, sub_ = mode[1], mode[2]; aft = sub_ == "aft" or (sub_ == "slash" and mode[3])
    name = L.mf(V.at("meta", cur), "name")
    A_ = simpacc(L.meta.accessor(0, L.M["attrs"]), M0); SA = T.unpack(vt, A_); al = zi(simp(ex.seq_len(st, SA)))
    if SA.segs and SA.segs[-1][0] == "e": la = ex.pack(st, L.attrt, SA.segs[-1][1]); rest = SA.segs[:-1]
    else: la = aso.at(A_, al - 1); rest = (("s", ssub(A_, z3.IntVal(0), al - 1)),)
    mp = simpacc(L.meta.accessor(0, L.M["lc_name_map"]), M0)
    def start(g, nm, mode, props={"C10"}):
        e = Eff(V, g, nm, props); e.mode = mode; e.cur = cur; return e
    def seqt(v): return ex.pack(st, vt, v)
    def pushattr(e, **kw):
        d = dict(key=none, value=none, quote=qnone, need_quote=z3.BoolVal(False)); d.update(kw)
        a = L.attr.constructor(0)(*[d[f] for f, i in sorted(L.A.items(), key=lambda x: x[1])])
        setm(e, meta_with(L, M0, attrs=seqt(SeqV(L.attrt, SA.segs + (("e", T.unpack(L.attrt, a, st)),))))); return e
    def setlast(e, **kw):
        a = attr_with(L, la, **kw)
        m = dict(attrs=seqt(SeqV(L.attrt, tuple(rest) + (("e", T.unpack(L.attrt, a, st)),))))
        if "key" in kw:
            k = lower(P_); old = z3.Select(mp, k); m["lc_name_map"] = z3.Store(mp, k, z3.If(old == -1, al - 1, old))
        setm(e, meta_with(L, M0, **m)); return e
    nxt = lambda *a: ("in", doct) + a
    if sub_ in ("gap", "aft", "slash"):
        e = start(W, "white space in a tag", mode); e.pend = EMPTY; out.append(e)
        # white space after a slash leaves the slash pending (it still closes the tag)
        e = start(SL, "'/' in a tag", nxt("slash", aft)); e.pend = EMPTY; out.append(e)
        close(start(GT, "'>'", None), doct, sub_ == "slash", name)
        if aft:
            e = start(EQ, "'=' after a key", nxt("wv")); e.pend = EMPTY; out.append(e)
        else:
            ok = zb(O("allow_attr_key_starts_with_equal_sign"))
            err(z3.And(EQ, z3.Not(ok)), "'=' where a key should start", pos, {"C10"})
            e = pushattr(start(z3.And(EQ, ok), "a key that starts with '='", nxt("key")), key=some(QI.empty)); e.pend = app(EMPTY, c); out.append(e)
        oth = z3.Not(z3.Or(W, SL, GT, EQ))
        if doct:
            e = pushattr(start(z3.And(oth, QU), "a quoted doctype item", nxt("val")), value=some(QI.empty), quote=qsome(c)); e.pend = EMPTY; e.extra.append(("the quote is remembered", {"C10"}, lambda V2: zi(V2.d("mark_char")) == c)); out.append(e)
            oth = z3.And(oth, z3.Not(QU))
        e = pushattr(start(oth, "a key starts", nxt("key")), key=some(QI.empty)); e.pend = app(EMPTY, c); out.append(e)
    elif sub_ == "key":
        end = z3.Or(W, EQ, SL, GT)
        def fin(g, nm, mode):
            e = setlast(start(g, nm, mode), key=some(P_)); e.pend = EMPTY; return e
        e = start(z3.Not(end), "a character of a key", mode); e.pend = app(Pd, c); out.append(e)
        out.append(fin(W, "white space ends the key", nxt("aft"))); out.append(fin(EQ, "'=' ends the key", nxt("wv"))); out.append(fin(SL, "'/' ends the key", nxt("slash", False)))
        close(fin(GT, "'>' ends the key", None), doct, False, name)
    elif sub_ == "wv":
        e = start(W, "white space before a value", mode); e.pend = EMPTY; out.append(e)
        close(start(GT, "'>' instead of a value", None), doct, False, name)
        e = start(QU, "a quoted value starts", nxt("val")); e.pend = EMPTY; e.extra.append(("the quote is remembered", {"C10"}, lambda V2: zi(V2.d("mark_char")) == c)); out.append(e)
        e = start(z3.Not(z3.Or(W, GT, QU)), "an unquoted value starts", nxt("val")); e.pend = app(EMPTY, c); e.extra.append(("the value is unquoted", {"C10"}, lambda V2: zi(V2.d("mark_char")) == 32)); out.append(e)
    elif sub_ == "val":
        q = zi(V.d("mark_char")); unq = q == 32
        def fin(g, nm, mode, quote=qnone):
            e = setlast(start(g, nm, mode), value=some(P_), quote=quote); e.pend = EMPTY
            e.ids = (z3.And(L.ahas(la), isid(L.akey(la))), P_, al - 1); e.props = e.props | {"C11"}
            return e
        endu = z3.And(unq, z3.Or(W, GT)); endq = z3.And(z3.Not(unq), c == q)
        e = start(z3.Not(z3.Or(endu, endq)), "a character of a value", mode); e.pend = app(Pd, c); e.extra.append(("the quote is kept", {"C10"}, lambda V2: zi(V2.d("mark_char")) == q)); out.append(e)
        out.append(fin(z3.And(unq, W), "white space ends the value", nxt("gap"))); out.append(fin(endq, "the quote ends the value", nxt("gap"), qsome(q)))
        close(fin(z3.And(unq, GT), "'>' ends the value", None), doct, False, name)

# ---------------------------------------------------------------- comparison
def deq(a, b, skip=()):
    """extensional equality as a goal (fresh constants for the positions)"""
    so = a.sort()
    if a.eq(b): return z3.BoolVal(True)
    if is_seqsort(so):
        q = seqth(a); k = fresh(I, "k")
        return z3.Or(a == b, z3.And(q.len(a) == q.len(b), z3.Implies(z3.And(0 <= k, k < q.len(a)), deq(q.at(a, k), q.at(b, k), skip))))
    if so.kind() == z3.Z3_ARRAY_SORT:
        k = fresh(so.domain(), "key"); return z3.Select(a, k) == z3.Select(b, k)
    if so.kind() == z3.Z3_DATATYPE_SORT:
        cs = []
        for ci in range(so.num_constructors()):
            r = so.recognizer(ci); na = so.constructor(ci).arity()
            fl = [deq(so.accessor(ci, j)(a), so.accessor(ci, j)(b), skip) for j in range(na) if so.accessor(ci, j).name().split("_")[-1] not in skip and not any(so.accessor(ci, j).name().endswith("_" + x) for x in skip)]
            if so.num_constructors() > 1: cs.append(r(a) == r(b)); cs.append(z3.Implies(r(a), z3.And(*fl)) if fl else z3.BoolVal(True))
            else: cs.extend(fl)
        return z3.Or(a == b, z3.And(*cs)) if cs else z3.BoolVal(True)
    return a == b

FIELDP = {"node_type": {"C03", "C04", "C13", "C20"}, "content": {"C04", "C09"}, "childs": {"C03", "C04", "C05"}, "parent": {"C03"}, "index": {"C03"}, "root": {"C03"}, "end_tag": {"C04", "C05"}, "begin_at": {"C23"}, "end_at": {"C23"}}
METAP = {"name": {"C04", "C05", "C10"}, "attrs": {"C10", "C04"}, "lc_name_map": {"C10"}, "is_void": {"C05", "C14"}, "self_closed": {"C04", "C05"}}

def postgoals(V, e, V2):
    """goals for an accepted step: (name, props, goal)"""
    L, K, ex = V.L, V.L.K, V.ex; out = []
    nx = V2.next(); P = e.props
    n0 = V.n()
    nn = 1 if e.new is not None else 0
    out.append(("the step creates the nodes of the specification only", {"C03", "C04"} | P, nx == V.next() + nn))
    for f, pr in FIELDP.items():
        sk = fresh(I, "node"); cond = z3.And(0 <= sk, sk < V.next() + nn)
        for ff, h in e.free:
            if ff == f: cond = z3.And(cond, sk != h)
        a, b = z3.Select(V2.h(f), sk), z3.Select(e.H[f], sk)
        if f == "begin_at": cond = z3.And(cond, z3.Or(*[z3.Select(e.H["node_type"], sk) == K[x] for x in ("Tag", "Text", "Comment", "HTMLDOCTYPE", "XMLCDATA")]))
        if f == "end_at": cond = z3.And(cond, z3.Or(*[z3.Select(e.H["node_type"], sk) == K[x] for x in ("Text", "Comment")]))
        if f in ("root", "index"): cond = z3.And(cond, z3.Select(e.H["node_type"], sk) != K["TagEnd"])
        out.append(("%s of every node" % f, pr | P, z3.Implies(cond, deq(a, b))))
    sk = fresh(I, "node"); cond = z3.And(0 <= sk, sk < V.next() + nn)
    a, b = z3.Select(V2.h("meta"), sk), z3.Select(e.H["meta"], sk)
    out.append(("tag data of every node", {"C04"} | P, z3.Implies(cond, L.some_m(a) == L.some_m(b))))
    for f, pr in METAP.items():
        out.append(("%s of every tag" % f, pr | P, z3.Implies(z3.And(cond, L.some_m(b)), deq(L.mf(a, f), L.mf(b, f)))))
    # buffers and chain
    if e.pend is not None:
        g = deq(ex.term(V2.st, V2.pend()), ex.term(V2.st, e.pend)) if e.pend.segs else zi(ex.seq_len(V2.st, V2.pend())) == 0
        out.append(("pending characters", P | {"C04"} | ({"C09"} if e.mode and e.mode[0] == "raw" else set()) | ({"C10"} if e.mode and e.mode[0] == "in" else set()), g))
    C, C2 = V.C(), V2.C(); n2 = V2.n(); k = fresh(I, "level")
    dn = {"keep": 0, "push": 1, "pop": -1}[e.chain]
    lim = z3.If(n2 < n0, n2, n0)
    out.append(("the open elements", P | {"C05"}, z3.And(n2 == n0 + dn, z3.Implies(z3.And(0 <= k, k < lim), sat(C2, k) == sat(C, k)), *([V2.top() == V.next()] if e.chain == "push" else []))))
    if isinstance(e.cur, str): out.append(("the text is finished", P | {"C07", "C08"}, V2.at("node_type", V2.cur()) != K["Text"]))
    elif e.cur is not None: out.append(("current node", P | {"C04"}, V2.cur() == e.cur))
    out.append(("position", {"C12", "C23"}, zi(V2.d("position")) == zi(V.d("position")) + 1))
    idt = V.idterm(); exp = idt
    if e.ids is not None: exp = z3.If(e.ids[0], z3.Store(idt, e.ids[1], V.cur()), idt)
    w = fresh(SI, "id"); out.append(("id map", {"C11"}, z3.Select(V2.idterm(), w) == z3.Select(exp, w)))
    s0, nm0, d0 = V.special(); s1, nm1, d1 = V2.special(); s0, s1 = zb(s0), zb(s1)
    keep = z3.And(s1 == s0, *([z3.Implies(s1, z3.And(deq(nm1, nm0), d1 == d0))] if nm1 is not None and nm0 is not None else []))
    if e.special == "keep": g = keep
    elif e.special[0] == "clear": g = z3.If(e.special[1], z3.Not(s1), keep)
    else: g = z3.If(e.special[1], z3.And(s1, deq(nm1, e.special[2]), d1 == e.special[3]) if nm1 is not None else z3.BoolVal(False), keep)
    out.append(("svg or math scope", {"C19"}, g))
    for nm, pr, f in e.extra: out.append((nm, pr | P, f(V2)))
    return out

# ---------------------------------------------------------------- running the steps
def c_region(ex, st, a, t):
    x = models.seqarg(ex, st, a[0]); idx = a[1]; tx = ex.term(st, x)
    F = {f[0]: i for i, f in enumerate(ex.ty[t["dt"]]["v"][0]["f"])}
    k = z3.If(zi(idx) + 1 <= QI.len(tx), zi(idx) + 1, QI.len(tx))
    fs = [None] * len(F); fs[F["index"]] = idx; fs[F["line"]] = spec.linef(tx, k); fs[F["col"]] = spec.colf(tx, k)
    return [(st, Agg(t["dt"], 0, fs))]
REGION = "rphtml::position::CodeRegion::from_context_index"
def setup(J):
    cs = dict(spec.HELPERS); cs[REGION] = c_region
    ex = mk(J, cs); ex.deadline = min(DEADLINE, time.time() + 240) if DEADLINE else None
    return ex, Lay(ex)
def region_of(ex, st, v):
    """index/line/col of an error value"""
    e = v.f[0]
    n = 0
    while isinstance(e, (BoxV, Ptr)) and n < 4:
        e = st.cells[e.cell] if isinstance(e, BoxV) else ex.load(st, e); n += 1
    if not isinstance(e, Agg): raise Unsupported("error value %r" % (e,))
    fn = [f[0] for f in ex.ty[e.ty]["v"][0]["f"]]
    r = e.f[fn.index("region")]
    rn = [f[0] for f in ex.ty[r.ty]["v"][0]["f"]]
    return {k: r.f[rn.index(k)] for k in ("index", "line", "col")}
def isok(v): return isinstance(v, Agg) and v.v == 0

def concretize(ex, st, term, dom):
    """feasible values of a term: [(state, value)]"""
    t = simp(term)
    if isinstance(t, int): return [(st, t)]
    out = []
    for d in dom:
        if ex.feasible(st, t == d):
            s2 = st.copy(); s2.pc.append(t == d); out.append((s2, d))
    return out
def control(ex, L, V, mode):
    """control of a post state: [(state, ctl)]"""
    h = V.d("handle")
    if not isinstance(h, FnV): raise Unsupported("handle is not a known function")
    ci = V.d("code_in"); T = ex.ty
    out = []
    for st, code in concretize(ex, V.st, zi(T.disc(ci)), [v["d"] for v in T[L.DT["code_in"]]["v"]]):
        tl = [(st, None)]
        if mode[0] == "in":
            tct = L.MT["code_in"]
            tl = concretize(ex, st, L.mf(V.at("meta", V.cur()), "code_in"), [v["d"] for v in T[tct]["v"]])
        dv = V.d("detect")
        if isinstance(dv, SEnum): raise Unsupported("symbolic detect")
        if dv.v == 0: det = "none"
        elif all(k == "e" and isinstance(x, int) for k, x in dv.f[0].segs) and mode[0] != "raw": det = "".join(chr(x) for _, x in dv.f[0].segs)
        else: det = "sym"
        for s2, tc in tl: out.append((s2, (h.name, h.sym, code, tc, det)))
    return out

def run_step(J, ctl, mode, exl=None):
    """one product state: returns (Rec, ex, next product states)"""
    ex, L = exl or setup(J)
    rec = Rec("step %s in %s/%s%s" % ("/".join(map(str, mode)), ctl[0].split("::")[-1], ctl[2], "" if ctl[3] is None else "/%s" % ctl[3]))
    nxt = {}
    V = prestate(ex, L, ctl, mode); st = V.st
    c = z3.Int("c"); st.pc.append(z3.And(c >= 0, c <= 0x10FFFF))
    content = SeqV(ex.ty.chart, [("s", z3.Const("content", SI))])
    cs = cases(V, mode, c)
    pre = st.copy(); V.st = pre
    rec.covers.append(("pre-state of %s is satisfiable" % (mode,), ex.feasible(st)))
    try: outs = ex.call_fn(st, P + "Doc::next", [Ptr(("C", V.cell)), c, Ptr(("V", content))])
    except Unsupported as x: rec.unsup("%s: %s" % (rec.unit, x), ALLP, str(x)); return rec, ex, nxt
    rec.prove(ex, pre, z3.Or(*[e.g for e in cs]), "the specification covers every character", ALLP)
    used = {e.name: False for e in cs}
    ctx = ex.term(pre, content)
    for k, o in enumerate(outs):
        lab = "[path %d]" % k
        if o.kind == "unsup": rec.unsup("Doc::next: %s at %s" % (o.msg, o.loc), ALLP - {"C02", "C14", "C15", "C16", "C17", "C18", "C21", "C22"}, o.msg); continue
        if o.kind == "panic": rec.prove(ex, o.st, False, "Doc::next: no panic (%s at %s) %s" % (o.msg, o.loc, lab), {"C01"}); continue
        if o.kind != "ret": rec.unsup("outcome " + o.kind, ALLP, o.kind); continue
        if not (isinstance(o.val, Agg) and o.val.v in (0, 1)): rec.unsup("symbolic result", ALLP, ""); continue
        # facts created while building the expectations
        known = {x.get_id() for x in o.st.pc}
        for x in pre.pc:
            if x.get_id() not in known: o.st.pc.append(x)
        for e in cs:
            s2 = o.st.copy(); s2.pc.append(e.g)
            if not ex.feasible(s2): continue
            used[e.name] = True
            if isok(o.val) != (e.err is None):
                rec.prove(ex, s2, False, "%s: %s %s" % (e.name, "accepted" if isok(o.val) else "rejected", lab), e.props | {"C04"} if not e.props else e.props); continue
            if e.err is not None:
                try:
                    r = region_of(ex, s2, o.val)
                    kk = z3.If(e.err + 1 <= QI.len(ctx), e.err + 1, QI.len(ctx))
                    rec.prove(ex, s2, And(eq(r["index"], e.err), zi(r["line"]) == spec.linef(ctx, kk), zi(r["col"]) == spec.colf(ctx, kk)), "%s: error position %s" % (e.name, lab), {"C12"})
                except Unsupported as x: rec.unsup("%s: error position %s" % (e.name, lab), {"C12"}, str(x))
                continue
            V2 = View(ex, L, s2, V.cell)
            if e.ids is not None: s2.ghost["idw"] = z3.If(e.ids[0], z3.Store(s2.ghost["idw"], e.ids[1], e.ids[2]), s2.ghost["idw"])
            try:
                gs = postgoals(V, e, V2)
                gs += [("invariant: " + n, p, g) for n, p, g in goals(inv(V2, e.mode))]
                ctls = [c2 for _, c2 in control(ex, L, View(ex, L, s2, V.cell), e.mode)]
            except Unsupported as x:
                rec.unsup("%s: %s %s" % (e.name, x, lab), ALLP, str(x)); continue
            n_ = len(rec.obls); prove_all(rec, ex, s2, gs, e.name, lab, V)
            if any(o["status"] == "failed" for o in rec.obls[n_:]): continue     # the states behind a broken step are not explored
            for ctl2 in ctls: nxt.setdefault((ctl2[0], ctl2[2], ctl2[3], ctl2[4], e.mode), ctl2)
    for n, u in used.items():
        rec.covers.append(("%s: case '%s' is reachable" % (rec.unit, n), u))
    rec.functions |= {n for n in ex.called}
    return rec, ex, nxt
def skolems(t, out, seen):
    if t.get_id() in seen: return
    seen.add(t.get_id())
    if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name().split("!")[0] in ("sk", "node", "level", "k", "key", "id"): out.append(t)
    for c in t.children(): skolems(c, out, seen)
def ground(V, goal):
    """instances of the quantified clauses of the pre-state at the constants of a goal and the terms around them"""
    sks = []; skolems(goal, sks, set()); L = V.L; C = V.C(); st = V.st
    ints = [x for x in sks if x.sort() == I]; strs = [x for x in sks if x.sort() == SI]
    cur, top, ck, n = V.cur(), V.top(), V.check(), V.n(); z = z3.IntVal(0)
    H = st.heap; A_ = L.mf(V.at("meta", cur), "attrs"); al = L.qa.len(A_); nch = L.nch(z3.Select(H["childs"], top))
    S1 = list(ints) + [sat(C, i) for i in ints] + [i + 1 for i in ints] + [sat(C, i + 1) for i in ints] + [z3.Select(H["end_tag"], i) for i in ints] + [cur, top, ck, n - 1, n - 2, z, z3.Select(H["prev"], cur)] + [z3.Select(V.idterm(), w) for w in strs]
    S1 += [L.child(z3.Select(H["childs"], h), j) for h in ints for j in ints] + [L.child(z3.Select(H["childs"], top), nch - 1), L.child(z3.Select(H["childs"], top), z)]
    sp, nm, dep = V.special()
    if dep is not None: S1.append(dep - 1)
    W = strs + [ex for ex in [V.ex.term(st, V.pend())]]
    idw = [z3.Select(st.ghost["idw"], w) for w in strs]
    hs = list(ints) + [cur, top] + [z3.Select(V.idterm(), w) for w in strs]; js = list(ints) + [al - 1, nch - 1, z] + idw
    W += [lower(w) for w in list(W)]
    for h in [cur] + ints:
        for a in ints + [al - 1]:
            at = L.qa.at(L.mf(z3.Select(H["meta"], h), "attrs"), a); W.append(lower(L.akey(at))); W.append(L.aval(at))
    out = []
    for vars, body in st.ghost.get("clauses", ()):
        k = [v.name() for v in vars]
        if k == ["Int"]: pts = [(x,) for x in S1]
        elif k == ["Int", "Int"]: pts = [(h, j) for h in hs for j in js if not h.eq(j)] + [(i, n - 1) for i in ints] + [(i + 1, n - 1) for i in ints]
        elif len(vars) == 1: pts = [(w,) for w in W]
        else: pts = [(h, w) for h in hs for w in W]
        for pt in pts: out.append(zb(body(*pt)))
    return out
def prove_one(rec, ex, st, V, g, name, props):
    if g is True: return rec.add(name, props, "proved")
    if g is False: g = z3.BoolVal(False)
    t = time.time()
    sol = mksolver(4000)
    for x in st.pc:
        if x.get_id() not in QUANT or QUANT[x.get_id()].qid() == "local": sol.add(x)
    for x in ex.axioms: sol.add(x)
    for x in ground(V, g): sol.add(x)
    sol.add(z3.Not(g)); r = sol.check(); ms = (time.time() - t) * 1000; ex.nprove += 1; ex.tprove += ms / 1000
    why = "" if r != z3.unknown else sol.reason_unknown()
    if os.environ.get("DBG") and ms > 1000: print("   ground %.1f" % (ms / 1000), r, why, name, flush=True)
    if r == z3.unsat: return rec.add(name, props, "proved", ms)
    if rec.prove(ex, st, g, name, props, timeout=5000): return True
    o = rec.obls[-1]
    if o["status"] == "unknown" and "canceled" not in why and "timeout" not in why and not st.ghost.get("approx"):
        try: m = sol.model()
        except z3.Z3Exception: m = None
        o["status"] = "unknown" if vc.SOFT else "failed"; o["detail"] = "candidate counterexample: " + (brief(m) if m is not None else why); o["model"] = seqs(m) if m is not None else None
    return False
MAPQ = {"the name map has every key at its first position", "the name map has nothing else", "every id is in the id map", "the id map holds nodes", "a node found by id has that id"}
def prove_all(rec, ex, st, gs, name, lab, V=None, group=True):
    """one query per group of goals; the goals one by one when it fails"""
    gz = [(n, p, simp(g)) for n, p, g in gs]
    # the clauses about the name and id maps trigger each other: they are used only where they are needed
    for maps in (False, True):
        grp = [x for x in gz if (x[0].replace("invariant: ", "") in MAPQ) == maps]
        if not grp: continue
        if not group:
            for n, p, g in grp: prove_one(rec, ex, st, V, g, "%s: %s %s" % (name, n, lab), p)
            continue
        t = time.time()
        live = [zb(g) for _, _, g in grp if g is not True]
        sol = mksolver((1000 if maps else 4000) if V is not None else rec.timeout)
        for x in st.pc:
            if maps or x.get_id() not in QUANT or QUANT[x.get_id()].qid().replace("_", " ") not in MAPQ: sol.add(x)
        for x in ex.axioms: sol.add(x)
        sol.add(z3.Not(z3.And(*live)) if live else z3.BoolVal(False))
        r = sol.check(); ms = (time.time() - t) * 1000; ex.nprove += 1; ex.tprove += ms / 1000
        if os.environ.get("DBG") and r != z3.unsat: print("   group", maps, name, lab, flush=True)
        if r == z3.unsat:
            for n, p, g in grp: rec.add("%s: %s %s" % (name, n, lab), p, "proved", ms / len(grp))
            continue
        for n, p, g in grp:
            if V is not None: prove_one(rec, ex, st, V, g, "%s: %s %s" % (name, n, lab), p)
            else: rec.prove(ex, st, g, "%s: %s %s" % (name, n, lab), p, timeout=5000)

def initial(J):
    """Doc::new: (Rec, ex, {key: ctl})"""
    ex, L = setup(J); rec = Rec("Doc::new"); nxt = {}
    st = St(); st.nbase = 0
    for n, t in ex.node_fields: st.heap[n] = z3.Const("H_" + n, z3.ArraySort(I, ex.ty.sort(t)))
    st.ghost["anch"] = z3.Const("anch0", z3.ArraySort(I, B)); st.ghost["idw"] = z3.Const("idw0", z3.ArraySort(SI, I))
    for k, o in enumerate(ex.call_fn(st, P + "Doc::new", [])):
        if o.kind != "ret": (rec.fail if o.kind == "panic" else rec.unsup)("Doc::new: %s" % o.msg, ALLP, o.msg); continue
        cell = ex.newcell(o.st, o.val); V = View(ex, L, o.st, cell)
        o.st.ghost["anch"] = z3.Store(o.st.ghost["anch"], z3.IntVal(0), z3.BoolVal(True))   # the root is held by the document
        gs = [("invariant: " + n, p, g) for n, p, g in goals(inv(V, ("wait",)))]
        gs.append(("position", {"C12", "C23"}, zi(V.d("position")) == 0))
        gs.append(("no node but the root", {"C03", "C04"}, zi(V.next()) == 1)); gs.append(("the root is empty", {"C03", "C04"}, z3.And(L.nch(V.at("childs", 0)) == 0, V.at("end_tag", 0) == -1, z3.Not(L.some_m(V.at("meta", 0))))))
        gs.append(("no element is open", {"C04", "C05"}, V.n() == 1)); gs.append(("no id", {"C11"}, V.idterm() == z3.K(SI, z3.IntVal(-1)))); gs.append(("no scope", {"C19"}, Not(zb(V.special()[0]))))
        prove_all(rec, ex, o.st, gs, "Doc::new", "")
        for s3, ctl2 in control(ex, L, V, ("wait",)): nxt[(ctl2[0], ctl2[2], ctl2[3], ctl2[4], ("wait",))] = ctl2
    rec.functions |= set(ex.called)
    return rec, ex, nxt

# ---------------------------------------------------------------- the end of the input
pidx = z3.Function("level_of", I, I)     # the place of an open element among the open elements
def set_autofix(L, m): return L.ometa.constructor(1)(meta_with(L, simpacc(L.ometa.accessor(1, 0), m), auto_fix=z3.BoolVal(True)))
def forall(vs, body, pats):
    try: q = z3.ForAll(vs, body, patterns=pats, qid="local")
    except z3.Z3Exception: q = z3.ForAll(vs, body, qid="local")
    QUANT[q.get_id()] = q; return q
def t_unclosed(V, L):
    C, n, K = V.C(), V.n(), L.K
    Q = forall
    def tm(ex, s0, W, uid):
        out = []; H0 = dict(s0.heap); nx0 = zi(s0.next()); h = z3.Int("qh")
        a0 = s0.ghost["anch"]
        for k, sq in spec.counters(ex, s0, W, uid):
            if sq is None or sq.ety is None or ex.ty.handle_kind(sq.ety) != "node": continue
            def opn(s, h, k=k): return z3.And(1 <= pidx(h), pidx(h) <= k(s), sat(C, pidx(h)) == h)
            old = lambda h: z3.And(0 <= h, h < nx0); void = lambda h: L.mf(z3.Select(H0["meta"], h), "is_void")
            for f in H0:
                if f not in ("meta", "end_tag"): out.append(("old " + f, lambda s, f=f: Q([h], z3.Implies(old(h), z3.Select(s.heap[f], h) == z3.Select(H0[f], h)), [z3.Select(s.heap[f], h)])))
            out.append(("meta", lambda s: Q([h], z3.Implies(old(h), z3.Select(s.heap["meta"], h) == z3.If(opn(s, h), set_autofix(L, z3.Select(H0["meta"], h)), z3.Select(H0["meta"], h))), [z3.Select(s.heap["meta"], h)])))
            def endt(s, part):
                e = z3.Select(s.heap["end_tag"], h); S = lambda f: z3.Select(s.heap[f], e); c = z3.And(old(h), opn(s, h), z3.Not(void(h)))
                if part == "range": return Q([h], z3.Implies(c, z3.And(nx0 <= e, e < zi(s.next()))), [e])
                if part == "same": return Q([h], z3.Implies(z3.And(old(h), z3.Not(z3.And(opn(s, h), z3.Not(void(h))))), e == z3.Select(H0["end_tag"], h)), [e])
                if part == "content": return Q([h], z3.Implies(c, S("content") == L.oc(L.mf(z3.Select(H0["meta"], h), "name"))), [e])
                if part == "parent": return Q([h], z3.Implies(c, S("parent") == h), [e])
                return Q([h], z3.Implies(c, z3.Select(s.ghost["anch"], e)), [e])
            for part in ("range", "same", "content", "parent", "anch"): out.append(("end tag " + part, lambda s, part=part: endt(s, part)))
            none = lambda f: ex.ty.sort(L.NT[f]).constructor(0)()
            def new(s):
                S = lambda f: z3.Select(s.heap[f], h)
                return Q([h], z3.Implies(z3.And(nx0 <= h, h < zi(s.next())), z3.And(S("node_type") == K["TagEnd"], L.some_c(S("content")), S("meta") == none("meta"), S("childs") == none("childs"), S("end_tag") == -1, S("begin_at") == zi(V.d("position")), S("end_at") == zi(V.d("position")))), [z3.Select(s.heap[f], h) for f in ("node_type", "content", "meta", "childs", "end_tag", "begin_at", "end_at")])
            out.append(("new", new))
            out.append(("anch", lambda s: Q([h], z3.Implies(old(h), z3.Select(s.ghost["anch"], h) == z3.Select(a0, h)), [z3.Select(s.ghost["anch"], h)])))
            out.append(("next", lambda s: nx0 <= zi(s.next())))
        return out
    return tm
def eof_cases(V, mode):
    """(guard, name, props, error position or None, heap changes)"""
    L, K, ex, st = V.L, V.L.K, V.ex, V.st; m0 = mode[0]; T = ex.ty
    pos, mem, cur, top, n = zi(V.d("position")), zi(V.d("mem_position")), V.cur(), V.top(), V.n()
    fx = zb(V.opt("auto_fix_unclosed_tag")); out = []; ck = V.check(); bg = lambda h: z3.Select(V.h("begin_at"), h)
    def E(g, name, props, err=None):
        e = Eff(V, g, name, props); e.err = err; out.append(e); return e
    E(z3.And(n > 1, z3.Not(fx)), "an element is not closed", {"C05", "C06"}, bg(top))
    go = z3.Or(n == 1, fx)
    if m0 in ("lt", "bang"): E(go, "an unfinished '<'", {"C06"}, mem); return out
    if m0 in ("comment", "cdata", "tagend", "raw", "dname") or (m0 == "in" and mode[1]): E(go, "an unfinished comment, CDATA section, doctype, end tag or raw text", {"C06"}, bg(cur)); return out
    e = E(go, "the end of the input", {"C06"}); e.free.add(("auto", None))
    e.set("end_at", z3.IntVal(0), pos)
    kids = z3.Select(V.h("childs"), top); only = z3.And(n > 1, L.nch(kids) == 1)
    Pd = V.pend(); P_ = ex.term(st, Pd)
    if m0 == "text":
        e.set("content", cur, L.oc(P_)).set("end_at", cur, pos)
        e.H["node_type"] = z3.If(z3.And(allws(P_), z3.Not(only)), z3.Store(e.H["node_type"], cur, z3.IntVal(K["SpacesBetweenTag"])), e.H["node_type"])
    elif m0 == "wait":
        e.H["node_type"] = z3.If(z3.And(ck != -1, z3.Not(only)), z3.Store(e.H["node_type"], ck, z3.IntVal(K["SpacesBetweenTag"])), e.H["node_type"])
    else:
        # a tag: what was read of it is kept, as at its end
        o2 = []; M = {"name": 32, "dname": 32}.get(m0)
        sub_ = mode[2] if m0 == "in" else None
        def E2(*a, **k): return Eff(V, z3.BoolVal(False), "", ())
        tagcases(V, mode, z3.Int("eof_char"), o2, E2, E2)
        if m0 in ("name", "dname"): src = next(x for x in o2 if x.mode and x.mode[:1] == ("in",) and x.mode[2] == "gap")
        elif sub_ == "key": src = next(x for x in o2 if x.mode and x.mode[2] == "aft")
        elif sub_ == "val":
            a = next(x for x in o2 if x.name == "white space ends the value"); b = next(x for x in o2 if x.name == "the quote ends the value"); q = zi(V.d("mark_char")) == 32
            e.H["meta"] = z3.If(q, a.H["meta"], b.H["meta"]); e.ids = a.ids; src = None
        else: src = None
        if src is not None: e.H["meta"] = src.H["meta"]
    return out
def run_eof(J, ctl, mode):
    ex, L = setup(J); rec = Rec("end of input %s in %s/%s%s" % ("/".join(map(str, mode)), ctl[0].split("::")[-1], ctl[2], "" if ctl[3] is None else "/%s" % ctl[3]))
    V = prestate(ex, L, ctl, mode); st = V.st; content = SeqV(ex.ty.chart, [("s", z3.Const("content", SI))]); K = L.K
    cs = eof_cases(V, mode); C, n = V.C(), V.n(); i = z3.Int("qi"); st.pc.append(forall([i], z3.Implies(z3.And(0 <= i, i < n), pidx(sat(C, i)) == i), [sat(C, i)]))
    st.pc.append(pidx(V.top()) == n - 1)
    ex.loop_templates = [t_unclosed(V, L)]; ex.loopquant = {"local", "the_open_elements_are_elements_of_the_tree", "open_elements_have_a_name"}
    pre = st.copy(); V.st = pre; cur, pos = V.cur(), zi(V.d("position"))
    rec.covers.append(("pre-state of %s is satisfiable" % (mode,), ex.feasible(st)))
    try: outs = ex.call_fn(st, P + "Doc::eof", [Ptr(("C", V.cell)), Ptr(("V", content))])
    except Unsupported as x: rec.unsup("%s: %s" % (rec.unit, x), EOFP, str(x)); return rec, ex
    rec.prove(ex, pre, z3.Or(*[e.g for e in cs]), "the specification covers every end", EOFP)
    ctx = ex.term(pre, content); used = {e.name: False for e in cs}
    for k, o in enumerate(outs):
        lab = "[path %d]" % k
        if o.kind == "unsup": rec.unsup("Doc::eof: %s at %s" % (o.msg, o.loc), EOFP, o.msg); continue
        if o.kind == "panic": rec.prove(ex, o.st, False, "Doc::eof: no panic (%s at %s) %s" % (o.msg, o.loc, lab), {"C01"}); continue
        if o.kind != "ret": rec.unsup("outcome " + o.kind, EOFP, o.kind); continue
        known = {x.get_id() for x in o.st.pc}
        for x in pre.pc:
            if x.get_id() not in known: o.st.pc.append(x)
        for e in cs:
            s2 = o.st.copy(); s2.pc.append(e.g)
            if not ex.feasible(s2): continue
            used[e.name] = True
            if isok(o.val) != (e.err is None):
                rec.prove(ex, s2, False, "%s: %s %s" % (e.name, "accepted" if isok(o.val) else "rejected", lab), e.props); continue
            if e.err is not None:
                r = region_of(ex, s2, o.val); kk = z3.If(e.err + 1 <= QI.len(ctx), e.err + 1, QI.len(ctx))
                rec.prove(ex, s2, And(eq(r["index"], e.err), zi(r["line"]) == spec.linef(ctx, kk), zi(r["col"]) == spec.colf(ctx, kk)), "%s: error position %s" % (e.name, lab), {"C12"}); continue
            V2 = View(ex, L, s2, V.cell)
            if s2.ghost.get("approx"): rec.covers.append(("%s %s is not vacuous" % (rec.unit, lab), not vc.refuted(ex, s2, 1500)))
            if e.ids is not None: s2.ghost["idw"] = z3.If(e.ids[0], z3.Store(s2.ghost["idw"], e.ids[1], e.ids[2]), s2.ghost["idw"])
            gs = eof_goals(V, e, V2, mode) + [("final: " + nm, p, g) for nm, p, g in goals(inv(V2, mode, True))]
            gs = [x for x in gs if ONLY is None or ONLY & x[1]]      # postconditions only: nothing else relies on them
            prove_all(rec, ex, s2, gs, e.name, lab, V, not s2.ghost.get("approx"))
    for nm, u in used.items(): rec.covers.append(("%s: case '%s' is reachable" % (rec.unit, nm), u))
    rec.functions |= set(ex.called)
    return rec, ex
EOFP = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C10", "C11", "C12", "C13", "C15", "C18", "C23"}
def eof_goals(V, e, V2, mode):
    L, K, ex = V.L, V.L.K, V.ex; out = []; C, n, N0 = V.C(), V.n(), V.next(); P6 = {"C06"}
    def opn(h): return z3.And(1 <= pidx(h), pidx(h) < n, sat(C, pidx(h)) == h)
    for f, pr in FIELDP.items():
        if f == "end_tag": continue
        sk = fresh(I, "node"); cond = z3.And(0 <= sk, sk < N0)
        if f == "begin_at": cond = z3.And(cond, z3.Or(*[z3.Select(e.H["node_type"], sk) == K[x] for x in ("Tag", "Text", "Comment", "HTMLDOCTYPE", "XMLCDATA")]))
        if f == "end_at": cond = z3.And(cond, z3.Or(*[z3.Select(e.H["node_type"], sk) == K[x] for x in ("Text", "Comment", "AbstractRoot")]))
        out.append(("%s of every node" % f, pr | P6, z3.Implies(cond, deq(z3.Select(V2.h(f), sk), z3.Select(e.H[f], sk)))))
    sk = fresh(I, "node"); cond = z3.And(0 <= sk, sk < N0); a, b = z3.Select(V2.h("meta"), sk), z3.Select(e.H["meta"], sk)
    out.append(("tag data of every node", {"C04"} | P6, z3.Implies(cond, L.some_m(a) == L.some_m(b))))
    for f, pr in METAP.items(): out.append(("%s of every tag" % f, pr | P6, z3.Implies(z3.And(cond, L.some_m(b)), deq(L.mf(a, f), L.mf(b, f)))))
    nm = L.mf(b, "name"); et = z3.Select(V2.h("end_tag"), sk)
    out.append(("every open element that is not void gets an end tag of its name, nothing else does", P6 | {"C04", "C05"}, z3.Implies(cond, z3.If(z3.And(opn(sk), z3.Not(isvoid(nm))), z3.And(et >= N0, et < V2.next(), z3.Select(V2.h("node_type"), et) == K["TagEnd"], z3.Select(V2.h("content"), et) == L.oc(nm), z3.Select(V2.h("parent"), et) == sk), et == z3.Select(V.h("end_tag"), sk)))))
    nw = fresh(I, "node"); out.append(("new nodes are end tags", P6 | {"C03"}, z3.Implies(z3.And(N0 <= nw, nw < V2.next()), z3.Select(V2.h("node_type"), nw) == K["TagEnd"])))
    idt = V.idterm(); exp = idt
    if e.ids is not None: exp = z3.If(e.ids[0], z3.Store(idt, e.ids[1], V.cur()), idt)
    w = fresh(SI, "id"); out.append(("id map", {"C11"}, z3.Select(V2.idterm(), w) == z3.Select(exp, w)))
    return out
def _eof(a):
    ctl, mode = a; t = time.time()
    try: rec, ex = run_eof(JJ, ctl, mode)
    except Exception as x:
        import traceback
        rec = Rec("end of input %s in %s" % (mode, ctl[:1])); rec.unsup("%s: %s" % (rec.unit, x), EOFP, traceback.format_exc()); return rec, {}, {}
    return rec, {}, stats(ex, t)
def key(ctl, mode): return (ctl[0], ctl[2], ctl[3], ctl[4], mode)
DEADLINE = None; ONLY = None
def stats(ex, t): return dict(wall=time.time() - t, feas=ex.nfeas, tfeas=ex.tfeas, prove=ex.nprove, tprove=ex.tprove, called=sorted(ex.called), modeled=sorted(ex.modeled), contracted=sorted(ex.contracted), loops=[list(map(str, x)) for x in ex.summaries])
def _init():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
def _work(a):
    """pool worker: one product state (the MIR is inherited from the parent)"""
    ctl, mode = a; t = time.time()
    try:
        if ctl is None: rec, ex, nx = initial(JJ)
        else: rec, ex, nx = run_step(JJ, ctl, mode)
    except Exception as x:
        import traceback
        rec = Rec("step %s in %s" % (mode, ctl[:1] if ctl else "Doc::new")); rec.unsup("%s: %s" % (rec.unit, x), ALLP, traceback.format_exc()); return rec, {}, {}
    return rec, nx, stats(ex, t)
JJ = None
def product(J, procs=8, only=None, show=None):
    """all reachable product states, in parallel: [(Rec, stats)]"""
    global JJ
    import multiprocessing as mp
    JJ = J; res = []; seen = set(); ctls = {}
    with mp.get_context("fork").Pool(procs, initializer=_init, maxtasksperchild=1) as pool:
        pend = [pool.apply_async(_work, ((None, ("wait",)),))]
        while pend:
            time.sleep(0.01); rest = []; add_ = []
            for p in pend:
                if not p.ready(): rest.append(p); continue
                rec, nx, st = p.get(); res.append((rec, st))
                if show: show(rec, st)
                for k, c in nx.items():
                    if k not in seen:
                        seen.add(k); ctls[k] = c
                        if only != "eof": add_.append(pool.apply_async(_work, ((c, k[4]),)))
                        if only != "step": add_.append(pool.apply_async(_eof, ((c, k[4]),)))
            pend = rest + add_
    return res, seen

if __name__ == "__main__":
    import sys
    J = json.load(open("/verif/build/mir.json"))
    def show(rec, st):
        print("==", rec.unit, "%.1fs" % st.get("wall", 0), len(rec.obls), "obl", sum(o["status"] == "proved" for o in rec.obls), "proved; feas %d %.1fs prove %d %.1fs" % tuple(st.get(k, 0) for k in ("feas", "tfeas", "prove", "tprove")), [n for n, ok in rec.covers if not ok], flush=True)
        for o in rec.obls:
            if o["status"] != "proved": print("   ", o["status"], o["name"], o["props"], (o["detail"] or "")[:int(os.environ.get("W", "150"))])
    res, seen = product(J, show=show)
    print(len(seen), "product states", sum(len(r.obls) for r, _ in res), "obligations")
