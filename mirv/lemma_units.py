"""Lemmas over the rendering contracts (render_units.py, tree_units.py): they compose the contracts of build_node, build_tree and build
into the statements of the properties.  Trees are finite, so a statement about every tree is proved for a node from the same
statement about its children (structural induction), and one about a child list from its prefix (induction on the length)."""
import z3
from core import *
from vc import Rec
import spec
from spec import *
from render_units import setup, mkst, wf, paths, segs, app, node_parts, attr_facts, NONE, HTML, TEXT
from tree_units import kid_facts
KINDS = ("Text", "SpacesBetweenTag", "Tag", "TagEnd", "HTMLDOCTYPE", "Comment", "XMLCDATA", "AbstractRoot")
F, T = z3.BoolVal(False), z3.BoolVal(True)

def flat(ex, st, parts): return ex.term(st, SeqV(ex.ty.chart, segs(parts)))
def node(ex, L, st, kind, h):
    st.pc += [z3.And(h >= 0, h < st.nbase), z3.Select(st.heap["node_type"], h) == L.K[kind], wf(ex, L, st)(h)]
def pair(ex, st, f, g):
    """the outcomes of two specifications on every joint path"""
    return paths(ex, st, lambda d, s: (f(d, s), g(d, s)))
def lemma(rec, ex, s, goal, name, props): rec.prove(ex, s, goal, "lemma: " + name, props)

def unit_inner(J):
    """inner html is outer html without the element's own tags; inner text is the texts and raw texts inside it"""
    rec = Rec("inner and outer"); P17 = {"C17"}
    for kind in KINDS:
        ex, L = setup(J); h, pre = z3.Int("h"), z3.Bool("pre"); st = mkst(ex); node(ex, L, st, kind, h); con = z3.Select(st.heap["content"], h)
        N = lambda inner, root: lambda d, s: node_parts(ex, L, s, h, kind, z3.IntVal(inner), z3.BoolVal(root), pre, d)
        # below the root of the rendering inner html is outer html
        for i, (s, ((a, p), (b, q))) in enumerate(pair(ex, st, N(NONE, False), N(HTML, False))):
            lemma(rec, ex, s, z3.And(flat(ex, s, a) == flat(ex, s, b), zb(p) == zb(q)), "%s below the root: the same in inner and outer html [path %d]" % (kind, i), P17)
        # nothing but texts, raw texts, CDATA sections and doctypes shows in the inner text
        for i, (s, ((a, p), (b, q))) in enumerate(pair(ex, st, N(NONE, False), N(TEXT, False))):
            if kind in ("Text", "SpacesBetweenTag", "XMLCDATA", "HTMLDOCTYPE"): g = flat(ex, s, a) == flat(ex, s, b)
            elif kind == "Tag":
                # the content, encoded as in the outer html, which is the start tag followed by it
                c = [x for x in b]; n = len(a) - len(c)
                g = z3.And(z3.BoolVal(n >= 0 and len(c) <= 1), flat(ex, s, a[n:]) == flat(ex, s, c), z3.Or(z3.Not(L.some_c(con)), z3.BoolVal(len(c) == 1)))
            else: g = z3.BoolVal(b == [])
            lemma(rec, ex, s, z3.And(g, zb(p) == zb(q)), "%s below the root: what shows in the inner text [path %d]" % (kind, i), P17)
        # the element itself: its content without its tags
        if kind == "Tag":
            for inner in (HTML, TEXT):
                for i, (s, ((a, p), (b, q))) in enumerate(pair(ex, st, N(NONE, True), N(inner, True))):
                    n = len(a) - len(b)
                    lemma(rec, ex, s, z3.And(z3.BoolVal(n >= 2 and a[0] == "<" and isinstance(a[n - 1], str) and a[n - 1].endswith(">")), flat(ex, s, a[n:]) == flat(ex, s, b), zb(p) == zb(q)), "the element: outer is its start tag and then inner (%d) [path %d]" % (inner, i), P17)
        if kind == "TagEnd":
            for inner in (HTML, TEXT):
                for i, (s, (b, q)) in enumerate(paths(ex, st, N(inner, True))): lemma(rec, ex, s, z3.BoolVal(b == []), "the element's end tag does not show (%d) [path %d]" % (inner, i), P17)
        rec.covers.append((kind, ex.feasible(st)))
    # whole trees
    ex, L = setup(J); st = mkst(ex); h, pre, k = z3.Int("h"), z3.Bool("pre"), z3.Int("k"); H = st.heap
    ch, e = z3.Select(H["childs"], h), z3.Select(H["end_tag"], h); C = simpacc(L.ovec.accessor(1, 0), ch); q = L.npre(h, pre)
    s = st.copy(); s.pc += [k >= 0] + kid_facts(L, C, k, z3.IntVal(NONE), q) + kid_facts(L, C, k, z3.IntVal(HTML), q)
    lemma(rec, ex, s, L.kids(C, z3.IntVal(0), z3.IntVal(NONE), q) == L.kids(C, z3.IntVal(0), z3.IntVal(HTML), q), "no children", P17)
    s.pc += [L.kids(C, k, z3.IntVal(NONE), q) == L.kids(C, k, z3.IntVal(HTML), q), L.tree(AT(C, k), z3.IntVal(NONE), F, q) == L.tree(AT(C, k), z3.IntVal(HTML), F, q)]
    lemma(rec, ex, s, L.kids(C, k + 1, z3.IntVal(NONE), q) == L.kids(C, k + 1, z3.IntVal(HTML), q), "one more child: the same in inner and outer html", P17)
    def treedef(inner, root): return L.tree(h, z3.IntVal(inner), root, pre) == app(L.piece(h, z3.IntVal(inner), root, pre), *kidsof(inner), *endof(inner, root))
    for hk in (False, True):
        for he in (False, True):
            kidsof = lambda i: [L.kids(C, QI.len(C), z3.IntVal(i), q)] if hk else []
            endof = lambda i, root: [L.piece(e, z3.IntVal(i), root, q)] if he else []
            s = st.copy(); w = "children %s, end tag %s" % (hk, he)
            ih = [L.kids(C, QI.len(C), z3.IntVal(NONE), q) == L.kids(C, QI.len(C), z3.IntVal(HTML), q)]
            below = lambda x, p: L.piece(x, z3.IntVal(NONE), F, p) == L.piece(x, z3.IntVal(HTML), F, p)
            s.pc += ih + [treedef(NONE, F), treedef(HTML, F), below(h, pre), below(e, q)]
            lemma(rec, ex, s, L.tree(h, z3.IntVal(NONE), F, pre) == L.tree(h, z3.IntVal(HTML), F, pre), "a tree below the root: the same in inner and outer html (%s)" % w, P17)
            # an element at the root: start tag, inner html, end tag
            s = st.copy(); start, end = z3.Consts("start end", SI)
            s.pc += ih + [treedef(NONE, T), treedef(HTML, T), L.piece(h, z3.IntVal(NONE), T, pre) == QI.app(start, L.piece(h, z3.IntVal(HTML), T, pre)), L.piece(e, z3.IntVal(HTML), T, q) == QI.empty, L.piece(e, z3.IntVal(NONE), T, q) == end]
            out = L.tree(h, z3.IntVal(NONE), T, pre); inn = L.tree(h, z3.IntVal(HTML), T, pre)
            lemma(rec, ex, s, out == app(start, inn, *([end] if he else [])), "outer html is start tag, inner html, end tag (%s)" % w, P17)
    rec.functions.add("lemmas over build_node, build_tree")
    return rec, ex

def same_meta(L, a, b, kind):
    """the same tag data; attributes that are the same one by one have the same text (first lemma)"""
    A, B_ = L.mf(a, "attrs"), L.mf(b, "attrs"); rq = L.o["remove_attr_quote"]
    return [L.some_m(a) == L.some_m(b)] + [z3.Implies(L.some_m(a), L.mf(a, f) == L.mf(b, f)) for f in ("name", "is_void") + (("self_closed",) if kind != "HTMLDOCTYPE" else ())] + [z3.Implies(L.some_m(a), z3.And(L.qa.len(A) == L.qa.len(B_), L.attrsp(A, L.qa.len(A), rq) == L.attrsp(B_, L.qa.len(B_), rq)))]
SAME = {"C04", "C06", "C07", "C08", "C15", "C18"}
def unit_copy(J):
    """a node with the same data and with children and an end tag that render alike renders alike, under all options and in every mode"""
    rec = Rec("rendering of the same data"); P18 = SAME
    ex, L = setup(J); A, B_, k, rq = z3.Const("attrs_a", L.qa.S), z3.Const("attrs_b", L.qa.S), z3.Int("k"), z3.Bool("rq"); st = St()
    st.pc += [k >= 0, L.qa.at(A, k) == L.qa.at(B_, k), L.attrsp(A, k, rq) == L.attrsp(B_, k, rq)] + attr_facts(L, A, k, rq) + attr_facts(L, B_, k, rq)
    lemma(rec, ex, st, z3.And(L.attrsp(A, z3.IntVal(0), rq) == L.attrsp(B_, z3.IntVal(0), rq), L.attrsp(A, k + 1, rq) == L.attrsp(B_, k + 1, rq)), "the text of the first attributes depends on these only (induction)", P18 | {"C15"})
    for kind in KINDS:
        ex, L = setup(J); h, c, pre, root, inner = z3.Int("h"), z3.Int("copy"), z3.Bool("pre"), z3.Bool("root"), z3.Int("inner"); st = mkst(ex); node(ex, L, st, kind, h)
        st.pc += [z3.And(c >= 0, c < st.nbase), z3.And(inner >= 0, inner <= 2)] + [z3.Select(st.heap[f], c) == z3.Select(st.heap[f], h) for f in ("node_type", "content")]
        if kind != "TagEnd": st.pc += same_meta(L, z3.Select(st.heap["meta"], h), z3.Select(st.heap["meta"], c), kind)
        N = lambda x: lambda d, s: node_parts(ex, L, s, x, kind, inner, root, pre, d)
        for i, (s, ((a, p), (b, q))) in enumerate(pair(ex, st, N(h), N(c))):
            lemma(rec, ex, s, z3.And(flat(ex, s, a) == flat(ex, s, b), zb(p) == zb(q)), "%s: the copy renders alike [path %d]" % (kind, i), P18)
        rec.covers.append((kind, ex.feasible(st)))
    ex, L = setup(J); st = mkst(ex); h, c, k = z3.Int("h"), z3.Int("copy"), z3.Int("k"); pre, root, inner = z3.Bool("pre"), z3.Bool("root"), z3.Int("inner"); H = st.heap
    ch = lambda x: simpacc(L.ovec.accessor(1, 0), z3.Select(H["childs"], x)); e = lambda x: z3.Select(H["end_tag"], x); q = L.npre(h, pre)
    s = st.copy(); s.pc += [k >= 0] + kid_facts(L, ch(h), k, inner, q) + kid_facts(L, ch(c), k, inner, q) + [L.kids(ch(h), k, inner, q) == L.kids(ch(c), k, inner, q), L.tree(AT(ch(h), k), inner, F, q) == L.tree(AT(ch(c), k), inner, F, q)]
    lemma(rec, ex, s, L.kids(ch(h), z3.IntVal(0), inner, q) == L.kids(ch(c), z3.IntVal(0), inner, q), "no children", P18)
    lemma(rec, ex, s, L.kids(ch(h), k + 1, inner, q) == L.kids(ch(c), k + 1, inner, q), "one more child: the copy renders alike", P18)
    for hk in (False, True):
        for he in (False, True):
            s = st.copy(); tree = lambda x: L.tree(x, inner, root, pre) == app(L.piece(x, inner, root, pre), *([L.kids(ch(x), QI.len(ch(x)), inner, L.npre(x, pre))] if hk else []), *([L.piece(e(x), inner, root, L.npre(x, pre))] if he else []))
            s.pc += [tree(h), tree(c), L.npre(h, pre) == L.npre(c, pre), L.piece(h, inner, root, pre) == L.piece(c, inner, root, pre), L.piece(e(h), inner, root, q) == L.piece(e(c), inner, root, q), QI.len(ch(h)) == QI.len(ch(c)), L.kids(ch(h), QI.len(ch(h)), inner, q) == L.kids(ch(c), QI.len(ch(h)), inner, q)]
            lemma(rec, ex, s, L.tree(h, inner, root, pre) == L.tree(c, inner, root, pre), "the copy of a tree renders alike (children %s, end tag %s)" % (hk, he), P18)
    rec.functions.add("lemmas over build_node, build_tree")
    return rec, ex
UNITS = [("inner and outer", unit_inner, {"C17"}), ("rendering of the same data", unit_copy, SAME)]
