"""Units over functions without heap: classifiers, equality helpers, trimming, positions."""
import z3, json
from core import *
from ex import Ex
from vc import Rec
import spec, models, loops
from spec import *

def seqc(ex, n): return SeqV(ex.ty.chart, [("s", z3.Const(n, SI))])
def ref(v): return Ptr(("V", v))
def opt_ty(ex, suffix):
    return next(i for i, t in enumerate(ex.ty.T) if t["k"] == "adt" and t["n"].endswith("option::Option") and t["a"] and ex.ty.name(t["a"][0]).endswith(suffix))
def mk(J, contracts=None):
    ex = Ex(J, contracts=contracts or {}); ex.axioms = spec.axioms(); ex.loop_templates = spec.ALL
    ex.preds = [(zb(Not(ws(z3.Int("elem")))), spec.anynon)]
    for a in ex.axioms: ex.sol.add(a)
    return ex
def word(ex, st, s, w):
    """elementwise: lower(s) == w"""
    return And(eq(simp(slen(s)), len(w)), *[eq(lc(AT(s, z3.IntVal(i))), ord(c)) for i, c in enumerate(w)])
def wordx(s, w): return And(eq(simp(slen(s)), len(w)), *[eq(AT(s, z3.IntVal(i)), ord(c)) for i, c in enumerate(w)])
VOID = ["img", "input", "meta", "link", "br", "hr", "col", "base", "param", "source", "area", "embed", "track", "wbr"]

def outcomes(rec, ex, name, outs, props, post):
    """post(st, val) -> list of (label, goal)"""
    rec.functions.add(name)
    n = 0
    for k, o in enumerate(outs):
        if o.kind == "panic":
            if ex.feasible(o.st): rec.prove(ex, o.st, False, "%s: no panic (%s)" % (name, o.msg), props)
        elif o.kind == "unsup": rec.unsup("%s: %s at %s" % (name, o.msg, o.loc), props, o.msg)
        elif o.kind == "ret":
            n += 1
            for label, g in post(o.st, o.val): rec.prove(ex, o.st, g, "%s: %s [path %d]" % (name, label, k), props)
    if n == 0: rec.unsup("%s: no returning path" % name, props, "vacuous")
    return n

def unit_util(J):
    rec = Rec("util"); ex = mk(J); Pp = {"C22"}
    x = z3.Int("ch")
    nonch = z3.Or(z3.And(x >= 0xFDD0, x <= 0xFDEF), x % 0x10000 == 0xFFFE, x % 0x10000 == 0xFFFF)
    w = zb(ws(x))
    key = z3.Or(z3.And(x >= 48, x <= 57), z3.And(x >= 65, x <= 90), z3.And(x >= 97, x <= 122), x == 95, x == 45, x == 46, x == 58, z3.And(x >= 128, z3.Not(nonch)))
    val = z3.Not(z3.Or(w, x == 0, x == 34, x == 39, x == 60, x == 62, x == 47, x == 61, x == 96))
    for fn, sp in (("is_non_character", nonch), ("is_char_available_in_key", key), ("is_char_available_in_value", val)):
        st = St(); st.pc.append(z3.And(x >= 0, x <= 0x10FFFF, z3.Or(x < 0xD800, x > 0xDFFF)))
        outs = ex.call_fn(st, "rphtml::util::" + fn, [ref(x)])
        outcomes(rec, ex, fn, outs, Pp, lambda s, v: [("result equals the definition", zb(v) == sp)])
    return rec, ex

def unit_tags(J):
    rec = Rec("tags"); ex = mk(J); Pp = {"C22"}
    a = seqc(ex, "name"); t = a.segs[0][1]
    ot = opt_ty(ex, "NameCase"); nct = ex.ty[ot]["a"][0]
    low = next(i for i, v in enumerate(ex.ty[nct]["v"]) if v["n"] == "Lower"); up = next(i for i, v in enumerate(ex.ty[nct]["v"]) if v["n"] == "Upper")
    for nm, case in (("None", Agg(ot, 0, ())), ("Lower", Agg(ot, 1, (Agg(nct, low, ()),))), ("Upper", Agg(ot, 1, (Agg(nct, up, ()),)))):
        st = St()
        W = ["script", "style", "title", "textarea"]
        outs = ex.call_fn(st, P + "is_content_tag", [ref(a), ref(case)])
        if nm == "None": sp = Or(*[wordx(t, w) for w in W])
        elif nm == "Lower": sp = Or(*[word(ex, st, t, w) for w in W])
        else: sp = Or(*[wordx(t, w) for w in W])     # upper-casing never equals a lowercase name except exactly
        outcomes(rec, ex, "is_content_tag(%s)" % nm, outs, Pp, lambda s, v: [("result equals the definition", zb(v) == zb(sp))])
    nt = ex.ty.find(P + "NodeType"); D = {v["n"]: v["d"] for v in ex.ty[nt]["v"]}
    n = z3.Int("node_type"); st = St(); st.pc.append(z3.And(n >= 0, n < len(ex.ty[nt]["v"])))
    outs = ex.call_fn(st, P + "allow_insert", [ref(a), SEnum(nt, n, {})])
    void = Or(*[word(ex, st, t, w) for w in VOID]); plain = Or(word(ex, st, t, "title"), word(ex, st, t, "textarea")); special = Or(word(ex, st, t, "svg"), word(ex, st, t, "math"))
    sp = And(Not(void), Or(Not(plain), n == D["Text"], n == D["SpacesBetweenTag"]), Or(n != D["XMLCDATA"], special))
    outcomes(rec, ex, "allow_insert", outs, Pp, lambda s, v: [("result equals the definition", zb(v) == zb(sp))])
    return rec, ex

def unit_helpers(J):
    """contracts used by the parser and renderer units"""
    rec = Rec("helpers"); ex = mk(J)
    Pp = {"C01", "C05", "C09", "C11", "C13", "C14", "C19", "C20"}
    a, b = seqc(ex, "a"), seqc(ex, "b"); ta, tb = a.segs[0][1], b.segs[0][1]
    ot = opt_ty(ex, "NameCase")
    outs = ex.call_fn(St(), P + "is_equal_chars", [ref(a), ref(b), ref(Agg(ot, 0, ()))])
    outcomes(rec, ex, "is_equal_chars", outs, {"C01", "C05", "C19"}, lambda s, v: [("result == (a == b)", zb(v) == z3.And(SLEN(ta) == SLEN(tb), mism(ta, tb) >= SLEN(ta)))])
    nct = ex.ty[ot]["a"][0]
    for w in spec.WORDS:
        for cs in (None, 0, 1):
            s0 = St(); g = spec.word_eq(ex, s0, a, w, cs)
            case = Agg(ot, 0, ()) if cs is None else Agg(ot, 1, (Agg(nct, cs, ()),))
            outcomes(rec, ex, "is_equal_chars(%s, %s)" % (w, cs), ex.call_fn(s0, P + "is_equal_chars", [ref(a), ref(ex.chars(w)), ref(case)]), Pp, lambda s, v: [("result equals the definition", zb(v) == zb(g))])
    outs = ex.call_fn(St(), P + "is_equal_chars_ignore_case", [ref(a), ref(b)])
    eqi = z3.And(SLEN(ta) == SLEN(tb), mismi(ta, tb) >= SLEN(ta))
    outcomes(rec, ex, "is_equal_chars_ignore_case", outs, {"C01", "C05"}, lambda s, v: [("first == equal ignoring case", zb(v.f[0]) == eqi), ("second == identical", zb(v.f[1]) == z3.And(eqi, mism(ta, tb) >= SLEN(ta)))])
    outs = ex.call_fn(St(), P + "chars_trim_end", [ref(a)])
    def post(s, v):
        w = models.seqarg(ex, s, v)
        return [("length == trimlen", zi(ex.seq_len(s, w)) == trimlen(ta)), ("is the prefix", z3.Or(trimlen(ta) == 0, ex.term(s, w) == ssub(ta, z3.IntVal(0), trimlen(ta))))]
    outcomes(rec, ex, "chars_trim_end", outs, {"C01", "C05", "C13", "C14"}, post)
    return rec, ex

def unit_region(J):
    rec = Rec("region"); ex = mk(J); Pp = {"C12", "C01"}
    a = seqc(ex, "context"); t = a.segs[0][1]; idx = z3.Int("index")
    st = St(); st.pc.append(z3.And(idx >= 0, idx < ISIZE, SLEN(t) < ISIZE))
    def grows(ex, s0, W, uid):
        """no counter runs ahead of the characters read"""
        return [("growth", lambda s, k=k, g=g, x0=g(s0): zi(g(s)) <= k(s) + zi(x0)) for k, sq in spec.counters(ex, s0, W, uid) for _, g in loops.int_leaves(ex, s0, W)]
    ex.loop_templates = ex.loop_templates + [grows]
    outs = ex.call_fn(st, "rphtml::position::CodeRegion::from_context_index", [ref(a), idx])
    F = {f[0]: i for i, f in enumerate(ex.ty[ex.ty.find("rphtml::position::CodeRegion")]["v"][0]["f"])}
    k = z3.If(idx + 1 <= SLEN(t), idx + 1, SLEN(t))
    def post(s, v): return [("index", eq(v.f[F["index"]], idx)), ("line == 1 + line breaks up to the index", zi(v.f[F["line"]]) == linef(t, k)), ("col == characters after the last line break", zi(v.f[F["col"]]) == colf(t, k))]
    outcomes(rec, ex, "CodeRegion::from_context_index", outs, Pp, post)
    return rec, ex
UNITS = {"util": unit_util, "tags": unit_tags, "helpers": unit_helpers, "region": unit_region}
if __name__ == "__main__":
    import sys, time
    J = json.load(open("/verif/build/mir.json"))
    for u in sys.argv[1:] or UNITS:
        t = time.time(); rec, ex = UNITS[u](J)
        print("==", u, "%.1fs" % (time.time() - t), len(rec.obls), "obligations", sum(o["status"] == "proved" for o in rec.obls), "proved")
        for o in rec.obls:
            if o["status"] != "proved": print("   ", o["name"], o["status"], o["detail"])
        print(ex.summaries)
