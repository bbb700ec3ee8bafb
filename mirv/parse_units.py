"""Doc::parse and Doc::into_root on top of the contracts of Doc::new, Doc::next and Doc::eof (which the product proves)."""
import z3, json
from core import *
from vc import Rec
import spec, models, loops, ex as exm
from spec import *
import pstep
from pstep import Lay, P, isok
ALL = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C18", "C19", "C21", "C23"}

def unit_parse(J):
    rec = Rec("Doc::parse"); ex, L = pstep.setup(J); ex.obsrec = rec; T = ex.ty; rec.functions |= {"Doc::parse", "Doc::into_root"}
    st = St(); st.nbase = z3.Int("next0"); st.pc.append(z3.And(st.nbase >= 1, st.nbase < ISIZE))
    for n, t in ex.node_fields: st.heap[n] = z3.Const("H_" + n, z3.ArraySort(I, T.sort(t)))
    ctx = z3.Const("content", SI); content = SeqV(T.chart, [("s", ctx)]); OPT = Agg(L.optt, 0, [z3.Bool("o_" + f[0]) for f in T[L.optt]["v"][0]["f"]])
    st.ghost["steps"] = z3.IntVal(-1); st.pc.append(QI.len(ctx) < ISIZE)
    STATE = {f: (RcV("node", 0) if f == "root" else Opq("doc_" + f)) for f in L.D}
    def doc(ex, s, a):
        p = models.base_ptr(ex, s, a); return p, ex.load(s, p)
    def untouched(ex, s, v, what):
        for f, i in L.D.items():
            if f in ("parse_options", "position"): continue
            if not loops.same(v.f[i], STATE[f]): rec.fail("Doc::parse: %s: Doc.%s was changed" % (what, f), ALL, repr(v.f[i]))
        rec.prove(ex, s, z3.And(*[zb(x) == zb(y) for x, y in zip(v.f[L.D["parse_options"]].f, OPT.f)]), "Doc::parse: %s: with the given options" % what, ALL)
        rec.prove(ex, s, zi(v.f[L.D["position"]]) == s.ghost["steps"], "Doc::parse: %s: position is the number of characters read" % what, ALL)
    def same_ctx(ex, s, a, what):
        x = models.seqarg(ex, s, a); rec.prove(ex, s, zb(ex.seq_eq(x, content, s)) if not loops.same(x, content) else z3.BoolVal(True), "Doc::parse: %s: with the whole input as context" % what, ALL)
    def result(s, ty):
        """Ok(()) or some error"""
        s2 = s.copy(); vs = T[ty]["v"]; e = BoxV(ex.newcell(s2, Opq("error"))); s2.ghost["error"] = e.cell
        return [(s, Agg(ty, 0, (ex.UNIT,))), (s2, Agg(ty, 1, (e,)))]
    def c_new(ex, s, a, t):
        rec.prove(ex, s, s.ghost["steps"] == -1, "Doc::parse: one document", ALL)
        s.ghost["steps"] = z3.IntVal(0)
        d = dict(STATE, position=0, parse_options=Agg(L.optt, 0, [z3.Bool("d_" + f[0]) for f in T[L.optt]["v"][0]["f"]]))
        return [(s, Agg(L.doct, 0, [d[f[0]] for f in T[L.doct]["v"][0]["f"]]))]
    def c_next(ex, s, a, t):
        p, v = doc(ex, s, a[0]); k = s.ghost["steps"]
        untouched(ex, s, v, "Doc::next"); same_ctx(ex, s, a[2], "Doc::next")
        rec.prove(ex, s, z3.And(0 <= k, k < QI.len(ctx), zi(a[1]) == AT(ctx, k)), "Doc::parse: Doc::next gets the characters one after the other", ALL)
        r = result(s, t["dt"]); f = list(v.f); f[L.D["position"]] = simp(k + 1); ex.store(s, p, Agg(v.ty, v.v, f)); s.ghost["steps"] = z3.simplify(k + 1)
        return r
    def c_eof(ex, s, a, t):
        p, v = doc(ex, s, a[0]); k = s.ghost["steps"]
        untouched(ex, s, v, "Doc::eof"); same_ctx(ex, s, a[1], "Doc::eof")
        rec.prove(ex, s, k == QI.len(ctx), "Doc::parse: Doc::eof after the last character", ALL)
        r = result(s, t["dt"]); s.ghost["eof"] = True; return r
    ex.contracts[P + "Doc::new"] = c_new; ex.contracts[P + "Doc::next"] = c_next; ex.contracts[P + "Doc::eof"] = c_eof
    def tm(ex, s0, W, uid):
        C = []
        for k, sq in spec.counters(ex, s0, W, uid):
            C.append(("steps", lambda s, k=k: zi(s.ghost["steps"]) == k(s)))
        C.append(("bound", lambda s: z3.And(0 <= zi(s.ghost["steps"]), zi(s.ghost["steps"]) <= QI.len(ctx))))
        for l in sorted(W, key=repr):
            v = loops.read(s0, l)
            if not isinstance(v, bool) and (isinstance(v, int) or isz(v) and z3.is_int(v)): C.append(("pos", lambda s, l=l: zi(loops.read(s, l)) == zi(s.ghost["steps"])))
        return C
    ex.loop_templates = [tm]
    rec.covers.append((rec.unit, ex.feasible(st))); ok = err = 0
    h0 = dict(st.heap)
    for k, o in enumerate(ex.call_fn(st, P + "Doc::parse", [Ptr(("V", content)), OPT])):
        if o.kind == "unsup": rec.unsup("Doc::parse: %s at %s" % (o.msg, o.loc), ALL, o.msg); continue
        if o.kind == "panic": rec.prove(ex, o.st, False, "Doc::parse: no panic (%s at %s)" % (o.msg, o.loc), {"C01"}); continue
        if not (isinstance(o.val, Agg) and o.val.v in (0, 1)): rec.unsup("Doc::parse: symbolic result", ALL, repr(o.val)); continue
        if not isok(o.val):
            err += 1; e = o.val.f[0]
            rec.prove(ex, o.st, z3.BoolVal(isinstance(e, BoxV) and o.st.ghost.get("error") == e.cell), "Doc::parse: an error of a step is returned as it is [path %d]" % k, ALL); continue
        ok += 1; s = o.st
        rec.prove(ex, s, z3.BoolVal("error" not in s.ghost and s.ghost.get("eof", False)), "Doc::parse: no document without the whole input and its end [path %d]" % k, ALL)
        hd = o.val.f[0]; rc = hd.f[0] if isinstance(hd, Agg) else None
        if not (isinstance(rc, RcV) and rc.k == "doc"): rec.unsup("Doc::parse: shape of the result", ALL, repr(hd)); continue
        dv = s.cells[rc.h]; untouched(ex, s, dv, "the result")
        for n in h0:
            if n != "document": rec.prove(ex, s, z3.BoolVal(s.heap[n].eq(h0[n])), "Doc::parse: Node.%s is as the steps left it [path %d]" % (n, k), ALL)
        sk = z3.Int("sk"); rec.prove(ex, s, z3.Implies(sk != 0, z3.Select(s.heap["document"], sk) == z3.Select(h0["document"], sk)), "Doc::parse: only the root knows the document [path %d]" % k, {"C03"})
        v = T.unpack(dict(ex.node_fields)["document"], exm.simpsel(s.heap["document"], z3.IntVal(0)), s)
        rec.prove(ex, s, z3.BoolVal(isinstance(v, Agg) and v.v == 1 and isinstance(v.f[0], WeakV) and v.f[0].k == "doc" and v.f[0].h == rc.h), "Doc::parse: the root knows its document [path %d]" % k, {"C03", "C20"})
    if not ok or not err: rec.unsup("Doc::parse: no outcome of a kind", ALL, "%d ok, %d errors" % (ok, err))
    return rec, ex
UNITS = [("Doc::parse", unit_parse, ALL)]
if __name__ == "__main__":
    import sys, time; sys.setrecursionlimit(20000)
    J = json.load(open("/verif/build/mir.json"))
    for n, f, ps in UNITS:
        t = time.time(); rec, ex = f(J)
        print("==", n, "%.1fs" % (time.time() - t), len(rec.obls), "obligations", sum(o["status"] == "proved" for o in rec.obls), "proved", [n for n, ok in rec.covers if not ok])
        for o in rec.obls:
            if o["status"] != "proved": print("   ", o["status"], o["name"], (o["detail"] or "")[:400])
            else: print("   ok", o["name"])
        print("  ", ex.summaries, rec.notes, flush=True)
