"""Reading the rendering again (C04), as lemmas over the specification machine.

S reads the source, T the rendering of what S has read (out_units.py: each step of S appends what is kept of its character).  Outside the
gaps of a tag S and T are related states (machine_units.rel).  In a gap T waits for the next character: U is T after one more space (or T
itself after a quoted value), and S and U are related although their modes may differ."""
import z3
from core import *
from vc import Rec
import pstep, spec
from pstep import cases, eof_cases, setup as psetup
from machine_units import mstate, with_inv, apply, rel, rassume, rgoals, lemma, uniq, mname, refuted, need, walk, MODES, sym_ren, ID, extend, Ren, prove_rel
from out_units import kept
from render_units import setup as rsetup, needq, anyq, NEEDQ
from spec import QI
P4 = {"C04"}
BETWEEN = ("gap", "aft", "wv", "slash")
def between(m): return m is not None and m[0] == "in" and m[2] in BETWEEN
def alloff(V): return [z3.Not(zb(V.opt(o))) for o in V.L.O]
def chars(ps):
    out = []
    for p in ps: out += [ord(x) for x in p] if isinstance(p, str) else [p[0]]
    return out
def relto(A, B_, m, r, weak=False):
    """the relation; the characters of '[CDATA[' may differ in case"""
    return [c for c in rel(A, B_, m, r, weak) if not (m[0] == "bang" and m[1] == "[CDATA[" and c[0] == "the same pending characters")]
def keeps(V, m, e, c):
    kp = kept(V, m, e, c); return [([kp[1]], [" >"]), ([z3.Not(kp[1])], [">"])] if isinstance(kp, tuple) else [([], kp)]
def follow(rec, ex, S2, ms2, T, mt, cs, r, base, lab, props, pairs=None, weak=False):
    """T reads the characters and is related to S2"""
    W = walk(T, mt, cs, uniq(S2.st.pc, base)); n = 0
    for T2, mt2, tr in W:
        if T2 is None: need(rec, False, "%s: %s" % (lab, mt2), props); continue
        pc = uniq(S2.st.pc, T2.st.pc, base)
        if refuted(ex, pc): continue
        n += 1; ok = mt2 == ms2 if pairs is None else between(mt2)
        need(rec, ok, "%s: T is in %s" % (lab, mname(mt2)), props)
        if not ok: continue
        if pairs is not None: need(rec, (ms2, mt2) in PAIRS, "%s: %s and %s are gaps that are compared" % (lab, mname(ms2), mname(mt2)), props)
        r2 = extend(r, S2.prev_next, T.next()) if S2.isnew else r
        prove_rel(rec, ex, uniq(pc, S2.st.pc, T2.st.pc), relto(S2, T2, mt2, r2, weak), lab, props)
    need(rec, n >= 1, "%s: T goes on" % lab, props)
def sstep(S, e, c):
    A = apply(S, e, c, True); A.prev_next = S.next(); A.isnew = e.new is not None; return A
def unit_same(modes, props, weak=False):
    """S and T in the same mode"""
    def run(J):
        rec = Rec("reading the rendering%s again (%s ...)" % (" without quotes" if weak else "", mname(modes[0]))); c = z3.Int("c")
        for m in modes:
            if between(m): continue
            ex, L = psetup(J); KNOWN.clear(); r = sym_ren(); S, T = with_inv(mstate(ex, L, m, "_s"), m), with_inv(mstate(ex, L, m, "_t"), m)
            base = [c >= 0, c <= 0x10FFFF] + alloff(S); rassume(base, relto(S, T, m, r, weak))
            if weak and m[0] == "in" and m[2] == "val": base.append(z3.Or(zi(S.d("mark_char")) == 32, z3.Not(L.ahas(last(S)))))     # the others: unit_values
            rec.covers.append(("related states in %s" % mname(m), not refuted(ex, uniq(S.st.pc, T.st.pc, base))))
            for k, e in enumerate(cases(S, m, c)):
                if e.err is not None or refuted(ex, uniq(S.st.pc, T.st.pc, base, [e.g])): continue
                for g, kp in keeps(S, m, e, c):
                    if len(kp) == 1 and isinstance(kp[0], tuple) and not between(e.mode): continue      # the same character: congruence
                    if g and refuted(ex, uniq(S.st.pc, T.st.pc, base, [e.g], g)): continue
                    S2 = sstep(S, e, c); lab = "%s: %s (%d)" % (mname(m), e.name, k)
                    if between(e.mode): follow(rec, ex, S2, e.mode, T, m, chars(kp) or [32], r, base + g, lab, props, True, weak)
                    else: follow(rec, ex, S2, e.mode, T, m, chars(kp), r, base + g, lab, props, None, weak)
        return rec, ex
    return run
PAIRS = [(("in", d) + s, ("in", d, u)) for d in (False, True) for s, u in ((("gap",), "gap"), (("slash", False), "gap"), (("slash", False), "aft"), (("aft",), "aft"), (("slash", True), "aft"), (("wv",), "aft"))]
def unit_gaps(doct, props, weak=False):
    """S and U in the gaps of a tag"""
    def run(J):
        rec = Rec("reading the rendering%s again (gaps of %s)" % (" without quotes" if weak else "", "doctypes" if doct else "tags")); c = z3.Int("c")
        for ms, mu in PAIRS:
            if ms[1] != doct: continue
            ex, L = psetup(J); KNOWN.clear(); r = sym_ren(); S, U = with_inv(mstate(ex, L, ms, "_s"), ms), with_inv(mstate(ex, L, mu, "_u"), mu)
            base = [c >= 0, c <= 0x10FFFF] + alloff(S); rassume(base, relto(S, U, mu, r, weak))
            rec.covers.append(("related states in %s, %s" % (mname(ms), mname(mu)), not refuted(ex, uniq(S.st.pc, U.st.pc, base))))
            for k, e in enumerate(cases(S, ms, c)):
                if e.err is not None or refuted(ex, uniq(S.st.pc, U.st.pc, base, [e.g])): continue
                for g, kp in keeps(S, ms, e, c):
                    if g and refuted(ex, uniq(S.st.pc, U.st.pc, base, [e.g], g)): continue
                    S2 = sstep(S, e, c); lab = "%s, %s: %s (%d)" % (mname(ms), mname(mu), e.name, k)
                    if weak and e.name == "a quoted value starts":
                        need(rec, e.mode == ("in", doct, "val") and mu == ("in", doct, "aft"), lab + ": a quoted value", props); prove_rel(rec, ex, uniq(S2.st.pc, U.st.pc, base), vrel(S2, U, doct, r), lab, props); continue
                    if kp == []:
                        need(rec, between(e.mode), lab + ": still in a gap", props); need(rec, (e.mode, mu) in PAIRS, "%s: %s and %s are gaps that are compared" % (lab, mname(e.mode), mname(mu)), props)
                        prove_rel(rec, ex, uniq(S2.st.pc, U.st.pc, base), relto(S2, U, mu, r, weak), lab, props); continue
                    cs = chars(kp)
                    if cs[0] == 32: cs = cs[1:]
                    follow(rec, ex, S2, e.mode, U, mu, cs, r, base + g, lab, props, None, weak)
        return rec, ex
    return run
def unit_spaces(J):
    """what a space before '>' , '=' or in a gap does"""
    rec = Rec("spaces in tags"); PP = {"C04", "C15"}
    TM = [("name",)] + [("in", d, s) for d in (False, True) for s in ("key", "val")]
    def both(m, cs1, cs2, hyp=lambda V: []):
        ex, L = psetup(J); KNOWN.clear(); V = with_inv(mstate(ex, L, m, "_"), m); V.st.pc += alloff(V) + hyp(V); n = 0; lab = "%s: %r and %r" % (mname(m), "".join(map(chr, cs1)), "".join(map(chr, cs2)))
        rec.covers.append((lab, not refuted(ex, V.st.pc)))
        for A, ma, ta in walk(V, m, cs1):
            for B_, mb, tb in walk(V, m, cs2):
                if A is None or B_ is None: need(rec, False, lab + ": accepted", PP); continue
                pc = uniq(A.st.pc, B_.st.pc)
                if refuted(ex, pc): continue
                n += 1; need(rec, ma == mb, lab + ": the same mode", PP)
                if ma == mb: prove_rel(rec, ex, pc, rel(A, B_, ma, ID), lab, PP)
        need(rec, n >= 1, lab + ": happens", PP); return ex, L
    unq = lambda V: [zi(V.d("mark_char")) == 32]
    for m in TM: both(m, [62], [32, 62], unq if m[0] == "in" and m[2] == "val" else lambda V: [])
    for d in (False, True):
        both(("in", d, "key"), [61], [32, 61]); both(("in", d, "gap"), [32], [])
    ex, L = psetup(J); KNOWN.clear(); V = with_inv(mstate(ex, L, ("dname",), "_"), ("dname",)); V.st.pc += alloff(V)
    for A, ma, ta in walk(V, ("dname",), [32]):
        need(rec, A is not None, "a space after the doctype keyword is accepted", PP)
        if A is not None: lemma(rec, ex, A.st.pc, L.qa.len(L.mf(A.at("meta", A.cur()), "attrs")) == 0, "the doctype keyword: no items yet", PP)
    return rec, ex
# ---------------------------------------------------------------- remove_attr_quote: the value of a quoted attribute is written at its end
def last(V):
    A_ = V.L.mf(V.at("meta", V.cur()), "attrs"); return V.L.qa.at(A_, V.L.qa.len(A_) - 1)
def bare(cls): return [c for c in cls if c[0] not in ("the same pending characters", "the same quote")]
def vrel(S, U, d, r):
    """S in a quoted value, U after its key"""
    ex, L = S.ex, S.L; mk = zi(S.d("mark_char")); v = ex.term(S.st, S.pend())
    out = bare(rel(S, U, ("in", d, "aft"), r, True))
    out.append(("the value has a key and a quote", (), lambda: z3.And(L.ahas(last(S)), z3.Or(mk == 34, mk == 39)), None))
    out.append(("the quote is not in the value", (I,), lambda j: z3.Implies(z3.And(0 <= j, j < QI.len(v)), QI.at(v, j) != mk), lambda j: [QI.at(v, j)]))
    return out
def yrel(S, Y, d, r, k, quoted):
    """Y has read k characters of the value"""
    ex = S.ex; v, p = ex.term(S.st, S.pend()), ex.term(Y.st, Y.pend()); out = bare(rel(S, Y, ("in", d, "val"), r, True))
    out.append(("the quote", (), lambda: zi(Y.d("mark_char")) == (zi(S.d("mark_char")) if quoted else 32), None))
    out.append(("as many characters", (), lambda: QI.len(p) == k, None))
    out.append(("the same characters", (I,), lambda j: z3.Implies(z3.And(0 <= j, j < k), QI.at(p, j) == QI.at(v, j)), lambda j: [QI.at(p, j)]))
    return out
def anyq_def(v, j):
    """anyq: some character needs quotes (definition, at an index)"""
    return z3.Implies(z3.And(0 <= j, j < QI.len(v), z3.Or(*[QI.at(v, j) == x for x in NEEDQ])), anyq(v))
def unit_values(d):
    def run(J):
        rec = Rec("reading unquoted values again (%s)" % ("doctypes" if d else "tags")); PP = {"C15"}; c, k = z3.Int("c"), z3.Int("k"); V_, A_, W_, G_ = [("in", d, x) for x in ("val", "aft", "wv", "gap")]
        def fresh_(*modes):
            ex, L = rsetup(J); KNOWN.clear(); r = sym_ren(); VS = [with_inv(mstate(ex, L, m, "_%d" % i), m) for i, m in enumerate(modes)]; return ex, L, r, VS
        # the characters of the value, as S reads them
        ex, L, r, (S, U) = fresh_(V_, A_); base = [c >= 0, c <= 0x10FFFF] + alloff(S); rassume(base, vrel(S, U, d, r)); rec.covers.append(("a quoted value", not refuted(ex, uniq(S.st.pc, U.st.pc, base))))
        for e in cases(S, V_, c):
            if e.err is not None or refuted(ex, uniq(S.st.pc, U.st.pc, base, [e.g])): continue
            need(rec, e.name in ("a character of a value", "the quote ends the value"), "in a quoted value: " + e.name, PP)
            if e.name == "a character of a value": S2 = sstep(S, e, c); prove_rel(rec, ex, uniq(S2.st.pc, U.st.pc, base), vrel(S2, U, d, r), "one more character of the value", PP)
        # '='
        base = alloff(S); rassume(base, vrel(S, U, d, r)); xrel = lambda S, X: bare(rel(S, X, W_, r, True))
        for X, mx, tr in walk(U, A_, [61], uniq(S.st.pc, base)):
            need(rec, X is not None and mx == W_, "'=' after the key", PP)
            if X is not None: prove_rel(rec, ex, uniq(S.st.pc, X.st.pc, base), xrel(S, X), "'=' after the key", PP)
        # the first character: the quote, or that of the value
        own = lambda S: [cl for cl in vrel(S, S, d, ID) if cl[0] in ("the value has a key and a quote", "the quote is not in the value")]
        for quoted in (True, False):
            w = "quoted" if quoted else "unquoted"
            def hyp(S):
                v = S.ex.term(S.st, S.pend()); j = z3.Int("jq")
                return [] if quoted else [z3.Not(needq(v)), z3.ForAll([j], anyq_def(v, j), patterns=[QI.at(v, j)])]
            ex, L, r, (S, X) = fresh_(V_, W_); v = ex.term(S.st, S.pend()); base = alloff(S) + hyp(S); rassume(base, bare(rel(S, X, W_, r, True))); rassume(base, own(S)); rec.covers.append(("a value to be written %s" % w, not refuted(ex, uniq(S.st.pc, X.st.pc, base))))
            c0 = zi(S.d("mark_char")) if quoted else QI.at(v, z3.IntVal(0)); n = 0
            for Y, my, tr in walk(X, W_, [c0], uniq(S.st.pc, base)):
                n += 1; need(rec, Y is not None and my == V_, "%s: the first character after '='" % w, PP)
                if Y is not None and my == V_: prove_rel(rec, ex, uniq(S.st.pc, Y.st.pc, base), yrel(S, Y, d, r, z3.IntVal(0 if quoted else 1), quoted), "%s: the first character after '='" % w, PP)
            need(rec, n >= 1, "%s: goes on" % w, PP)
            # one more
            ex, L, r, (S, Y) = fresh_(V_, V_); v = ex.term(S.st, S.pend()); base = alloff(S) + hyp(S) + [0 <= k, k < QI.len(v)]; rassume(base, yrel(S, Y, d, r, k, quoted)); rassume(base, own(S)); n = 0; rec.covers.append(("%s: part of the value" % w, not refuted(ex, uniq(S.st.pc, Y.st.pc, base))))
            for Y2, my, tr in walk(Y, V_, [QI.at(v, k)], uniq(S.st.pc, base)):
                n += 1; need(rec, Y2 is not None and my == V_, "%s: one more character" % w, PP)
                if Y2 is not None and my == V_: prove_rel(rec, ex, uniq(S.st.pc, Y2.st.pc, base), yrel(S, Y2, d, r, k + 1, quoted), "%s: one more character" % w, PP)
            need(rec, n >= 1, "%s: goes on" % w, PP)
            # the end
            ex, L, r, (S, Y) = fresh_(V_, V_); v, p = ex.term(S.st, S.pend()), ex.term(Y.st, Y.pend()); base = alloff(S) + hyp(S); rassume(base, yrel(S, Y, d, r, QI.len(v), quoted)); rassume(base, own(S))
            lemma(rec, ex, uniq(S.st.pc, Y.st.pc, base, [spec.mism(p, v) >= 0]), p == v, "%s: the whole value" % w, PP); base.append(p == v)
            mk = zi(S.d("mark_char")); n = 0
            for S2, ms, tr in walk(S, V_, [mk], base):
                if S2 is None: continue
                for Y2, my, tr in walk(Y, V_, [mk if quoted else 32], uniq(S2.st.pc, base)):
                    n += 1; need(rec, Y2 is not None and my == G_ and ms == G_, "%s: after the value" % w, PP)
                    if Y2 is not None and my == G_: prove_rel(rec, ex, uniq(S2.st.pc, Y2.st.pc, base), rel(S2, Y2, G_, r, True), "%s: after the value" % w, PP)
            need(rec, n >= 1, "%s: ends" % w, PP)
        return rec, ex
    return run
def unit_trans(modes, weak=False):
    """the relation is transitive"""
    def run(J):
        rec = Rec("transitivity of the relation%s (%s ...)" % (", whatever the quotes" if weak else "", mname(modes[0]))); PP = {"C04", "C06", "C07", "C08"} if not weak else {"C15"}
        for m in modes:
            ex, L = psetup(J); KNOWN.clear(); r, s = sym_ren("_a"), sym_ren("_b"); V = [with_inv(mstate(ex, L, m, "_%d" % i), m) for i in range(3)]; base = []
            rassume(base, relto(V[0], V[1], m, r, weak)); rassume(base, relto(V[1], V[2], m, s, weak)); pc = uniq(*[v.st.pc for v in V], base)
            rec.covers.append(("three related states in %s" % mname(m), not refuted(ex, pc)))
            prove_rel(rec, ex, pc, relto(V[0], V[2], m, Ren(lambda h: s.f(r.f(h)), lambda h: r.inv(s.inv(h))), weak), mname(m), PP)
        return rec, ex
    return run
GR = [MODES[i::4] for i in range(4)]
UNITS = []
for w, ps in ((False, {"C04"}), (True, {"C15"})):
    x = " without quotes" if w else ""
    UNITS += [("gaps%d%s" % (d, x), unit_gaps(bool(d), ps, w), ps) for d in (0, 1)] + [("same%d%s" % (i, x), unit_same(GR[i], ps, w), ps) for i in range(4)]
    UNITS += [("trans%d%s" % (i, x), unit_trans(GR[i], w), {"C15"} if w else {"C04", "C06", "C07", "C08"}) for i in range(4)]
UNITS += [("spaces", unit_spaces, {"C04", "C15"})] + [("values%d" % d, unit_values(bool(d)), {"C15"}) for d in (0, 1)]
if __name__ == "__main__":
    import sys, json, time
    J = json.load(open("/verif/build/mir.json"))
    for n, u, ps in UNITS:
        if len(sys.argv) > 1 and not any(a in n for a in sys.argv[1:]): continue
        t = time.time(); rec, ex = u(J)
        print("==", n, rec.unit, "%.1fs" % (time.time() - t), len(rec.obls), sum(o["status"] == "proved" for o in rec.obls), [x for x in rec.covers if not x[1]], flush=True)
        for o in rec.obls:
            if o["status"] != "proved": print("   ", o["status"], o["name"], "%.1f" % (o["ms"] / 1000), (o["detail"] or "")[:60])
