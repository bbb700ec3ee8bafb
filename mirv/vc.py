"""Obligation bookkeeping."""
import time, z3
from core import *

SOFT = set()     # reasons why the code is outside the specification's view: failures are undecided then
def refuted(ex, st, ms=3000):
    """are the assumptions of a path contradictory?"""
    so = mksolver(ms); so.add(*st.pc); so.add(*ex.axioms); return so.check() == z3.unsat
class Rec:
    def __init__(s, unit, timeout=10000):
        s.unit = unit; s.obls = []; s.timeout = timeout; s.covers = []
        s.functions = set(); s.notes = []
    def add(s, name, props, status, ms=0, detail=None, model=None):
        if status == "failed" and SOFT: status = "unknown"; detail = "%s (%s)" % (detail, "; ".join(sorted(SOFT)))
        s.obls.append({"unit": s.unit, "name": name, "props": sorted(props), "status": status, "ms": round(ms, 1), "detail": detail, "model": model})
        return status == "proved"
    def prove(s, ex, st, goal, name, props, extra=(), timeout=None, seeds=(), seed=0):
        """pc /\\ axioms |= goal"""
        if isz(goal): goal = simp(goal)
        if goal is True: return s.add(name, props, "proved")
        if goal is False: goal = z3.BoolVal(False)
        t = time.time()
        sol = mksolver(timeout or s.timeout, seed)
        for c in st.pc: sol.add(c)
        for c in ex.axioms: sol.add(c)
        for c in extra: sol.add(c)
        sol.add(z3.Not(goal))
        r = sol.check()
        ms = (time.time() - t) * 1000
        ex.nprove += 1; ex.tprove += ms / 1000
        if r == z3.unsat: return s.add(name, props, "proved", ms)
        if r == z3.sat and not st.ghost.get("approx"):
            m = sol.model()
            return s.add(name, props, "failed", ms, "counterexample: " + brief(m), seqs(m))
        why = sol.reason_unknown()
        if "incomplete" in why and not st.ghost.get("approx"):
            try: m = sol.model()
            except z3.Z3Exception: m = None
            return s.add(name, props, "failed", ms, "candidate counterexample: " + (brief(m) if m is not None else why), seqs(m) if m is not None else None)
        if seeds: return s.prove(ex, st, goal, name, props, extra, timeout, seeds[1:], seeds[0])
        return s.add(name, props, "unknown", ms, "solver: " + why)
    def fail(s, name, props, detail): return s.add(name, props, "failed", 0, detail)
    def unsup(s, name, props, detail): return s.add(name, props, "unsupported", 0, detail)
    def cover(s, ex, st, name):
        s.covers.append((name, ex.feasible(st)))

def brief(m):
    out = []
    for d in m.decls():
        if d.arity() == 0:
            v = m[d]
            if z3.is_int_value(v) or z3.is_true(v) or z3.is_false(v):
                out.append("%s=%s" % (d.name(), v))
            elif is_seqsort(v.sort()) and not d.name().startswith(("cat", "empty")):
                w = seqval(m, d())
                if w is not None: out.append("%s=%r" % (d.name(), "".join(chr(c) if 0 <= c < 0x110000 and not 0xd800 <= c < 0xe000 else "?" for c in w)))
    return "; ".join(out[:40])
def seqval(m, x):
    q = seqth(x)
    if q.es != I: return None
    n = m.eval(q.len(x), model_completion=True)
    if not z3.is_int_value(n) or not 0 <= n.as_long() <= 32: return None
    r = []
    for i in range(n.as_long()):
        e = m.eval(q.at(x, z3.IntVal(i)), model_completion=True)
        r.append(e.as_long() if z3.is_int_value(e) else 63)
    return r
def seqs(m):
    """hints for the search: characters and strings in the counterexample"""
    words, chars, ints = set(), set(), set()
    for d in m.decls():
        if d.arity(): continue
        v = m[d]
        if z3.is_int_value(v):
            n = v.as_long()
            if 0 <= n < 0x110000 and not 0xD800 <= n < 0xE000: chars.add(n)
            if 2 <= n <= 5000: ints.add(n)
        elif is_seqsort(v.sort()):
            w = seqval(m, d())
            if w and len(w) <= 24 and all(0 <= c < 0x110000 and not 0xD800 <= c < 0xE000 for c in w): words.add("".join(map(chr, w)))
    return {"words": sorted(words)[:20], "chars": sorted(chars)[:40], "ints": sorted(ints)[:20]}
