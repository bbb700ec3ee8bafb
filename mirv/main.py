"""main.py <property> <tier> <out.json> [--stop]: the proof part of a check.

Dumps the MIR of /repo's current tree, generates the obligations of the units a property depends on and has them
discharged, in parallel.  --stop: stop at the first failed obligation of the property."""
import sys, os, json, time, traceback
os.environ.setdefault("PYTHONHASHSEED", "0")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import z3, dump, core
from vc import Rec
import pure_units, pstep
UNITS = []     # (name, function(J) -> (Rec, ex), properties)
for n, f, ps in (("util", pure_units.unit_util, {"C22"}), ("tags", pure_units.unit_tags, {"C22"}), ("helpers", pure_units.unit_helpers, {"C01", "C05", "C07", "C09", "C13", "C14", "C19", "C20"}), ("region", pure_units.unit_region, {"C12", "C01"})):
    UNITS.append((n, f, ps))
PRODUCT = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C15", "C18", "C19", "C23"}
try:
    import extra_units
    UNITS += extra_units.UNITS
except ImportError: pass

COMPOSED = {"C04", "C06", "C07", "C08", "C15"}     # lemmas over the whole machine: every obligation of the product is part of the argument
def _unit(a):
    i, deadline = a; n, f, ps = UNITS[i]; t = time.time()
    try: rec, ex = f(pstep.JJ)
    except Exception as x:
        rec = Rec(n); rec.unsup("%s: %s" % (n, x), ps, traceback.format_exc()); return rec, {}, {}
    return rec, {}, pstep.stats(ex, t)

def run(prop, budget, stop=False, procs=8, show=None):
    import multiprocessing as mp
    t0 = time.time(); J = dump.dump(); pstep.JJ = J; pstep.ONLY = {prop, "C06"} if prop in COMPOSED else {prop}; pstep.DEADLINE = t0 + budget
    res = []; seen = set(); left = 0; hit = False
    units = [i for i, (n, f, ps) in enumerate(UNITS) if prop in ps]
    with mp.get_context("fork").Pool(procs, initializer=pstep._init, maxtasksperchild=1) as pool:
        pend = []
        if prop in PRODUCT: pend.append(pool.apply_async(pstep._work, ((None, ("wait",)),)))
        pend += [pool.apply_async(_unit, ((i, t0 + budget),)) for i in units]
        while pend:
            time.sleep(0.01); rest = []; add = []
            for p in pend:
                if not p.ready(): rest.append(p); continue
                try: rec, nx, st = p.get()
                except Exception as x:
                    rec = Rec("worker"); rec.unsup("worker: %r" % (x,), pstep.ALLP, repr(x)); nx, st = {}, {}
                res.append((rec, st))
                if show: show(rec, st)
                if stop and any(o["status"] == "failed" and prop in o["props"] for o in rec.obls): hit = True
                for k, c in nx.items():
                    if k in seen: continue
                    seen.add(k); add.append(pool.apply_async(pstep._work, ((c, k[4]),)))
                    if prop in pstep.EOFP: add.append(pool.apply_async(pstep._eof, ((c, k[4]),)))
            pend = rest + add
            if hit: break
            if time.time() > t0 + budget + 15: left = len(pend); break
        pool.terminate()
    return J, res, seen, left, hit

def main():
    prop, tier, out = sys.argv[1:4]; stop = "--stop" in sys.argv
    t0 = time.time(); budget = float(os.environ.get("PROOF_BUDGET", "420" if tier == "quick" else "1800"))
    try: J, res, seen, left, hit = run(prop, budget, stop)
    except Exception as x:
        json.dump({"error": "%s" % x, "trace": traceback.format_exc()[-3000:], "wall": time.time() - t0}, open(out, "w")); return
    obls = [o for r, _ in res for o in r.obls]
    cnt = lambda l: {s: sum(o["status"] == s for o in l) for s in ("proved", "failed", "unknown", "unsupported")}
    mine = [o for o in obls if prop in o["props"]]
    agg = lambda k: sorted({x for _, st in res for x in st.get(k, ())})
    json.dump({"property": prop, "units": [{"unit": r.unit, "obligations": len(r.obls), "proved": sum(o["status"] == "proved" for o in r.obls), "covers": len(r.covers), "uncovered": [n for n, ok in r.covers if not ok], "wall": st.get("wall")} for r, st in res],
        "all": cnt(obls), "mine": cnt(mine), "states": len(seen), "unfinished": left, "stopped": hit,
        "bad": [dict(o, detail=(o["detail"] or "")[:1500]) for o in sorted((o for o in obls if o["status"] != "proved"), key=lambda o: (prop not in o["props"], o["status"] != "failed"))][:60],
        "sample": [o["unit"] + ": " + o["name"] for o in mine[:: max(1, len(mine) // 12)]][:12],
        "functions": agg("called"), "modeled": agg("modeled"), "contracted": agg("contracted"), "loops": sorted({json.dumps(l) for _, st in res for l in st.get("loops", ())}),
        "solver": "z3 " + z3.get_version_string(), "solver_s": round(sum(st.get("tfeas", 0) + st.get("tprove", 0) for _, st in res), 1), "queries": sum(st.get("feas", 0) + st.get("prove", 0) for _, st in res),
        "covers": sum(len(r.covers) for r, _ in res), "uncovered": sorted({n for r, _ in res for n, ok in r.covers if not ok}),
        "wall": round(time.time() - t0, 1), "bodies": len(J["bodies"])}, open(out, "w"), indent=1)
if __name__ == "__main__": main()
