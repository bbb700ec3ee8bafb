#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property on /repo's current tree (see DESIGN.md).

1. search: the property's executable predicate on the real crate, on generated inputs (bounded, seeded).
2. proof:  mirv dumps the MIR of the current tree and has z3 discharge the obligations of the property's units.
Exit 1 with a VIOLATION line if the search found a failing input, or if an obligation of the property failed."""
import json, os, re, shutil, signal, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import claims
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(V, "build")
VT = "/opt/veriftools/pyvenv/bin/python3"
PROOF_PY = VT if os.path.exists(VT) else "python3-vt"

def sh(cmd, timeout, **kw):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True, **kw)
    try:
        out, err = p.communicate(timeout=timeout)
        return subprocess.CompletedProcess(cmd, p.returncode, out, err)
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        out, err = p.communicate()
        return subprocess.CompletedProcess(cmd, 124, out, err)

def build_harness():
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, "harness"), CARGO_NET_OFFLINE="true")
    r = sh(["cargo", "build", "--release", "--offline", "--quiet"], 600, cwd=os.path.join(V, "harness"), env=env)
    exe = os.path.join(BUILD, "harness", "release", "harness")
    return (exe, "") if r.returncode == 0 else (None, r.stderr[-4000:])

def literals():
    """literals of the current source, so that the search reaches conditions on particular values"""
    words, chars, ints = set(), set(), set()
    for fn in sorted(os.listdir(os.path.join(REPO, "src"))):
        if not fn.endswith(".rs") or fn == "main.rs": continue
        s = open(os.path.join(REPO, "src", fn), encoding="utf-8").read()
        s = re.sub(r"//[^\n]*", "", s); s = re.sub(r"/\*.*?\*/", "", s, flags=re.S)
        for m in re.finditer(r"'(\\u\{([0-9A-Fa-f]+)\}|\\.|[^'\\\n])'", s):
            t = m.group(1)
            if m.group(2): chars.add(int(m.group(2), 16))
            elif t[0] == "\\": chars.add(ord({"n": "\n", "r": "\r", "t": "\t", "0": "\0"}.get(t[1], t[1])))
            else: chars.add(ord(t))
        for m in re.finditer(r"\[((?:\s*'[^'\\]'\s*,?)+)\]", s): words.add("".join(re.findall(r"'([^'\\])'", m.group(1))))
        for m in re.finditer(r'"((?:[^"\\\n]|\\.)*)"', s):
            w = m.group(1)
            if 0 < len(w) <= 16 and "{" not in w and "\\" not in w: words.add(w)
        for m in re.finditer(r"(?<![\w.'{])(0x[0-9a-fA-F_]+|[0-9][0-9_]*)(?:usize|u32|u8|i32)?(?![\w.])", s):
            n = int(m.group(1).replace("_", ""), 0)
            if 2 <= n <= 5000: ints.add(n)
    return words, chars, ints
def make_dict(path, hints=()):
    words, chars, ints = literals()
    for h in hints:
        words |= set(h.get("words", ())); chars |= set(h.get("chars", ())); ints |= set(h.get("ints", ()))
    with open(path, "w", encoding="utf-8") as f:
        for w in sorted(words):
            if "\n" not in w and "\r" not in w: f.write("W %s\n" % w)
        for c in sorted(chars):
            if not 0xD800 <= c <= 0xDFFF and c < 0x110000: f.write("C %d\n" % c)
        for n in sorted(ints): f.write("N %d\n" % n)

def search(exe, prop, seed, ms, replay, hints=()):
    d = os.path.join(BUILD, "dict-%s-%d.txt" % (prop, os.getpid())); make_dict(d, hints)
    env = dict(os.environ, HARNESS_SCRATCH=os.path.join(BUILD, "scratch-%s-%d" % (prop, os.getpid())))
    cmd = [exe, "search", prop, str(seed), str(ms), d, replay]
    r = sh(cmd, ms / 1000 + 60, env=env)
    res = None
    try: res = json.loads(r.stdout)
    except ValueError: pass
    if res is None:
        # the process died (stack overflow, abort, memory): find the case
        tr = os.path.join(BUILD, "trace-%s-%d" % (prop, os.getpid())); os.makedirs(tr, exist_ok=True)
        r2 = sh(cmd, ms * 3 / 1000 + 60, env=dict(env, HARNESS_TRACE=tr))
        res = {"crash": r.returncode, "stderr": r.stderr[-500:], "evaluations": 0, "distinct_nontrivial": 0, "samples": [], "violation": None}
        if r2.returncode not in (0, 124):
            for f in sorted(os.listdir(tr)):
                p = os.path.join(tr, f); r3 = sh([exe, "replay", p], 60, env=env)
                if r3.returncode not in (0, 1, 2, 124):
                    shutil.copy(p, replay); res["violation"] = {"property": prop, "message": "the process dies (%s): %s" % (r3.returncode, r3.stderr[-300:])}
                    break
        shutil.rmtree(tr, ignore_errors=True)
    shutil.rmtree(env["HARNESS_SCRATCH"], ignore_errors=True)
    try: os.remove(d)
    except OSError: pass
    return res

def proof(prop, tier, budget):
    out = os.path.join(BUILD, "proof-%s-%d.json" % (prop, os.getpid()))
    r = sh([PROOF_PY, os.path.join(V, "mirv", "main.py"), prop, tier, out, "--stop"], budget + 90, env=dict(os.environ, PROOF_BUDGET=str(budget)))
    try: j = json.load(open(out)); os.remove(out)
    except (OSError, ValueError): j = {"error": "the prover ended with %s: %s" % (r.returncode, r.stderr[-1500:])}
    return j

def clip(x):
    """the evidence shows the start of a long sample only"""
    if isinstance(x, str): return x if len(x) <= 500 else x[:500] + "... (%d characters)" % len(x)
    if isinstance(x, list): return [clip(y) for y in x]
    if isinstance(x, dict): return {k: clip(v) for k, v in x.items()}
    return x

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time(); quick = tier == "quick"
    for d in (BUILD, os.path.join(V, "replay"), os.path.join(V, "evidence")): os.makedirs(d, exist_ok=True)
    replay = os.path.join(V, "replay", "%s.txt" % prop)
    if os.path.exists(replay): os.remove(replay)
    exe, err = build_harness()
    if not exe:
        print("the harness does not build against /repo:\n" + err); return 2
    se = search(exe, prop, seed, 8000 if quick else 180000, replay)
    viol = se.get("violation")
    pr = proof(prop, tier, (90 if viol else 400) if quick else (200 if viol else 3000))
    bad = [o for o in pr.get("bad", ()) if prop in o["props"]]
    failed = [o for o in bad if o["status"] == "failed"]
    nofail = False
    if failed and not viol:
        # aim the search at the counterexamples
        hints = [o["model"] for o in failed if o.get("model")]
        se2 = search(exe, prop, seed + 1, 60000 if quick else 300000, replay, hints)
        for k in ("evaluations", "distinct_nontrivial"): se[k] = se.get(k, 0) + se2.get(k, 0)
        viol = se2.get("violation"); nofail = not viol
    if not viol and not failed and (pr.get("error") or pr.get("unfinished") or any(o["status"] in ("unknown", "unsupported") for o in bad) or (prop in claims.COMPOSED and pr.get("bad"))):
        # undecided obligations: a longer search stands in for them
        se2 = search(exe, prop, seed + 2, 60000 if quick else 300000, replay)
        for k in ("evaluations", "distinct_nontrivial"): se[k] = se.get(k, 0) + se2.get(k, 0)
        viol = se2.get("violation")
    if viol or failed:
        with open(replay, "a", encoding="utf-8") as f:
            if nofail: f.write("no failing input was found within the search bound; the obligations below are not discharged\n")
            if viol: f.write("replay: %s replay %s (after bash setup.sh)\n" % (os.path.relpath(exe, V), os.path.relpath(replay, V)))
            for o in failed[:10]: f.write("FAILED OBLIGATION unit=%s\n  %s\n  solver: %s\n" % (o["unit"], o["name"], o["detail"]))
    n_all, n_mine = pr.get("all", {}), pr.get("mine", {})
    tot = lambda d: sum(d.values())
    und = [o for o in bad if o["status"] in ("unknown", "unsupported")]
    complete = bool(n_mine) and tot(n_mine) > 0 and n_mine.get("proved") == tot(n_mine) and n_all.get("proved") == tot(n_all) and not pr.get("unfinished") and not pr.get("uncovered") and not pr.get("stopped")
    lvl = claims.level(prop) if complete else "other"
    cov = {"obligations": tot(n_mine), "discharged": n_mine.get("proved", 0), "checker_cmd": "python3-vt mirv/main.py %s %s out.json" % (prop, tier),
        "trusted_base": claims.trusted(pr) if hasattr(claims, "trusted") else [],
        "explanation": claims.explain(prop, pr, se) if hasattr(claims, "explain") else "wip",
        "proof": {k: pr.get(k) for k in ("all", "mine", "states", "units", "functions", "contracted", "modeled", "loops", "solver", "solver_s", "queries", "covers", "uncovered", "unfinished", "sample", "wall", "error") if k in pr},
        "not_discharged": [{"name": o["unit"] + ": " + o["name"], "status": o["status"], "detail": (o["detail"] or "")[:300]} for o in pr.get("bad", ())][:20],
        "bounded_search": {"evaluations": se.get("evaluations"), "distinct_nontrivial": se.get("distinct_nontrivial"), "token_sequences_up_to": se.get("token_len"), "char_sequences_up_to": se.get("char_len"), "samples": clip(se.get("samples")), "crash": se.get("crash")}}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": lvl, "coverage": cov, "assumptions": claims.assumptions(prop) if hasattr(claims, "assumptions") else [], "wall_s": round(time.time() - t0, 1), "violations": 1 if viol or failed else 0}
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    for l in claims.known(prop) if hasattr(claims, "known") else (): print("KNOWN-FINDING: property=%s %s" % (prop, l))
    print("%s: %d obligations, %d discharged%s; search: %d cases" % (prop, tot(n_mine), n_mine.get("proved", 0), ", %d undecided (bounded search stands in)" % len(und) if und else "", se.get("evaluations") or 0))
    if pr.get("error"): print("proof part: " + pr["error"][-500:])
    if viol or failed:
        for o in failed[:3]: print("failed obligation: %s: %s" % (o["unit"], o["name"]))
        print("VIOLATION property=%s replay=%s%s" % (prop, replay, " no-failing-input-found" if nofail else "")); return 1
    return 0
if __name__ == "__main__":
    sys.exit(main())
