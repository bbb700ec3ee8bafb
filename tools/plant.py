#!/usr/bin/env python3
"""Plant bugs: plant.py <spec.py>   Each spec gives id, property, needs, breaks, edits [(file, old, new)], demo (rust main body).
Confirms in a scratch copy that the change compiles, passes the stable tests and that the demo passes without / fails with it."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0 when the demonstrated behaviour is right, non-zero otherwise (cwd: the repository)
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
w="$(mktemp -d)"
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src"
cp "$here/main.rs" "$w/src/main.rs"
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
rphtml = { path = "$repo" }
[workspace]
T
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$w/Cargo.lock"
cd "$w"
CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$w/t" cargo build --offline --quiet || { rm -f Cargo.lock; CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$w/t" cargo build --offline --quiet || exit 3; }
SCRATCH="$w" "$w/t/debug/demo"
'''
PRE = '''#![allow(unused_imports, dead_code)]
use rphtml::config::{ParseOptions, RenderOptions};
use rphtml::parser::*;
use rphtml::util::*;
fn po() -> ParseOptions { ParseOptions::default() }
fn ro() -> RenderOptions { RenderOptions::default() }
fn r(src: &str, p: ParseOptions, o: RenderOptions) -> String {
    match Doc::parse(src, p) { Ok(d) => d.render(&o), Err(e) => format!("ERR {}", e) }
}
fn main() {
'''
def sh(c, cwd): return subprocess.run(c, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    base = json.load(open("/opt/vp/BASELINE.json"))
    for b in ns["BUGS"]:
        if only and b["id"] not in only: continue
        w = tempfile.mkdtemp(prefix="plant")
        repo = w + "/repo"
        sh("git clone -q /repo repo && cp -a /repo/Cargo.lock repo/ 2>/dev/null", w)
        d = os.path.join(V, "seeded", b["id"])
        os.makedirs(d, exist_ok=True)
        open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
        open(d + "/main.rs", "w").write(PRE + b["demo"] + "\n}\n")
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        ok0 = sh("bash %s/demo.sh" % d, repo)
        for f, old, new in b["edits"]:
            p = os.path.join(repo, f); s = open(p).read()
            if s.count(old) != 1: print(b["id"], "EDIT does not apply uniquely:", s.count(old), old[:60]); break
            open(p, "w").write(s.replace(old, new))
        else:
            diff = sh("git diff", repo).stdout
            open(d + "/patch.diff", "w").write(diff)
            t = sh("cargo test --no-fail-fast --offline 2>&1", repo)
            passed = set(l.split()[1] for l in t.stdout.splitlines() if l.startswith("test ") and l.endswith("... ok"))
            failed = [l.split()[1] for l in t.stdout.splitlines() if l.startswith("test ") and l.endswith("FAILED")]
            ok1 = sh("bash %s/demo.sh" % d, repo)
            good = ok0.returncode == 0 and ok1.returncode not in (0, 3) and set(failed) <= {"test_pre_tag"} and len(passed) >= 34
            print(b["id"], "OK" if good else "BAD", "demo0=%d demo1=%d passed=%d failed=%s" % (ok0.returncode, ok1.returncode, len(passed), failed))
            if not good:
                if ok0.returncode: print(ok0.stdout[-1500:])
                if ok1.returncode in (0, 3): print(ok1.stdout[-800:])
                if not passed: print(t.stdout[-1500:])
                shutil.rmtree(d)
        shutil.rmtree(w)
main()
