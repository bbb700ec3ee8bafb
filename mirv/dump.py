"""Runs the MIR dump driver over /repo's current working tree."""
import os, subprocess, shutil, json, hashlib, fcntl
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
NIGHTLY_LIB = None

def sysroot():
    return subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True, check=True).stdout.strip()

def build_driver():
    exe = os.path.join(BUILD, "mirdump", "release", "mirdump")
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, "mirdump"))
    r = subprocess.run(["cargo", "+nightly", "build", "--release", "--offline", "-q"], cwd=os.path.join(VERIF, "mirdump"), env=env, capture_output=True, text=True)
    if r.returncode != 0:
        raise RuntimeError("mirdump build failed: " + r.stderr[-2000:])
    return exe

def dump(out=None):
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "dump.lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        exe = build_driver()
        out = out or os.path.join(BUILD, "mir.json")
        if os.path.exists(out):
            os.remove(out)
        tgt = os.path.join(BUILD, "mirtarget")
        # force the crate itself to be recompiled
        for d in ("debug/.fingerprint", "debug/incremental", "debug/build"):
            p = os.path.join(tgt, d)
            if os.path.isdir(p):
                for x in os.listdir(p):
                    if x.startswith("rphtml"):
                        shutil.rmtree(os.path.join(p, x), ignore_errors=True)
        env = dict(os.environ, LD_LIBRARY_PATH=os.path.join(sysroot(), "lib"), MIRDUMP_OUT=out, RUSTC_WORKSPACE_WRAPPER=exe, CARGO_TARGET_DIR=tgt, CARGO_INCREMENTAL="0")
        cmd = ["cargo", "+nightly", "rustc", "--lib", "--offline", "-q", "--", "-Zmir-opt-level=0", "-Zinline-mir=no", "-Cdebug-assertions=off", "-Coverflow-checks=on", "-Awarnings"]
        r = subprocess.run(cmd, cwd=REPO, env=env, capture_output=True, text=True)
        if r.returncode == 0 and not os.path.exists(out):   # considered fresh: start over
            shutil.rmtree(tgt, ignore_errors=True)
            r = subprocess.run(cmd, cwd=REPO, env=env, capture_output=True, text=True)
        if r.returncode != 0 or not os.path.exists(out):
            raise RuntimeError("MIR dump failed: " + r.stderr[-3000:])
        return json.load(open(out))
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)

if __name__ == "__main__":
    j = dump()
    print(len(j["bodies"]), "bodies,", sum(1 for b in j["bodies"].values() if b["local"]), "local")
