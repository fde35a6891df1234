"""Build the engine and the harness against /repo's working tree, run symbolic jobs."""
import json, os, subprocess, sys, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MIRSYM_REPO", "/repo")
B = os.environ.get("MIRSYM_BUILD", V + "/.build")

class BuildError(Exception):
    pass

def env():
    e = dict(os.environ)
    for k in ("RUSTUP_TOOLCHAIN", "RUSTFLAGS", "CARGO_TARGET_DIR", "LIBTORCH", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    return e

def sysroot():
    return subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True, env=env()).strip()

def build(quiet=True):
    os.makedirs(B, exist_ok=True)
    e = env()
    e["CARGO_TARGET_DIR"] = B + "/engine"
    r = subprocess.run(["cargo", "+nightly", "build", "--release", "--offline", "-q"], cwd=V + "/engine", env=e, capture_output=True, text=True)
    if r.returncode:
        raise BuildError("engine: " + r.stderr[-3000:])
    h = V + "/harness"
    if REPO != "/repo":   # development only: check a scratch copy
        h = B + "/harness-src"
        shutil.rmtree(h, ignore_errors=True)
        shutil.copytree(V + "/harness", h)
        s = open(h + "/Cargo.toml").read().replace('path = "/repo"', 'path = "%s"' % REPO)
        open(h + "/Cargo.toml", "w").write(s)
    e = env()
    e["CARGO_TARGET_DIR"] = B + "/harness"
    e["RUSTC_WORKSPACE_WRAPPER"] = V + "/bin/rustc-wrap.sh"
    e["MIRSYM_ARGS"] = B + "/harness.args"
    e["RUSTFLAGS"] = "-Zalways-encode-mir -Awarnings -Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums,-RemoveStorageMarkers"
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    if not os.path.exists(B + "/harness.args"):
        os.utime(h + "/src/lib.rs")
    r = subprocess.run(["cargo", "check", "--offline", "-q"], cwd=h, env=e, capture_output=True, text=True)
    if r.returncode:
        raise BuildError("harness: " + r.stderr[-6000:])
    return h

def run(jobs, par=8, extra_env=None, h=None, deadline=None):
    """jobs: list of dicts id, fn, params, panics, prop, timeout -> list of result dicts"""
    out = tempfile.mkdtemp(prefix="out-", dir=B)
    try:
        with open(out + "/jobs", "w") as f:
            for j in jobs:
                f.write("\t".join([j["id"], j["fn"], ",".join("%s=%d" % kv for kv in sorted(j.get("params", {}).items())), "1" if j.get("panics") else "0", j.get("prop", ""), str(int(j.get("timeout", 600)))]) + "\n")
        a = open(B + "/harness.args", "rb").read().split(b"\0")[:-1]
        e = env()
        e.update(extra_env or {})
        e.update(MIRSYM_JOBS=out + "/jobs", MIRSYM_OUT=out, MIRSYM_PAR=str(par), RUST_MIN_STACK=str(4 << 30),
                 LD_LIBRARY_PATH=sysroot() + "/lib", RUSTUP_TOOLCHAIN="nightly")
        if deadline: e["MIRSYM_DEADLINE"] = str(int(deadline))
        r = subprocess.run([(B + "/engine/release/mirsym").encode()] + a, cwd=h or V + "/harness", env=e, stdout=subprocess.DEVNULL if not extra_env else None,
                           stderr=subprocess.PIPE if not extra_env else None)
        res = []
        for j in jobs:
            try:
                res.append(json.load(open("%s/%s.json" % (out, j["id"]))))
            except FileNotFoundError:
                res.append(dict(id=j["id"], ok=False, error="no result (engine exit %s) %s" % (r.returncode, (r.stderr or b"")[-2000:].decode(errors="replace")), violations=[], covers=[]))
        return res
    finally:
        shutil.rmtree(out, ignore_errors=True)

if __name__ == "__main__":
    # development: mirsym.py fn [k=v ...] [-p PROP]
    ps, prop, fns = {}, "", []
    it = iter(sys.argv[1:])
    for a in it:
        if a == "-p": prop = next(it)
        elif "=" in a: k, v = a.split("="); ps[k] = int(v)
        else: fns.append(a)
    h = build()
    for r in run([dict(id="j%d" % i, fn=f, params=ps, panics=True, prop=prop, timeout=int(os.environ.get("T", "600"))) for i, f in enumerate(fns)], extra_env={"MIRSYM_V": "1"} | ({"MIRSYM_TRACE": "1"} if os.environ.get("TR") else {}), h=h):
        fn = r.pop("functions", [])
        err = r.pop("error", None)
        v = r.pop("violations", [])
        print(json.dumps(r))
        for x in v: print("  VIOL", json.dumps(x)[:1500])
        if err: print("  ERROR", err)
        if os.environ.get("FN"): print("  ", "\n   ".join(fn))
