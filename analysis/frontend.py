"""Runs the THIR-dumping compiler driver over /repo's current tree and loads its output."""
import fcntl, json, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
DRIVER = os.path.join(BUILD, "driver", "debug", "thirdump")


class FrontendError(Exception):
    pass


def _env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "RUSTC", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e.pop("RUSTUP_TOOLCHAIN", None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    return e


def _run(cmd, env, cwd):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise FrontendError("%s failed (%d):\n%s" % (" ".join(cmd), p.returncode, p.stdout[-4000:]))
    return p.stdout


def build_driver():
    src = os.path.join(VERIF, "driver")
    _run(["cargo", "+nightly", "build", "--offline", "--target-dir", os.path.join(BUILD, "driver")], _env(), src)


def _sysroot_lib():
    out = subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True, env=_env()).strip()
    return os.path.join(out, "lib")


def dump(manifest_dir, crates, target, outdir, extra=()):
    """cargo check `manifest_dir`'s workspace under the driver; returns {crate: json}."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        build_driver()
        shutil.rmtree(outdir, ignore_errors=True)
        os.makedirs(outdir)
        # cargo's freshness cache must not skip the wrapper
        _run(["cargo", "+nightly", "clean", "--offline", "--target-dir", target] + [x for c in crates for x in ("-p", c)], _env(), manifest_dir)
        e = _env()
        e["RUSTC_WORKSPACE_WRAPPER"] = DRIVER
        e["THIRDUMP_OUT"] = outdir
        e["LD_LIBRARY_PATH"] = _sysroot_lib() + ":" + e.get("LD_LIBRARY_PATH", "")
        _run(["cargo", "+nightly", "check", "--offline", "--workspace", "--target-dir", target] + list(extra), e, manifest_dir)
        res = {}
        for c in crates:
            p = os.path.join(outdir, c + ".json")
            if not os.path.exists(p):
                raise FrontendError("driver produced no THIR for crate %s" % c)
            with open(p) as f:
                res[c] = json.load(f)
        return res


def write_if_changed(p, s):
    if not os.path.exists(p) or open(p).read() != s:
        with open(p, "w") as f:
            f.write(s)


IDA_TOML = """[package]
name = "ida"
version = "0.1.1"
edition = "2018"
[dependencies]
ndarray = { path = "%(v)s/shim/ndarray" }
failure = { path = "%(v)s/shim/failure" }
log = "0.4"
num-traits = "0.2"
[dev-dependencies]
nearly_eq = { path = "%(v)s/shim/nearly_eq" }
[workspace]
[features]
profiler = []
data_trace = []
"""


def ida_tree(dst):
    """the integrator's sources as a crate that type-checks offline: a copy of /repo/src as it is, the two
    modules lib.rs declares but the tree does not contain (shim/overlay), and stand-ins for ndarray and failure"""
    src = os.path.join(REPO, "src")
    if not os.path.exists(os.path.join(src, "lib.rs")):
        raise FrontendError("no src/lib.rs in %s" % REPO)
    shutil.rmtree(os.path.join(dst, "src"), ignore_errors=True)
    os.makedirs(dst, exist_ok=True)
    shutil.copytree(src, os.path.join(dst, "src"))
    ov = os.path.join(VERIF, "shim", "overlay")
    for m in os.listdir(ov):
        t = os.path.join(dst, "src", m)
        if not os.path.exists(t) and not os.path.exists(t + ".rs"):
            shutil.copytree(os.path.join(ov, m), t)
    write_if_changed(os.path.join(dst, "Cargo.toml"), IDA_TOML % {"v": VERIF})
    shutil.copy(os.path.join(VERIF, "shim", "Cargo.lock.ida"), os.path.join(dst, "Cargo.lock"))
    return dst


def load_ida():
    d = os.path.join(BUILD, "ida")
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock.ida"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        ida_tree(d)
        return dump(d, ["ida"], os.path.join(BUILD, "target-ida"), os.path.join(BUILD, "thir-ida"))


def load_crates():
    return dump(REPO, ["linear", "nonlinear"], os.path.join(BUILD, "target"), os.path.join(BUILD, "thir"))


if __name__ == "__main__":
    d = load_crates()
    for c, j in d.items():
        print(c, len(j["bodies"]), "bodies", len(j["types"]), "types")
        for b in j["bodies"]:
            print("   ", b["kind"], b["uid"], b["path"])
