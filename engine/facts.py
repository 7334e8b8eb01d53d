"""Build (if necessary) and load the MIR facts of /repo's current working tree."""
import hashlib, json, os, re, shutil, subprocess, sys, time, fcntl, glob, pickle

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("AX_REPO", "/repo")
BUILD = os.environ.get("AX_BUILD", os.path.join(VERIF, "build"))
DRIVER = os.path.join(VERIF, "driver/target/release/axfacts")
TOOLCHAIN = "nightly-x86_64-unknown-linux-gnu"
CRATES = ["axmosdb-lib", "axmos_server-bin", "axmos_client-bin", "axmos_derive-lib"]


class BuildError(Exception):
    pass


def tree_hash():
    h = hashlib.sha256()
    files = []
    for root in ("crates", "Cargo.toml", "Cargo.lock", "rust-toolchain.toml"):
        p = os.path.join(REPO, root)
        if os.path.isfile(p):
            files.append(p)
        for d, ds, fs in os.walk(p):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".lock")):
                    files.append(os.path.join(d, f))
    for f in files:
        h.update(os.path.relpath(f, REPO).encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    with open(DRIVER, "rb") as fh:
        h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:24]


def env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["HOME"] = e.get("HOME") or "/root"
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "0"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_PROFILE_DEV_DEBUG"):
        e.pop(k, None)
    return e


def sysroot(e):
    return subprocess.run(["rustc", "--print", "sysroot"], env=e, capture_output=True, text=True, check=True).stdout.strip()


def build_driver():
    e = env()
    r = subprocess.run(["cargo", "build", "--release", "--offline"], cwd=os.path.join(VERIF, "driver"), env=e, capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError("driver build failed:\n" + r.stderr[-3000:])


def ensure(log=sys.stderr):
    """Returns (dir with facts, hash). Rebuilds when the sources of the tree have changed."""
    os.makedirs(BUILD, exist_ok=True)
    if not os.path.exists(DRIVER):
        build_driver()
    h = tree_hash()
    out = os.path.join(BUILD, "facts", h)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(out, "done")):
            return out, h
        e = env()
        tgt = os.path.join(BUILD, "target")
        # force the workspace crates through the wrapper, keep dependencies warm
        for pat in ("debug/.fingerprint/axmos*", "debug/build/axmos*", "debug/deps/*axmos*", "debug/incremental/axmos*"):
            for p in glob.glob(os.path.join(tgt, pat)):
                shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) else os.unlink(p)
        tmp = out + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        e["LD_LIBRARY_PATH"] = sysroot(e) + "/lib"
        e["RUSTC_WORKSPACE_WRAPPER"] = DRIVER
        e["AXFACTS_OUT"] = tmp
        e["CARGO_TARGET_DIR"] = tgt
        t = time.time()
        r = subprocess.run(["cargo", "check", "--workspace", "--offline", "--locked"], cwd=REPO, env=e, capture_output=True, text=True)
        if r.returncode != 0:
            raise BuildError("cargo check of the tree failed:\n" + r.stderr[-4000:])
        for c in CRATES:
            if not os.path.exists(os.path.join(tmp, c + ".jsonl")):
                raise BuildError("no facts were produced for " + c)
        print(f"[facts] analysed the tree with the MIR driver in {time.time()-t:.1f}s", file=log)
        open(os.path.join(tmp, "done"), "w").close()
        shutil.rmtree(out, ignore_errors=True)
        os.rename(tmp, out)
        # keep the last few only
        olds = sorted((d for d in glob.glob(os.path.join(BUILD, "facts", "*")) if os.path.isdir(d)), key=os.path.getmtime)
        for d in olds[:-6]:
            shutil.rmtree(d, ignore_errors=True)
    return out, h


def load_lines(path):
    with open(path) as f:
        for l in f:
            yield json.loads(l)


if __name__ == "__main__":
    if "--driver" in sys.argv:
        build_driver()
    print(ensure())
