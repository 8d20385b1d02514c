"""Builds the rustc driver, runs it over /repo's current working tree and loads
the resulting facts (type-checked MIR with resolved callees).  Fails closed:
anything unexpected raises FactsError, which the runner turns into exit 2."""
import fcntl, glob, hashlib, json, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.environ.get("VERIF_CACHE", os.path.join(VERIF, ".cache"))
FEATURES = "cli,web2ppt,pdf-native"


class FactsError(Exception):
    pass


def _run(cmd, env=None, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise FactsError("command failed (%d): %s\n%s" % (p.returncode, " ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def _env(extra):
    e = dict(os.environ)
    for k in ("RUSTC", "RUSTC_WRAPPER", "RUSTFLAGS", "CARGO_BUILD_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS",
              "CARGO_TARGET_DIR", "RUSTC_WORKSPACE_WRAPPER", "RUSTUP_TOOLCHAIN", "CARGO_INCREMENTAL"):
        e.pop(k, None)
    e.update(extra)
    return e


def _hash(files):
    h = hashlib.sha256()
    for f in files:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            b = fh.read()
        h.update(b"%d\0" % len(b) + b)
    return h.hexdigest()[:24]


def driver_files():
    return sorted(glob.glob(VERIF + "/driver/src/*.rs")) + [VERIF + "/driver/Cargo.toml"]


def repo_files():
    out = []
    for root, ds, fs in os.walk(REPO):
        ds[:] = sorted(d for d in ds if not (root == REPO and d in ("target", ".git")))
        for f in sorted(fs):
            p = os.path.join(root, f)
            rel = os.path.relpath(p, REPO)
            # everything the build can see: sources, manifests, include_*! inputs
            if rel.startswith("src/") or rel in ("Cargo.toml", "Cargo.lock", "build.rs"):
                if os.path.isfile(p):
                    out.append(p)
    return out


def ensure():
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        dk = _hash(driver_files())
        ddir = os.path.join(CACHE, "driver")
        exe = os.path.join(ddir, "debug", "mirfacts")
        stamp = os.path.join(ddir, "stamp")
        if not (os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == dk):
            _run(["cargo", "+nightly", "build", "--offline", "--quiet"], cwd=VERIF + "/driver",
                 env=_env({"CARGO_TARGET_DIR": ddir}))
            with open(stamp, "w") as f:
                f.write(dk)
        rk = _hash(repo_files()) + "-" + dk
        out = os.path.join(CACHE, "facts", rk)
        done = os.path.join(out, "done")
        if not os.path.exists(done):
            os.makedirs(out, exist_ok=True)
            for f in os.listdir(out):
                os.unlink(os.path.join(out, f))
            tdir = os.path.join(CACHE, "target")
            # a warm target directory would skip the wrapper: forget the crate itself, keep its dependencies
            for pat in ("/debug/.fingerprint/ppt-rs-*", "/debug/.fingerprint/ppt_rs-*", "/debug/build/ppt-rs", "/debug/build/ppt_rs",
                        "/debug/build/pptcli", "/debug/incremental"):
                for f in glob.glob(tdir + pat):
                    shutil.rmtree(f)
            sysroot = _run(["rustc", "+nightly", "--print", "sysroot"]).strip()
            log = _run(["cargo", "+nightly", "check", "--lib", "--bin", "pptcli", "--features", FEATURES,
                        "--locked", "--offline"], cwd=REPO,
                       env=_env({"CARGO_TARGET_DIR": tdir, "MIRFACTS_OUT": out, "RUSTC_WORKSPACE_WRAPPER": exe,
                                 "LD_LIBRARY_PATH": sysroot + "/lib", "CARGO_INCREMENTAL": "0"}))
            for n in ("ppt_rs.json", "pptcli.json"):
                if not os.path.exists(os.path.join(out, n)):
                    raise FactsError("driver wrote no facts for %s\n%s" % (n, log[-3000:]))
            with open(done, "w") as f:
                f.write(rk)
            old = sorted((d for d in glob.glob(os.path.join(CACHE, "facts", "*")) if d != out), key=os.path.getmtime)
            for d in old[:-6]:
                for f in os.listdir(d):
                    os.unlink(os.path.join(d, f))
                os.rmdir(d)
        return out


def load():
    out = ensure()
    res = {}
    for n in ("ppt_rs", "pptcli"):
        with open(os.path.join(out, n + ".json")) as f:
            res[n] = json.load(f)
    return res


if __name__ == "__main__":
    print(ensure())
