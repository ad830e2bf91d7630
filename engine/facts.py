"""Obtain the type-checked program of /repo as JSON facts.

The facts are produced by /verif/mirdump (a rustc driver) running as
RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check` on /repo's current working
tree.  They are cached under /verif/.build keyed by a digest of every input
(sources, manifest, lock file, driver source), so the six-second compile happens
once per tree; nothing is reused when a single byte differs.
"""
import fcntl, hashlib, json, os, subprocess, sys, shutil

VERIF = os.environ.get("VERIF_DIR", "/verif")
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
FEATURES = "sync,future,logging"


class FactsError(Exception):
    pass


def _files(root, exts=None):
    for d, ds, fs in os.walk(root):
        ds.sort()
        ds[:] = [x for x in ds if x not in ("target", ".git")]
        for f in sorted(fs):
            if exts is None or f.endswith(exts):
                yield os.path.join(d, f)


def digest():
    h = hashlib.sha256()
    paths = list(_files(os.path.join(REPO, "src"))) + [
        os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "Cargo.lock"),
        os.path.join(REPO, "build.rs")]
    paths += list(_files(os.path.join(VERIF, "mirdump"), (".rs", ".toml")))
    for p in paths:
        if os.path.exists(p):
            h.update(p.encode() + b"\0")
            with open(p, "rb") as f:
                h.update(f.read())
            h.update(b"\0")
    h.update(FEATURES.encode())
    return h.hexdigest()[:24]


def _run(cmd, env=None, cwd=None):
    r = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise FactsError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout


def _clean_env():
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "RUSTUP_TOOLCHAIN",
              "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
        env.pop(k, None)
    env["CARGO_NET_OFFLINE"] = "true"
    return env


def build_driver():
    env = _clean_env()
    env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "driver")
    _run(["cargo", "+nightly", "build", "--release", "--offline"], env,
         os.path.join(VERIF, "mirdump"))
    return os.path.join(BUILD, "driver", "release", "mirdump")


def facts_path():
    os.makedirs(os.path.join(BUILD, "facts"), exist_ok=True)
    out = os.path.join(BUILD, "facts", digest() + ".json")
    if os.path.exists(out):
        return out
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out):
            return out
        drv = build_driver()
        sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], text=True,
                                 stdout=subprocess.PIPE, check=True).stdout.strip()
        target = os.path.join(BUILD, "target")
        # cargo's freshness cache would silently skip the wrapper: forget moka itself.
        for sub in ("debug/build", "debug/.fingerprint", "debug/incremental"):
            d = os.path.join(target, sub)
            if os.path.isdir(d):
                for n in os.listdir(d):
                    if n == "moka" or n.startswith("moka-"):
                        shutil.rmtree(os.path.join(d, n))
        tmp = out + ".tmp%d" % os.getpid()
        env = _clean_env()
        env.update(LD_LIBRARY_PATH=os.path.join(sysroot, "lib"), MIRDUMP_CRATE="moka",
                   MIRDUMP_OUT=tmp, RUSTC_WORKSPACE_WRAPPER=drv, CARGO_TARGET_DIR=target)
        log = _run(["cargo", "+nightly", "check", "--lib", "--offline", "--features", FEATURES],
                   env, REPO)
        if not os.path.exists(tmp):  # unknown cargo layout: start from an empty target dir
            shutil.rmtree(target)
            log = _run(["cargo", "+nightly", "check", "--lib", "--offline", "--features",
                        FEATURES], env, REPO)
        if not os.path.exists(tmp):
            raise FactsError("the driver wrote no facts\n" + log[-2000:])
        # keep the cache small
        old = sorted((os.path.join(BUILD, "facts", f) for f in os.listdir(os.path.join(BUILD, "facts"))
                      if f.endswith(".json")), key=os.path.getmtime)
        for f in old[:-4]:
            os.remove(f)
        os.replace(tmp, out)
        return out


if __name__ == "__main__":
    print(facts_path())
