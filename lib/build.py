"""Rebuilds the MIR facts of /repo's current working tree (cached by content)."""
import fcntl, hashlib, os, shutil, subprocess, sys, glob, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
CRATES = ["asylum", "clang_time_trace", "cmakeperf", "cpparser", "crofiler", "simpp", "mock"]
EXPECT = ["asylum.lib", "clang_time_trace.lib", "cmakeperf.lib", "cpparser.lib", "crofiler.bin", "mock.bin", "simpp.bin"]


class BuildError(Exception):
    pass


def _env():
    env = dict(os.environ)
    env["PATH"] = env.get("PATH", "") + ":/root/.cargo/bin:/usr/local/cargo/bin"
    env["CARGO_NET_OFFLINE"] = "true"
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET", "RUSTUP_TOOLCHAIN"):
        env.pop(k, None)
    return env


def _run(cmd, cwd, env):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError(f"{' '.join(cmd)} failed in {cwd}:\n{r.stdout[-4000:]}")
    return r.stdout


def _hash_tree(root, exts, skip):
    h = hashlib.sha256()
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in skip)
        for f in sorted(fs):
            if f.endswith(exts):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode() + b"\0")
                h.update(open(p, "rb").read())
                h.update(b"\0")
    return h.hexdigest()


def driver():
    env = _env()
    drv = os.path.join(VERIF, "driver")
    tgt = os.path.join(BUILD, "driver")
    env["CARGO_TARGET_DIR"] = tgt
    _run(["cargo", "+nightly", "build", "--offline", "-q"], drv, env)
    return os.path.join(tgt, "debug", "mirfacts")


def facts():
    """directory with one JSON per workspace crate, for the current tree"""
    if os.environ.get("VERIF_FACTS"):      # facts extracted earlier (used when developing the checks)
        return os.environ["VERIF_FACTS"]
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = hashlib.sha256((_hash_tree(REPO, (".rs", ".toml", ".lock"), {"target", ".git"})
                              + _hash_tree(os.path.join(VERIF, "driver"), (".rs", ".toml"), {"target"})
                              + REPO).encode()).hexdigest()[:24]
        out = os.path.join(BUILD, "facts", key)
        if os.path.exists(os.path.join(out, "OK")):
            os.utime(out)
            return out
        t0 = time.time()
        exe = driver()
        env = _env()
        sysroot = _run(["rustc", "+nightly", "--print", "sysroot"], VERIF, env).strip()
        tgt = os.path.join(BUILD, "target")
        # make cargo run the extractor again for every workspace crate
        for p in ("asylum", "clang-time-trace", "cmakeperf", "cpparser", "crofiler", "simpp"):
            for d in glob.glob(os.path.join(tgt, "debug", ".fingerprint", p + "-*")) + glob.glob(os.path.join(tgt, "debug", "build", p)):
                shutil.rmtree(d)
        tmp = out + ".tmp"
        if os.path.exists(tmp):
            shutil.rmtree(tmp)
        os.makedirs(tmp)
        env.update(LD_LIBRARY_PATH=os.path.join(sysroot, "lib"), MIRFACTS_OUT=tmp,
                   CARGO_TARGET_DIR=tgt, RUSTC_WORKSPACE_WRAPPER=exe)
        for attempt in (0, 1):
            _run(["cargo", "+nightly", "check", "--workspace", "--lib", "--bins", "--offline"], REPO, env)
            missing = [e for e in EXPECT if not os.path.exists(os.path.join(tmp, e + ".json"))]
            if not missing or attempt:
                break
            shutil.rmtree(tgt)  # cargo considered something fresh: start over
        if missing:
            raise BuildError(f"extractor wrote no facts for {missing}")
        open(os.path.join(tmp, "OK"), "w").write(f"{time.time() - t0:.1f}")
        if os.path.exists(out):
            shutil.rmtree(out)
        os.rename(tmp, out)
        old = sorted((d for d in glob.glob(os.path.join(BUILD, "facts", "*")) if d != out), key=os.path.getmtime)
        for d in old[:-3]:
            shutil.rmtree(d)
        return out


if __name__ == "__main__":
    print(facts())
