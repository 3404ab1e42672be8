"""Builds, from /repo's current working tree, what the verifier and the probe read.

 driver  - the rustc driver that dumps monomorphic MIR (nightly, engine/driver)
 dumps   - work/mir/<ver>.jsonl, the MIR of every function of the crate for one protocol version
 probes  - work/probe/<ver>/..., a small program that calls the real crate (engine/probe)
"""
import concurrent.futures, fcntl, hashlib, os, subprocess, sys, time

VERIF = os.path.abspath(os.path.join(os.path.dirname(__file__), "..", ".."))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.path.join(VERIF, "work")
VERS = ["2026_07_28", "2025_11_25", "2025_06_18", "2025_03_26", "2024_11_05", "draft"]
FLAGS = "-Zalways-encode-mir -Zmir-opt-level=0 -Cpanic=abort -Cdebug-assertions=off -Coverflow-checks=on -Awarnings"


class BuildError(Exception):
    pass


def env(**kw):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTDOCFLAGS", "LD_LIBRARY_PATH", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN", "CARGO_INCREMENTAL"):
        e.pop(k, None)
    e["HOME"] = e.get("HOME") or "/root"
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e.update(kw)
    return e


def sh(cmd, cwd=None, e=None, timeout=800):
    r = subprocess.run(cmd, cwd=cwd, env=e or env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return r.stdout


def files(*roots):
    out = []
    for r in roots:
        if os.path.isfile(r):
            out.append(r)
        for d, ds, fs in os.walk(r):
            ds[:] = sorted(x for x in ds if x not in ("target", "__pycache__", ".git"))
            out += [os.path.join(d, f) for f in sorted(fs)]
    return out


def digest(fs):
    h = hashlib.sha256()
    for f in fs:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as r:
            h.update(r.read())
        h.update(b"\0")
    return h.hexdigest()


def repo_digest():
    return digest(files(os.path.join(REPO, "src"), os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "build.rs")))


class Lock:
    def __init__(self, name):
        os.makedirs(WORK, exist_ok=True)
        self.p = os.path.join(WORK, "." + name + ".lock")

    def __enter__(self):
        self.f = open(self.p, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def stamp(path, h):
    try:
        return open(path).read() == h
    except OSError:
        return False


def driver():
    d = os.path.join(VERIF, "engine", "driver")
    exe = os.path.join(WORK, "driver", "debug", "mirdump")
    h = digest(files(os.path.join(d, "src"), os.path.join(d, "Cargo.toml")))
    with Lock("driver"):
        if not (os.path.exists(exe) and stamp(exe + ".stamp", h)):
            sh(["cargo", "+nightly", "build", "--offline"], cwd=d, e=env(CARGO_TARGET_DIR=os.path.join(WORK, "driver")))
            open(exe + ".stamp", "w").write(h)
    return exe, h


_sysroot = []


def sysroot():
    if not _sysroot:
        _sysroot.append(sh(["rustc", "+nightly", "--print", "sysroot"]).strip())
    return _sysroot[0]


def dump(ver):
    exe, dh = driver()
    vh = os.path.join(VERIF, "engine", "vharness")
    out = os.path.join(WORK, "mir", ver + ".jsonl")
    h = hashlib.sha256((dh + repo_digest() + digest(files(os.path.join(vh, "src"), os.path.join(vh, "Cargo.toml"))) + FLAGS + REPO).encode()).hexdigest()
    with Lock("mir_" + ver):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        if os.path.exists(out) and stamp(out + ".stamp", h):
            return out
        if os.path.exists(out):
            os.remove(out)
        td = os.path.join(WORK, "mirt", ver)
        e = env(MIRDUMP_OUT=out, LD_LIBRARY_PATH=sysroot() + "/lib", RUSTC_WORKSPACE_WRAPPER=exe, RUSTFLAGS=FLAGS, CARGO_TARGET_DIR=td, CARGO_INCREMENTAL="0")
        if os.path.isdir(td):
            sh(["cargo", "+nightly", "clean", "--offline", "-p", "rust-mcp-schema", "-p", "vharness"], cwd=vh, e=e)
        sh(["cargo", "+nightly", "check", "--offline", "--features", "f" + ver], cwd=vh, e=e)
        if not os.path.exists(out):
            raise BuildError("no MIR dump was produced for " + ver)
        open(out + ".stamp", "w").write(h)
    return out


def probe(ver):
    pd = os.path.join(VERIF, "engine", "probe")
    exe = os.path.join(WORK, "probe", ver, "debug", "probe")
    h = hashlib.sha256((repo_digest() + digest(files(os.path.join(pd, "src"), os.path.join(pd, "Cargo.toml"))) + REPO).encode()).hexdigest()
    with Lock("probe_" + ver):
        if os.path.exists(exe) and stamp(exe + ".stamp", h):
            return exe
        td = os.path.join(WORK, "probe", ver)
        e = env(CARGO_TARGET_DIR=td, CARGO_PROFILE_DEV_DEBUG="0", CARGO_INCREMENTAL="0")
        if os.path.isdir(td):
            sh(["cargo", "clean", "--offline", "-p", "rust-mcp-schema", "-p", "probe"], cwd=pd, e=e)
        sh(["cargo", "build", "--offline", "--features", "f" + ver], cwd=pd, e=e)
        open(exe + ".stamp", "w").write(h)
    return exe


def many(jobs):
    """[(fn, arg)] in parallel; returns {(fn name, arg): path or exception}"""
    res = {}
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        fs = {ex.submit(f, a): (f.__name__, a) for f, a in jobs}
        for f in concurrent.futures.as_completed(fs):
            try:
                res[fs[f]] = f.result()
            except Exception as e:
                res[fs[f]] = e
    return res


if __name__ == "__main__":
    t = time.time()
    what = sys.argv[1:] or ["mir", "probe"]
    driver()
    jobs = []
    if "mir" in what:
        jobs += [(dump, v) for v in VERS]
    if "probe" in what:
        jobs += [(probe, v) for v in VERS]
    bad = 0
    for k, r in sorted(many(jobs).items()):
        print(k, r)
        bad |= isinstance(r, Exception)
    print("%.1fs" % (time.time() - t))
    sys.exit(1 if bad else 0)
