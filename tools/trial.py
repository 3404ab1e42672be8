"""Tries edits in private copies: each lane has its own /repo and /verif (bind mounts in a user+mount namespace).

trial.py EDITS.py [id...] [--props P01,P02] [--lanes N]
EDITS: list of dict(id, ver, edits=[(file, old, new[, after])], props=[...] or None for all)
prints what each check said (a behaviour-preserving edit must leave all quiet)
"""
import concurrent.futures, importlib.util, json, os, queue, re, shutil, subprocess, sys
V = os.path.abspath(os.path.join(os.path.dirname(__file__), ".."))
ALL = ["P%02d" % i for i in range(1, 24)]


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def apply(repo, edits):
    for e in edits:
        f, old, new = e[:3]
        p = os.path.join(repo, "src/generated_schema", f)
        t = open(p).read()
        n = t.count(old)
        at = e[3] if len(e) > 3 else None
        if n == 0 or (n > 1 and at is None):
            return "OLD TEXT %d times in %s: %s" % (n, f, old[:80])
        k = t.index(old, t.index(at) if at else 0)
        open(p, "w").write(t[:k] + new + t[k + len(old):])
    return None


def lane_dirs(i):
    return "/tmp/lane%d/repo" % i, "/tmp/lane%d/verif" % i


def run(i, e, props):
    repo, verif = lane_dirs(i)
    os.makedirs(repo, exist_ok=True)
    sh("rsync -a --delete --exclude target /repo/ %s/" % repo) if shutil.which("rsync") else sh("git -C %s checkout -q -- . 2>/dev/null || cp -a /repo/. %s/" % (repo, repo))
    if not os.path.isdir(verif):
        sh("cp -a %s %s" % (V, verif))
    sh("rm -rf {1}/engine/verify {1}/spec; cp -a {0}/engine/verify {1}/engine/verify; cp -a {0}/spec {1}/spec; rm -rf {1}/engine/driver {1}/engine/vharness; cp -a {0}/engine/driver {0}/engine/vharness {1}/engine/; cp {0}/known_findings.txt {1}/".format(V, verif))
    bad = apply(repo, e["edits"]) if "edits" in e else (sh("git -C %s apply %s" % (repo, e["patch"])).stdout or None)
    out = []
    if bad:
        return e["id"], [bad]
    r = sh("cd %s && CARGO_TARGET_DIR=/tmp/lane%d/chk cargo check -q --offline --no-default-features --features schema_utils,%s 2>&1 | grep -E '^error' -A6 | head -30" % (repo, i, e["ver"].split(",")[0]))
    if r.stdout.strip():
        return e["id"], ["DOES NOT COMPILE", r.stdout]
    for p in props:
        cmd = "mount --bind %s /repo && mount --bind %s /verif && cd /verif && VERIF_SEED=1 python3-vt engine/verify/check.py %s --vers %s -v" % (repo, verif, p, e["ver"])
        r = subprocess.run(["unshare", "-Urm", "bash", "-c", cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        last = [l for l in r.stdout.splitlines() if re.match(p + r": \d", l)]
        viol = [l for l in r.stdout.splitlines() if l.startswith(("VIOLATION", "failed obligation"))]
        odd = [l for l in r.stdout.splitlines() if l.startswith(("undecided", "replay", "worker error", "Traceback")) or l.startswith("   ")]
        out.append("%s rc=%d %s" % (p, r.returncode, last[-1] if last else r.stdout[-500:]))
        if viol:
            out += ["   " + l[:330] for l in viol[:6]]
        if viol or not last or " 0 bounded, 0 undecided" not in last[-1]:
            out += ["   " + l[:330] for l in odd[:12]]
    return e["id"], out


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    opt = dict(a[2:].split("=") for a in sys.argv[1:] if a.startswith("--"))
    spec = importlib.util.spec_from_file_location("edits", args[0])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    want = args[1:]
    n = int(opt.get("lanes", 3))
    free = queue.Queue()
    for i in range(n):
        free.put(i)

    def one(e):
        i = free.get()
        try:
            props = opt["props"].split(",") if "props" in opt else e.get("props") or ALL
            return run(i, e, props)
        finally:
            free.put(i)
    todo = [e for e in m.EDITS if not want or e["id"] in want]
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        for f in concurrent.futures.as_completed([ex.submit(one, e) for e in todo]):
            i, out = f.result()
            quiet = "quiet" in opt
            print("==", i, flush=True)
            for l in out:
                if not (quiet and l.startswith("P") and "rc=0" in l and " 0 bounded, 0 undecided" in l):
                    print("  ", l, flush=True)


main()
