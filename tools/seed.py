"""Makes and confirms planted bugs: seed.py FILE.py [id...]  (FILE.py defines SEEDS)

Each seed: dict(id, prop, feat, edits=[(file, old, new)], main, needs, breaks).  In a scratch copy of /repo the
edit must build, pass the stable tests, and make the demonstration fail; kept under /verif/seeded/<id>/.
"""
import importlib.util, json, os, shutil, subprocess, sys
V = "/verif"
SCRATCH = "/tmp/seedrepo"
DEMO = '''#!/bin/bash
# cwd: the repository. Builds the small program beside this file against it and runs it: exit 0 when the property holds.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
trap 'rm -r "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$PWD/Cargo.lock" "$d/Cargo.lock" 2>/dev/null
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
rust-mcp-schema = { path = "$PWD", default-features = false, features = ["schema_utils", "%s"] }
serde_json = "1"
serde = "1"
[workspace]
T
cd "$d" || exit 3
CARGO_TARGET_DIR="$d/target" CARGO_PROFILE_DEV_DEBUG=0 cargo run -q --offline
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    spec = importlib.util.spec_from_file_location("seeds", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    want = set(sys.argv[2:])
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    if not os.path.isdir(SCRATCH):
        sh("cp -a /repo %s" % SCRATCH)
    sh("git fetch -q origin; git checkout -q -f --detach && git pull -q /repo HEAD && git checkout -q -- .", cwd=SCRATCH)
    print(sh("git -C /repo rev-parse HEAD; git rev-parse HEAD", cwd=SCRATCH).stdout.split())
    for s in m.SEEDS:
        if want and s["id"] not in want:
            continue
        sh("git checkout -q -- .", cwd=SCRATCH)
        d = "/tmp/seedout/" + s["id"]
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        feat = s["feat"]
        open(d + "/main.rs", "w").write(s["main"])
        open(d + "/demo.sh", "w").write(DEMO % feat)
        os.chmod(d + "/demo.sh", 0o755)
        r = sh("bash %s/demo.sh" % d, cwd=SCRATCH)
        if r.returncode:
            print(s["id"], "DEMO FAILS ON UNCHANGED", r.stdout[-2500:])
            continue
        bad = False
        for e in s["edits"]:
            f, old, new = e[:3]
            p = os.path.join(SCRATCH, "src/generated_schema", f)
            t = open(p).read()
            n = t.count(old)
            at = e[3] if len(e) > 3 else None
            if n == 0 or (n > 1 and at is None):
                print(s["id"], "OLD TEXT", n, "times in", f)
                bad = True
                break
            if at is None:
                t = t.replace(old, new)
            else:
                k = t.index(at)
                k = t.index(old, k)
                t = t[:k] + new + t[k + len(old):]
            open(p, "w").write(t)
        if bad:
            continue
        diff = sh("git diff", cwd=SCRATCH).stdout
        open(d + "/patch.diff", "w").write(diff)
        r = sh("bash %s/demo.sh" % d, cwd=SCRATCH)
        if r.returncode == 0:
            print(s["id"], "DEMO PASSES WITH PATCH")
            continue
        if "could not compile" in r.stdout:
            print(s["id"], "DOES NOT COMPILE", r.stdout[-2500:])
            continue
        why = r.stdout[-300:]
        r = sh("sed 's#/repo#%s#g' /opt/vp/test.sh > /tmp/seedtest.sh; sed 's#/repo#%s#g' /opt/vp/env.sh > /tmp/seedenv.sh; sed -i 's#/opt/vp/env.sh#/tmp/seedenv.sh#' /tmp/seedtest.sh; bash /tmp/seedtest.sh /tmp/seedout/res.json" % (SCRATCH, SCRATCH), cwd=SCRATCH)
        try:
            res = json.load(open("/tmp/seedout/res.json"))
        except Exception:
            print(s["id"], "TESTS DID NOT RUN", r.stdout[-1500:])
            continue
        if not base <= set(res["passed"]):
            print(s["id"], "TESTS FAIL", sorted(base - set(res["passed"]))[:3])
            continue
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
        k = V + "/seeded/" + s["id"]
        shutil.rmtree(k, ignore_errors=True)
        shutil.copytree(d, k)
        print(s["id"], "KEPT", len(res["passed"]), "tests pass;", why.strip().splitlines()[-1:] )
    sh("git checkout -q -- .", cwd=SCRATCH)


main()
