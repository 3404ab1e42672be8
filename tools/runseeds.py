"""For each planted bug: apply it to /repo, run its property's check, undo. usage: runseeds.py [ids...] [--prop P]"""
import json, os, subprocess, sys
V = os.path.abspath(os.path.join(os.path.dirname(__file__), ".."))
SD = os.path.join(V, "seeded")
ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir(SD))
for i in ids:
    d = os.path.join(SD, i)
    m = json.load(open(os.path.join(d, "meta.json")))
    p = m["property"]
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
    subprocess.run(["git", "-C", "/repo", "apply", os.path.join(d, "patch.diff")], check=True)
    try:
        r = subprocess.run(["python3-vt", "engine/verify/check.py", p, "--tier", "quick"], cwd=V, capture_output=True, text=True, env=dict(os.environ, VERIF_SEED="1"))
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
    vl = [l for l in r.stdout.splitlines() if l.startswith(("VIOLATION", "failed obligation"))]
    print(i, p, "rc=%d" % r.returncode, "CAUGHT" if r.returncode == 1 and any(l.startswith("VIOLATION") for l in vl) else "MISSED", r.stdout.splitlines()[-1:] , flush=True)
    for l in vl[:3]:
        print("    ", l[:260], flush=True)
    if r.stderr.strip():
        print("     stderr:", r.stderr.strip()[-400:].replace("\n", "\n       "), flush=True)
