"""From obligations to a verdict: replay of counterexamples, bounded stand-ins, evidence."""
import hashlib, json, os, re, sys, time
from core import VERIF

TRUSTED = [
    "rustc (nightly) front end and MIR construction: the verified text is the optimisation-free MIR of /repo's current source, dumped by engine/driver on every run",
    "engine/verify/exec.py: the symbolic executor / verification-condition generator (own tool)",
    "engine/verify/contracts.py: assumed contracts of std, serde and serde_json functions the code calls",
    "engine/vharness: the abstract serde source/sink the derived (de)serialisers are run against",
    "spec/*.json: the wire specification of each protocol version, against which the code is proved",
    "z3",
]


ASSUMPTIONS = [
    "library functions (std, serde, serde_json) meet the contracts assumed for them; those used are under assumed_contracts_used",
    "allocation does not fail; sequences are shorter than 2^63",
    "integers are mathematical with the range checks of the MIR; floats are opaque and finite",
    "JSON objects have each member once; an array in place of an object is outside",
    "strings are sequences of code points (valid UTF-8)",
    "a type nested in another is read, written and copied as its own contract says, which is proved for that type under P01, P02 and P23",
]
SPECIAL_ASSUMPTIONS = {
    "P04": ["the round trip of the member types (induction hypothesis)", "unions whose alternatives nothing tells apart are left out (AMBIGUOUS in roundtrip.py)",
            "extra members do not repeat a named member; an optional opaque value is not Some(null)"],
    "P11": ["2025-11-25 as specified by the library: includeContext other than none needs sampling.context"],
    "P12": ["hash values are not replayed on the real code"],
    "P19": ["an opaque custom message of the older versions has a method when it is asked for one (precondition)"],
    "P21": ["serde_json's text form of JSON and its parser are inverse to each other"],
}


def plain(n):
    """a function's name without the paths of the crate"""
    n = re.sub(r"vharness::rust_mcp_schema::([a-z_][a-z0-9_]*::)*", "", n)
    n = re.sub(r"\b(std|serde|serde_core|core|alloc|serde_json)::([a-z_][a-z0-9_]*::)*", "", n)
    return re.sub(r"vharness::", "", n)


def conclude(prop, P, vers, res, tier, seed, t0, known, verbose):
    obs = []
    errors = []
    functions, inlined, used = set(), set(), {}
    ms = 0
    for r in res:
        if r["error"]:
            errors.append("%s/%s: %s" % (r["ver"], r["shard"], r["error"]))
        obs += r["obs"]
        functions |= {r["ver"] + ":" + f for f in r["functions"]}
        inlined |= {r["ver"] + ":" + f for f in r["inlined"]}
        for k, n in r["used"].items():
            used[k] = used.get(k, 0) + n
        ms += r["solver_ms"]
    by = {}
    for o in obs:
        by[o["status"]] = by.get(o["status"], 0) + 1
    bad = [o for o in obs if o["status"] != "proved"]
    violations, findings, undecided, bounded = [], {}, [], []
    fresh = [o for o in bad if ident_of(o) not in known]
    verdicts = real(prop, fresh, tier, seed, t0) if fresh else {}
    for i, o in enumerate(bad):
        v = verdicts.get(id(o)) or ("alarm" if o["status"] == "refuted" and not weak(o) else "undecided", None)
        ident = ident_of(o)
        if ident in known and v[0] in ("fails", "alarm"):
            findings[ident] = known[ident]
        elif v[0] == "fails":
            violations.append((o, v[1]))
        elif v[0] == "alarm":
            violations.append((o, None))
        elif v[0] == "passes":
            bounded.append((o, v[1]))
        else:
            undecided.append(o)
    for ident, text in sorted(findings.items()):
        print("KNOWN-FINDING: property=%s %s %s" % (prop, ident, text))
    rc = 0
    if errors:
        for e in errors:
            print("worker error:", e, file=sys.stderr)
    if violations:
        rc = 1
        violations.sort(key=lambda x: x[1] is None)
        o, rep = violations[0]
        rd = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s-%s.json" % (prop, hashlib.sha256((o["ver"] + o["func"] + o["name"]).encode()).hexdigest()[:10]))
        with open(path, "w") as f:
            json.dump(dict(property=prop, version=o["ver"], function=o["func"], obligation=o["name"], verifier=o["detail"], replay=rep,
                           others=[dict(version=x["ver"], function=x["func"], obligation=x["name"], replay=y) for x, y in violations[1:40]]), f, indent=1)
        for x, y in violations[:12]:
            print("failed obligation: %s %s: %s%s" % (x["ver"], x["func"], x["name"], "" if y is None else " [failing input: %s]" % json.dumps(y)[:300]))
        print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if rep is not None else " no-failing-input-found"))
    for o in undecided[:20]:
        print("undecided: %s %s: %s (%s)" % (o["ver"], o["func"], o["name"], o["detail"][:200]), file=sys.stderr)
    cov = dict(obligations=len(obs), discharged=by.get("proved", 0), checker_cmd="python3-vt engine/verify/check.py %s" % prop,
               trusted_base=TRUSTED,
               by_status=by, backends=count(obs, "backend"), solver_ms=round(ms), functions_under_contract=len(functions), functions_inlined=len(inlined),
               versions=vers, functions=sorted(plain(x) for x in functions)[:12000],
               assumed_contracts_used=dict(sorted(used.items())),
               bounded_standins=[dict(version=o["ver"], function=o["func"], obligation=o["name"], bound=b) for o, b in bounded],
               undecided=[dict(version=o["ver"], function=o["func"], obligation=o["name"], why=o["detail"][:300]) for o in undecided],
               known_findings=sorted(findings), worker_errors=errors,
               samples=[dict(version=o["ver"], function=o["func"], obligation=o["name"], backend=o["backend"], ms=round(o["ms"], 1)) for o in obs[:: max(1, len(obs) // 12)]][:14])
    ev = dict(property=prop, tier=tier, seed=seed, level="proof", coverage=cov, assumptions=ASSUMPTIONS + SPECIAL_ASSUMPTIONS.get(prop, []), wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d obligations, %d proved, %d bounded, %d undecided, %d violations, %d functions, %d versions, %.1f s" % (
        prop, len(obs), by.get("proved", 0), len(bounded), len(undecided), len(violations), len(functions), len(vers), time.time() - t0))
    if verbose:
        for o in bad[:60]:
            print("  ", o["ver"], o["func"], "|", o["name"], "|", o["status"], "|", o["detail"][:300])
    if not obs:
        print("no obligations were generated", file=sys.stderr)
    return rc


CTX = {}


def weak(o):
    """the refutation leans on a library function whose contract is only partly specified: on its own it is not a violation"""
    return isinstance(o.get("hint"), dict) and bool(o["hint"].get("weak"))


def ident_of(o):
    return "%s|%s|%s" % (o["ver"], o["func"], o["name"])


def replay_worker(q, prop, ver, groups, seed, n, budget):
    import replay, traceback
    try:
        c = CTX[ver]
        c.prop = prop
        r = replay.decide_version(c, prop, groups, seed, n, budget)
    except BaseException:
        r = dict(error=traceback.format_exc()[-2000:])
    q.put((ver, r))
    q.close()
    q.join_thread()
    os._exit(0)


def real(prop, bad, tier, seed, t0):
    """runs the units with unproved obligations on the real code; {id(obligation): (verdict, detail)}"""
    import multiprocessing as mp
    vers = {}
    for o in bad:
        vers.setdefault(o["ver"], {}).setdefault(o["func"], []).append(o)
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    procs = []
    n = 120 if tier == "quick" else 500
    budget = 240 if tier == "quick" else 500
    for ver, g in vers.items():
        # refuted obligations first, then the rest; a bounded number of units
        order = sorted(g, key=lambda f: (not any(o["status"] == "refuted" and isinstance(o.get("hint"), dict) for o in g[f]), not any(o["status"] == "refuted" for o in g[f]), f))
        pick = {f: g[f] for f in order[:12 if tier == "quick" else 60]}
        k = max(n, min(4 * n, 1000 // len(pick)))
        p = ctx.Process(target=replay_worker, args=(q, prop, ver, pick, seed, k, budget))
        p.start()
        procs.append((p, ver))
    out = {}
    pending = {v for _, v in procs}
    while pending and time.time() - t0 < 800:
        try:
            ver, r = q.get(timeout=5)
        except Exception:
            for p, v in procs:
                if v in pending and not p.is_alive() and q.empty():
                    pending.discard(v)
            continue
        pending.discard(ver)
        if "error" in r:
            print("replay (%s): %s" % (ver, r["error"]), file=sys.stderr)
            continue
        for label, v in r.items():
            if os.environ.get("VTRACE"):
                print("replay", ver, label, {k: x for k, x in v.items() if k != "fails"}, len(v["fails"]), file=sys.stderr)
            for o in vers[ver][label]:
                hit = [f for f in v["fails"] if o["name"] in f["obligations"] or o["status"] != "refuted"]
                if hit:
                    hit.sort(key=lambda f: not f["from_model"])
                    out[id(o)] = ("fails", hit[0])
                elif o["status"] == "refuted" and not weak(o):
                    out[id(o)] = ("passes", "the verifier's counterexample does not occur on the real code; %d runs of the real code" % v["cases"]) if v["spurious"] and v["judged"] else ("alarm", None)
                elif v["judged"]:
                    out[id(o)] = ("passes", "%d runs of the real code, %d postconditions evaluated (%d left open)" % (v["cases"], v["judged"], v["unknown"]))
                else:
                    out[id(o)] = ("undecided", None)
                    o["detail"] = (o["detail"] or "") + " / stand-in: " + v["why"]
    for p, _ in procs:
        if p.is_alive():
            p.kill()
    return out


def count(obs, k):
    d = {}
    for o in obs:
        d[o[k]] = d.get(o[k], 0) + 1
    return d
