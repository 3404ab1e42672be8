"""Decides one property: proves every obligation of its contracts on the MIR of /repo's current tree.

usage: check.py <property> [--tier quick|thorough] [--vers a,b] [-v]
exit 0: held on everything explored; exit 1 with a VIOLATION line otherwise.
"""
import argparse, json, multiprocessing as mp, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from core import Ctx, VERIF, Ob

SHARDS = 4


def worker(job):
    prop, ver, shard, n = job
    import props
    try:
        c = CTX[ver]
        c.prop = prop
        c.shard = (shard, n)
        props.PROPS[prop]["run"](c)
        return dict(ver=ver, shard=shard, obs=[o.js() for o in c.obs], functions=sorted(c.functions), inlined=sorted(c.inlined), used=c.used, solver_ms=c.solver_ms, error=None)
    except BaseException as e:
        return dict(ver=ver, shard=shard, obs=[], functions=[], inlined=[], used={}, solver_ms=0, error=traceback.format_exc()[-3000:])


CTX = {}


def prove(prop, vers, tier):
    """all obligations of one property; fork server: each worker gets a copy of the loaded program"""
    jobs = [(build.dump, v) for v in vers]
    build.driver()
    res = build.many(jobs)
    for k, r in res.items():
        if isinstance(r, Exception):
            raise r
    out = []
    procs = []
    q = mp.get_context("fork").Queue()
    todo = []
    for v in vers:
        CTX[v] = Ctx(v, res[("dump", v)])
        todo += [(prop, v, s, SHARDS) for s in range(SHARDS)]
    running = {}
    done = 0
    total = len(todo)
    ctx = mp.get_context("fork")

    def body(i, job):
        q.put((i, worker(job)))
        q.close()
        q.join_thread()
        os._exit(0)
    i = 0
    while done < total:
        while todo and len(running) < (os.cpu_count() or 8):
            job = todo.pop(0)
            p = ctx.Process(target=body, args=(i, job))
            p.start()
            running[i] = (p, job, time.time())
            i += 1
        try:
            k, r = q.get(timeout=5)
            out.append(r)
            running.pop(k)[0].join(5)
            done += 1
        except Exception:
            for k, (p, job, t) in list(running.items()):
                if not p.is_alive() and q.empty():
                    running.pop(k)
                    out.append(dict(ver=job[1], shard=job[2], obs=[], functions=[], inlined=[], used={}, solver_ms=0, error="worker ended with code %s" % p.exitcode))
                    done += 1
                elif time.time() - t > 600:
                    p.kill()
    return out


def known(prop):
    """known findings of this property: {identifier: text}"""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    for l in open(p):
        l = l.rstrip("\n")
        if l.startswith("finding: property=%s " % prop):
            rest = l.split(" ", 2)[2]
            ident, _, text = rest.partition(" :: ")
            out[ident] = text
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--vers")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED") or 1)
    import props
    P = props.PROPS[a.prop]
    vers = a.vers.split(",") if a.vers else P.get("vers", build.VERS)
    res = prove(a.prop, vers, a.tier)
    import decide
    decide.CTX = CTX
    rc = decide.conclude(a.prop, P, vers, res, a.tier, seed, t0, known(a.prop), a.v)
    sys.exit(rc)


if __name__ == "__main__":
    main()
