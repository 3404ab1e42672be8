"""adds to spec/<ver>.json what the reviewed specification takes from the compiled base tree:
the member domains (`ty`), the default version string, and the dispatch tables. Run once, by hand."""
import json, sys
sys.path.insert(0, "/verif/engine/verify")
from prog import Prog

for ver in sys.argv[1:]:
    p = Prog("/tmp/mir_%s.jsonl" % ver, ver)
    path = "/verif/spec/%s.json" % ver
    s = json.load(open(path))

    def fix(ti, var, fields):
        ft = {n: p.tstr(t) for n, t in p.types[ti]["vs"][var]["fields"]}
        for f in fields:
            f["ty"] = ft[f["f"]]
            if f.get("default") == "default_jsonrpc":
                f["defval"] = "2.0"
    for t, d in s["structs"].items():
        if t in p.local_adts:
            fix(p.local_adts[t], 0, d["fields"])
    for t, vs in s["untagged"].items():
        ti = p.local_adts[t]
        s.setdefault("payload", {})[t] = {}
        for i, v in enumerate(p.types[ti]["vs"]):
            if len(v["fields"]) == 1:
                s["payload"][t][v["name"].split("::")[-1]] = p.tstr(v["fields"][0][1])
        for n, pl in vs:
            if isinstance(pl, dict):
                fix(ti, [v["name"].split("::")[-1] for v in p.types[ti]["vs"]].index(n), pl["fields"])
    s["dispatch"] = [t for t in ("ClientRequest", "ClientNotification", "ServerRequest", "ServerNotification") if t in s["untagged"]]
    if ver in ("2026_07_28", "draft"):
        s["dispatch"] = ["ClientRequest", "ServerNotification"]
    for t, d in s["structs"].items():
        if t == "UrlElicitError":
            for f in d["fields"]:
                if f["f"] == "code":
                    f["const"] = -32042
        if t in ("Task", "TaskStatusNotificationParams"):
            for f in d["fields"]:
                if f["f"] == "ttl":
                    f["double"] = True
    json.dump(s, open(path, "w"), indent=1, sort_keys=True)
    print(ver, s["dispatch"])
