"""One-time extraction of the wire specification (run by hand, never by a check).

Reads the official JSON schema fragments embedded in /repo's doc comments and the Rust type
definitions below them, cross-checks the two and writes spec/<ver>.json.  The result is committed and
reviewed; checks read only the committed file."""
import re, json, sys
V = ["2026_07_28", "draft", "2025_11_25", "2025_06_18", "2025_03_26", "2024_11_05"]


def items(src):
    """(doc, attrs, kind, name, body)"""
    lines = src.split("\n")
    i = 0
    doc, attrs = [], []
    n = len(lines)
    while i < n:
        l = lines[i]
        if l.startswith("///"):
            doc.append(l[3:])
        elif l.startswith("/**"):
            while "*/" not in lines[i]:
                i += 1
        elif l.startswith("#["):
            a = l
            while a.count("[") > a.count("]"):
                i += 1
                a += " " + lines[i].strip()
            attrs.append(a)
        else:
            m = re.match(r"pub (struct|enum) (\w+)(.*)$", l)
            if m:
                kind, name, rest = m.groups()
                body = []
                if rest.strip().endswith(";"):
                    body = [rest.strip()]
                elif rest.strip() != "{}":
                    i += 1
                    while lines[i] != "}":
                        body.append(lines[i])
                        i += 1
                yield "\n".join(doc), attrs, kind, name, body
            if l.strip():
                doc, attrs = [], []
        i += 1


def split_members(body):
    """[(attrs, text)]"""
    out = []
    attrs = []
    i = 0
    cur = ""
    while i < len(body):
        l = body[i].strip()
        if cur == "" and l.startswith("///"):
            i += 1
            continue
        if cur == "" and l.startswith("/**"):
            while "*/" not in body[i]:
                i += 1
            i += 1
            continue
        if cur == "" and l.startswith("#["):
            a = l
            while a.count("[") > a.count("]"):
                i += 1
                a += " " + body[i].strip()
            attrs.append(a)
            i += 1
            continue
        if l.startswith("//"):
            i += 1
            continue
        cur += l
        if cur and cur.count("<") - cur.count("->") <= cur.count(">") and cur.count("{") == cur.count("}") and cur.count("(") == cur.count(")") and cur.endswith(","):
            out.append((attrs, cur[:-1]))
            cur, attrs = "", []
        i += 1
    if cur:
        out.append((attrs, cur))
    return out


def short(t):
    return re.sub(r"(::)?\b(std|serde_json|string|option|vec|collections|boxed|marker)::(?:[a-z_]+::)*", "", t.replace(" ", ""))


def sattr(attrs):
    a = " ".join(attrs)
    r = {}
    m = re.search(r'rename = "([^"]+)"', a)
    if m: r["rename"] = m.group(1)
    m = re.search(r'deserialize_with = "([^"]+)"', a)
    if m: r["de"] = m.group(1)
    m = re.search(r'skip_serializing_if = "([^"]+)"', a)
    if m: r["skip"] = m.group(1)
    if "flatten" in a: r["flat"] = True
    if re.search(r"\bdefault\b", a):
        m = re.search(r'default = "([^"]+)"', a)
        r["default"] = m.group(1) if m else True
    if "untagged" in a: r["untagged"] = True
    if "transparent" in a: r["transparent"] = True
    m = re.search(r"serde\(([^)]*)\)", a)
    return r


def fields(body):
    fs = []
    for attrs, txt in split_members(body):
        m = re.match(r"(pub(?:\([a-z]+\))? )?(r#)?(\w+)\s*:\s*(.*)$", txt)
        if not m: raise SystemExit("field? " + txt)
        s = sattr(attrs)
        fs.append({"f": m.group(3), "k": s.get("rename", m.group(3)), "t": short(m.group(4)), "pub": bool(m.group(1)), **{k: v for k, v in s.items() if k != "rename"}})
    return fs


def main():
    for v in V:
        base = "/repo/src/generated_schema/%s/" % v
        vs = open(base + "validators.rs").read()
        consts = dict(re.findall(r'validate!\(\s*(\w+),\s*"[^"]*",\s*"[^"]*",\s*"?([^"\),]*)"?(?:,\s*\w+)?\s*\)', vs))
        src = open(base + "mcp_schema.rs").read()
        out = {"structs": {}, "strenums": {}, "untagged": {}, "transparent": {}, "other": {}}
        for f in ("mcp_schema.rs", "schema_utils.rs"):
            s = open(base + f).read()
            s = re.sub(r"(?ms)^#\[cfg\(test\)\]\nmod tests.*", "", s)
            for doc, attrs, kind, name, body in items(s):
                a = " ".join(attrs)
                sa = sattr(attrs)
                schema = None
                m = re.search(r"```json\n(.*?)\n ?```", doc, re.S)
                if m:
                    try: schema = json.loads(m.group(1))
                    except Exception as e: print(v, name, "bad doc json", e)
                serde = "Serialize" in a
                if kind == "struct":
                    if body and body[0].startswith("("):
                        out["transparent" if serde else "other"][name] = short(body[0][1:-2].replace("pub ", ""))
                        continue
                    fs = fields(body)
                    out["structs"][name] = {"fields": fs, "serde": serde, "src": f}
                    if schema and serde:
                        pr = set(schema.get("properties", {}))
                        req = set(schema.get("required", []))
                        ks = {x["k"] for x in fs if not x.get("flat")}
                        rq = {x["k"] for x in fs if not x.get("flat") and "default" not in x}
                        if ks != pr: print(v, name, "keys", "extra", ks - pr, "missing", pr - ks)
                        if rq != req: print(v, name, "required: code-only", rq - req, "schema-only", req - rq)
                        if ("additionalProperties" in schema and schema["additionalProperties"] is not False) != any(x.get("flat") for x in fs): print(v, name, "additional", schema.get("additionalProperties"), [x for x in fs if x.get("flat")])
                        for x in fs:
                            d = schema.get("properties", {}).get(x["k"], {})
                            c = d.get("const")
                            if x.get("de"):
                                q = x["de"].split("::")[-1]
                                if "const" in d:
                                    x["const"] = c
                                    if consts.get(q) != c: print(v, name, x["k"], "validator", q, consts.get(q), c)
                                else:
                                    print(v, name, x["k"], "validator without const", x["de"], d)
                            elif "const" in d:
                                print(v, name, x["k"], "const without validator", c, x)
                else:
                    ms = split_members(body)
                    if all(re.match(r"\w+$", t) for _, t in ms) and serde:
                        vals = {t: sattr(at).get("rename", t) for at, t in ms}
                        out["strenums"][name] = vals
                        if schema and "enum" in schema and set(schema["enum"]) != set(vals.values()): print(v, name, "enum mismatch", schema["enum"], vals)
                    elif all(re.match(r"\w+\s*\(", t) for _, t in ms):
                        out["untagged" if sa.get("untagged") else "other"][name] = [[re.match(r"\w+", t).group(0), short(re.match(r"\w+\s*\((.*)\)$", t).group(1))] for _, t in ms] if True else None
                        if not sa.get("untagged"): out["other"][name] = {"variants": out["other"][name], "attrs": a}
                    else:
                        vv = []
                        for at, t in ms:
                            m = re.match(r"(\w+)\s*\{(.*)\}$", t)
                            if m:
                                inner = re.sub(r"(#\[[^\]]*\])", r"\n\1\n", m.group(2)).replace(",", ",\n").split("\n")
                                vv.append([m.group(1), {"fields": fields([x for x in inner if x.strip()])}])
                            else:
                                m = re.match(r"(\w+)\s*\((.*)\)$", t)
                                vv.append([m.group(1), short(m.group(2))] if m else [t, None])
                        if serde and sa.get("untagged"): out["untagged"][name] = vv
                        else: out["other"][name] = {"variants": vv, "attrs": a}
        json.dump(out, open("/verif/spec/%s.json" % v, "w"), indent=1, sort_keys=True)
        print(v, {k: len(x) for k, x in out.items()}, "other:", sorted(out["other"]))


main()
