"""Loads the MIR dump of one feature configuration (see engine/driver) and precomputes CFG facts."""
import json, re


def strip_generics(s):
    out = []
    depth = 0
    i = 0
    # remove "::<...>" turbofish segments, keep "<X as Y>" qualified selfs
    while i < len(s):
        if s.startswith("::<", i) and not s.startswith("::<impl", i):
            j = i + 3
            d = 1
            while j < len(s) and d:
                if s[j] == "<":
                    d += 1
                elif s[j] == ">" and s[j - 1] != "-":
                    d -= 1
                j += 1
            i = j
            continue
        out.append(s[i])
        i += 1
    return "".join(out)


class Body:
    __slots__ = ("argc", "locals", "blocks", "dbg", "spread", "succ", "rpo", "loops", "live", "headers", "borrowed")

    def __init__(self, b):
        self.argc = b["argc"]
        self.locals = b["locals"]
        self.blocks = b["blocks"]
        self.dbg = b["dbg"]
        self.spread = b.get("spread")
        self._cfg()

    def _succ(self, b):
        t = self.blocks[b][1]
        k = t["t"]
        if k in ("goto", "drop", "assert"):
            return [t["to"]]
        if k == "switch":
            r = [x[1] for x in t["br"]]
            if t["else"] not in r:
                r.append(t["else"])
            return r
        if k == "call":
            return [t["to"]] if t["to"] is not None else []
        return []

    def _cfg(self):
        n = len(self.blocks)
        self.succ = [self._succ(b) for b in range(n)]
        order = []
        col = [0] * n
        back = []
        stack = [(0, iter(self.succ[0]))]
        col[0] = 1
        while stack:
            u, it = stack[-1]
            adv = False
            for w in it:
                if col[w] == 1:
                    back.append((u, w))
                elif col[w] == 0:
                    col[w] = 1
                    stack.append((w, iter(self.succ[w])))
                    adv = True
                    break
            if not adv:
                col[u] = 2
                order.append(u)
                stack.pop()
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        preds = [[] for _ in range(n)]
        for b in order:
            for s in self.succ[b]:
                preds[s].append(b)
        self.loops = {}
        for u, h in back:
            body = self.loops.setdefault(h, {h})
            st = [u]
            while st:
                x = st.pop()
                if x in body:
                    continue
                body.add(x)
                st.extend(preds[x])
        # liveness (locals whose address is taken are always live)
        use = [set() for _ in range(n)]
        dfn = [set() for _ in range(n)]
        self.borrowed = set()

        def u_place(p, U, D, is_def=False):
            l, pr = p
            if is_def and not pr:
                D.add(l)
                return
            if l not in D:
                U.add(l)
            for e in pr:
                if isinstance(e, dict) and "ix" in e and e["ix"] not in D:
                    U.add(e["ix"])

        def u_op(o, U, D):
            if o.get("k") in ("copy", "move"):
                u_place(o["p"], U, D)

        def u_rv(r, U, D):
            k = r[0]
            if k == "use" or k == "repeat":
                u_op(r[1], U, D)
            elif k == "ref":
                self.borrowed.add(r[1][0])
                u_place(r[1], U, D)
            elif k in ("disc", "len"):
                u_place(r[1], U, D)
            elif k in ("bin", "cbin"):
                u_op(r[2], U, D)
                u_op(r[3], U, D)
            elif k in ("un", "cast"):
                u_op(r[2], U, D)
            elif k == "agg":
                for o in r[2]:
                    u_op(o, U, D)

        for b in order:
            U, D = use[b], dfn[b]
            ss, t = self.blocks[b]
            for s in ss:
                if s[0] == "=":
                    u_rv(s[2], U, D)
                    u_place(s[1], U, D, True)
                elif s[0] == "sd":
                    u_place(s[1], U, D)
                elif s[0] == "assume":
                    u_op(s[1], U, D)
            k = t["t"]
            if k == "switch":
                u_op(t["d"], U, D)
            elif k == "assert":
                u_op(t["c"], U, D)
            elif k == "call":
                for o in t["args"]:
                    u_op(o, U, D)
                if "dynf" in (t["f"] or {}):
                    u_op(t["f"]["dynf"], U, D)
                u_place(t["dest"], U, D, True)
            elif k == "ret":
                if 0 not in D:
                    U.add(0)
        live = [set() for _ in range(n)]
        changed = True
        while changed:
            changed = False
            for b in reversed(order):
                out = set()
                for s in self.succ[b]:
                    out |= live[s]
                li = use[b] | (out - dfn[b])
                if li != live[b]:
                    live[b] = li
                    changed = True
        self.live = live


class Inst:
    __slots__ = ("id", "name", "df", "krate", "gargs", "kind", "_raw", "_body", "at", "key")

    def __init__(self, d):
        self.id = d["id"]
        self.name = d["name"]
        self.df = d["def"]
        self.krate = d["krate"]
        self.gargs = d["gargs"]
        self.kind = d["kind"]
        self._raw = d["body"]
        self._body = None
        self.at = d.get("at")
        self.key = strip_generics(self.df)

    @property
    def has_body(self):
        return self._raw is not None

    @property
    def body(self):
        if self._body is None and self._raw is not None:
            self._body = Body(self._raw)
        return self._body


class Prog:
    def __init__(self, path, ver):
        self.ver = ver
        self.insts = {}
        self.types = {}
        with open(path) as f:
            for line in f:
                d = json.loads(line)
                if "roots" in d:
                    self.roots = d["roots"]
                    self.skipped = d["skipped"]
                elif "id" in d:
                    self.insts[d["id"]] = Inst(d)
                else:
                    self.types[d["ty"]] = d["d"]
        self._ts = {}
        self.by_tstr = {}
        for i in self.types:
            self.by_tstr.setdefault(self.tstr(i), i)
        self.local_adts = {}
        for i, d in self.types.items():
            if d["k"] == "adt" and d["krate"] == "rust_mcp_schema" and "::_::" not in d["name"]:
                self.local_adts.setdefault(self.tstr(i), i)
        # indexes
        self.root_defs = {}
        for r in self.roots:
            self.root_defs.setdefault(self.pretty(r["def"]), self.insts[r["id"]])
        self.deser = {}
        self.seri = {}
        self.display = {}
        self.fromstr = {}
        self.visit_map = {}
        self.absmap = next((i for i, d in self.types.items() if d["k"] == "adt" and d["name"] == "vharness::AbsMap"), None)
        for i in self.insts.values():
            if not i.has_body or not i.gargs:
                continue
            if i.krate == "rust_mcp_schema" and i.name.startswith("<"):
                m = re.match(r"<(.*) as (?:serde_core|serde)::(?:de::)?(Deserialize|Serialize)", i.name)
            else:
                m = None
        for r in self.roots:
            i = self.insts[r["id"]]
            nm = r["def"]
            b = i._raw
            if b is None:
                continue
            if re.search(r"Deserialize<'de>>::deserialize$|Deserialize<'de> for .*>::deserialize$", nm):
                # return type Result<T, E>
                rt = self.types[b["locals"][0]]
                self.deser[self.tstr(rt["args"][0])] = i
            elif re.search(r"Serialize>::serialize$|Serialize for .*>::serialize$", nm):
                at = self.types[b["locals"][1]]
                self.seri[self.tstr(at["e"])] = i
            elif nm.endswith("::visit_map"):
                self.visit_map[b["locals"][1]] = i
            elif re.search(r"std::fmt::Display>::fmt$|std::fmt::Display for .*>::fmt$", nm):
                at = self.types[b["locals"][1]]
                self.display[self.tstr(at["e"])] = i

    _re_path = re.compile(r"(?:[A-Za-z_][\w]*::)+")

    def pretty(self, d):
        d = d.replace("vharness::rust_mcp_schema::", "")
        d = re.sub(r"generated_schema::__int_(?:utils_)?[0-9a-z_]+::", "", d)
        d = re.sub(r"\b(?:mcp_[0-9a-z_]+|schema_utils)::", "", d)
        d = re.sub(r"\b(?:std|core|alloc|serde|serde_core|serde_json)::(?:[a-z_0-9]+::)*", "", d)
        return d

    def tstr(self, i):
        r = self._ts.get(i)
        if r is not None:
            return r
        self._ts[i] = "#%d" % i
        d = self.types[i]
        k = d["k"]
        if k in ("int", "uint", "float"):
            r = {"Isize": "isize", "Usize": "usize"}.get(d["s"], d["s"].lower())
        elif k in ("bool", "char", "str", "never"):
            r = k
        elif k == "ref":
            r = "&" + ("mut " if d["m"] else "") + self.tstr(d["e"])
        elif k == "ptr":
            r = "*" + self.tstr(d["e"])
        elif k == "slice":
            r = "[" + self.tstr(d["e"]) + "]"
        elif k == "array":
            r = "[%s;%s]" % (self.tstr(d["e"]), d["n"])
        elif k == "tuple":
            r = "(" + ",".join(self.tstr(e) for e in d["es"]) + ")"
        elif k == "adt":
            n = d["name"]
            base = n.split("::")[-1]
            if "::_::" in n or base.startswith("__"):
                base = base + "#%d" % i
            a = [self.tstr(x) for x in d["args"] if isinstance(x, int)]
            a = [x for x in a if x != "Global"]
            if base == "Map":
                a = []
            r = base + ("<" + ",".join(a) + ">" if a else "")
        elif k == "fndef":
            r = "fn:" + d["name"]
        elif k == "closure":
            r = "closure:" + d["name"]
        else:
            r = k + ":" + d.get("s", "")
        self._ts[i] = r
        return r

    def find(self, pretty_name):
        return self.root_defs.get(pretty_name)
