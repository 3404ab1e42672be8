"""What is written reads back as the value it was written from: the real serialiser composed with the real
deserialiser, for an arbitrary value; the parts of the value are covered by their own round trip (structural
induction over the types)."""
from fncon import *


def wellformed(c, E, ti, x, fields, var=0):
    """values a document can stand for: constants as specified, extras apart from the named members"""
    pre = []
    named = [f["k"] for f in fields if not f.get("flat")]
    for f in fields:
        i, ft = c.fidx(ti, f["f"], var)
        v = E.proj(x, var, i, ft)
        inner = E.opt_inner(ft)
        if f.get("flat"):
            m = v
            if inner is not None:
                pre.append(E.cv(v, ft, 1))
                m = E.proj(v, 1, 0, inner)
            if c.p.tstr(inner if inner is not None else ft) == "Map":
                pre += [Not(E.jhas(m, Str((k,)))) for k in named]
                continue
            sub = c.spec["structs"].get(c.p.tstr(ft))
            if sub is None or not sub["serde"] or set(named) & {g["k"] for g in sub["fields"]} or [g for g in sub["fields"] if g.get("flat")]:
                return None
            w = wellformed(c, E, ft, v, sub["fields"])
            if w is None:
                return None
            pre += w
            continue
        if inner is not None and c.p.tstr(inner) == "Value":
            pre.append(Implies(E.cv(v, ft, 1), Not(E.jkind_is(E.proj(v, 1, 0, inner), K_NULL))))
        if "const" in f:
            cv = lits_(f["const"])
            if inner is not None:
                pre.append(Implies(E.cv(v, ft, 1), E.eq(E.proj(v, 1, 0, inner), cv)))
            else:
                pre.append(E.eq(v, cv))
        if f.get("skip") and not f["skip"].endswith("Option::is_none") and "default" not in f:
            pre.append(skip_cond(c, E, ft, v, f["skip"]))
    return [p for p in pre if not is_t(p)]


def lits_(x):
    return Str((x,)) if isinstance(x, str) else int(x)


def round_one(c, t, prefn, vi=None, what=""):
    with c.guard("%s%s: written and read back" % (t, what)):
        c.work()
        ti = c.p.local_adts.get(t)
        de, se = c.p.deser.get(t), c.p.seri.get(t)
        if ti is None or de is None or se is None:
            raise Missing(t + " (de)serializer")
        E = c.engine()
        st = X.St()
        if vi is None:
            x = E.mkval(ti, "x", None)
        else:
            x = Agg(ti, vi, [E.mkval(f[1], "x%d" % i, None) for i, f in enumerate(c.T[ti]["vs"][vi]["fields"])])
        pre = prefn(E, ti, x)
        if pre is None:
            raise Unsupported("flattened member that is not a map")
        for p in pre:
            E.assume(st, p)
        outs = c.run(E, se, [Ptr(E.new_cell(st, x)), Agg(se.body.locals[2], 0, (0,))], st)
        h = {"cmd": "rt", "ty": t}
        for o in c.no_panic(outs, hint=h):
            okc = E.cv(o.val, None, 0)
            c.prove("is written", o.st.pc, okc, hint=h)
            if is_f(okc):
                continue
            j = E.proj(o.val, 0, 0, None)
            s2 = X.St()
            s2.pc = list(o.st.pc)
            s2.known = dict(o.st.known)
            for q in c.no_panic(c.run(E, de, de_args(E, de, j), s2), hint=h):
                ok2 = E.cv(q.val, None, 0)
                c.prove("what is written is accepted", q.st.pc, ok2, hint=h)
                if not is_f(ok2):
                    c.prove("reads back the same value", q.st.pc + [ok2], E.eq(E.proj(q.val, 0, 0, None), x), hint=h)


# unions whose alternatives the protocol does not tell apart by a constant or a required member: which
# alternative a document belongs to is not decided by the document (the reader takes the first that fits)
AMBIGUOUS = re.compile(r"^(Requests?|Notifications?|Results?|Messages?)From(Client|Server)$|Result$|ResponseResult$|^GenericResult$")
# a batch of responses that is empty is also an empty batch of requests
AMBIGUOUS_ALTERNATIVES = {("JsonrpcMessage", "BatchResponse")}


def known_methods(c, tname):
    """the method constants of the alternatives of a union"""
    out = []
    for name, payload in variants(c, tname):
        if isinstance(payload, dict):
            w = [f["const"] for f in payload["fields"] if f["k"] == "method" and isinstance(f.get("const"), str)]
            out += w
            out += [m for f in payload["fields"] if f.get("flat") for m in [tag_of(c, f["t"])] if m]
            continue
        if payload in c.spec["untagged"]:
            out += known_methods(c, payload)
        w = tag_of(c, payload)
        if w:
            out.append(w)
    return out


def union_pre(c, n, name, payload):
    def pre(E, ti, x):
        vi = c.vidx(ti, name)
        if isinstance(payload, dict):
            return wellformed(c, E, ti, x, payload["fields"], vi)
        ft = ty_of(c, ti, vi)
        g = nonempty(c, E, n, name, ft, E.proj(x, vi, 0, ft))
        out = [] if is_t(g) else [g]
        if name.startswith("Custom") or name == "Request" or name == "Notification":
            # a custom message does not carry the method of a specified one
            fs = c.T[ft]["vs"][0]["fields"] if c.T[ft]["k"] == "adt" and c.T[ft]["kind"] == "Struct" else []
            if [f for f in fs if f[0] == "method"] and name.startswith("Custom"):
                i, mt = c.fidx(ft, "method")
                m = E.proj(E.proj(x, vi, 0, ft), 0, i, mt)
                out += [Not(E.streq(m, Str((w,)))) for w in known_methods(c, n)]
        return out
    return pre


def round_trip(c):
    for n, s in c.spec["structs"].items():
        if s["serde"]:
            round_one(c, n, lambda E, ti, x, s=s: wellformed(c, E, ti, x, s["fields"]))
    for n in c.spec["untagged"]:
        if AMBIGUOUS.search(n):
            continue
        ti = c.p.local_adts.get(n)
        if ti is None:
            continue
        for name, payload in variants(c, n):
            if (n, name) in AMBIGUOUS_ALTERNATIVES:
                continue
            try:
                vi = c.vidx(ti, name)
            except Missing:
                vi = None
            round_one(c, n, union_pre(c, n, name, payload), vi, "::" + name)
    for n in list(c.spec["strenums"]) + list(c.spec["transparent"]):
        round_one(c, n, lambda E, ti, x: [])


def request_ids(c):
    """kind and value of an id are kept by conversion, comparison, hashing, cloning, reading and writing"""
    t = "RequestId"
    ti = c.ty(t)
    si, ii = c.vidx(ti, "String"), c.vidx(ti, "Integer")
    st_, it_ = c.T[ti]["vs"][si]["fields"][0][1], c.T[ti]["vs"][ii]["fields"][0][1]

    def same(E, a, b):
        return Or(And(E.cv(a, ti, si), E.cv(b, ti, si), E.streq(E.proj(a, si, 0, st_), E.proj(b, si, 0, st_))),
                  And(E.cv(a, ti, ii), E.cv(b, ti, ii), E.eq(E.proj(a, ii, 0, it_), E.proj(b, ii, 0, it_))))
    for n in ("<RequestId as PartialEq>::eq", "<&RequestId as PartialEq<RequestId>>::eq"):
        if not c.has(n):
            raise Missing(n)

        def post(k, o):
            a, b = k.E.deref_all(o.st, k.arg(0)), k.E.deref_all(o.st, k.arg(1))
            return [("true exactly for the same kind and value", Eqb(o.val, same(k.E, a, b)))]
        contract(c, n, post)
    n = "<RequestId as Hash>::hash"

    def fed(k, o):
        E = k.E
        v = k.arg(0)
        tx = k.after(1, o)
        # the same function on an equal id feeds the hasher the same values
        E2 = k.E
        s2 = X.St()
        s2.pc = list(o.st.pc)
        w = E2.mkval(ti, "other", None)
        E2.assume(s2, same(E, v, w))
        h = E2.new_cell(s2, Str(()))
        g = []
        for q in c.no_panic(c.run(E2, k.inst, [Ptr(E2.new_cell(s2, w)), Ptr(h)], s2)):
            g.append(("equal ids hash alike", Implies(And(*q.st.pc), E.streq(tx, q.st.cells[h]))))
        return g
    contract(c, n, fed)
    n = "<RequestId as From<i64>>::from"
    if c.has(n):
        contract(c, n, lambda k, o: [("the integer id of that value", And(k.E.cv(o.val, ti, ii), k.E.eq(k.E.proj(o.val, ii, 0, it_), k.arg(0))))])
    n = "<RequestId as Default>::default"
    if c.has(n):
        contract(c, n, lambda k, o: [("the integer id 0", And(k.E.cv(o.val, ti, ii), k.E.eq(k.E.proj(o.val, ii, 0, it_), 0)))])
    contract(c, "<RequestId as Clone>::clone", lambda k, o: [("the same id", k.E.eq(k.res(o), k.arg(0), o.st))])
    untagged_de(c, t)
    untagged_ser(c, t)
    for name, payload in variants(c, t):
        round_one(c, t, union_pre(c, t, name, payload), c.vidx(ti, name), "::" + name)
