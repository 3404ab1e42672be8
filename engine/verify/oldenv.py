"""Hand-written (de)serialisers of the JSON-RPC envelopes: the strict responses of every version and the
request / notification envelopes of the versions before 2025-11-25."""
from wire import *

OLD = ("2024_11_05", "2025_03_26", "2025_06_18")


def strict(c, tname):
    """(type, payload member name, key of the payload, has id)"""
    ti = c.p.local_adts.get(tname)
    if ti is None:
        raise Missing(tname)
    return ti


def envs(c):
    out = []
    for n, s in sorted(c.spec["structs"].items()):
        if not s["serde"] and re.match(r"(Client|Server)Jsonrpc(Request|Notification|Response)$", n):
            out.append(n)
    return out


def strict_de(c, tname):
    with c.guard("%s::deserialize" % tname):
        c.work()
        ti = c.p.local_adts.get(tname)
        inst = c.p.deser.get(tname)
        if ti is None or inst is None:
            raise Missing(tname + " deserializer")
        E = c.engine()
        j = sym_json("doc")
        outs = c.run(E, inst, de_args(E, inst, j))
        names_ = [f[0] for f in c.T[ti]["vs"][0]["fields"]]
        ok = [E.jkind_is(j, K_OBJ)]
        keys = ["jsonrpc"] + (["id"] if "id" in names_ else [])
        keys += ["result"] if "result" in names_ else ["method", "params"]
        ok.append(Not(E.jother(j, set(keys))))
        vals = [None] * len(names_)
        for k in keys:
            key = Str((k,))
            h, g = E.jhas(j, key), E.jget(j, key)
            if k == "params":
                continue
            ok.append(h)
            if k == "result":
                continue
            i, ft = c.fidx(ti, k)
            a, v = E.de(ft, g)
            ok.append(a)
            vals[i] = v
        if "result" in names_:
            doc = E.jget(j, Str(("result",)))
            i, ft = c.fidx(ti, "result")
        else:
            pk = Str(("params",))
            m = E.de(c.fidx(ti, "method")[1], E.jget(j, Str(("method",))))[1]
            par = E.ite(E.jhas(j, pk), E.jget(j, pk), JNull)
            doc = JO([("put", Str(("method",)), True, JS(m)), ("put", pk, True, par)])
            i, ft = c.fidx(ti, "request" if "request" in names_ else "notification")
        a, v = E.de(ft, doc)
        ok.append(a)
        vals[i] = v
        compare_de(c, E, outs, And(*ok), Agg(ti, 0, vals), "message of exactly the envelope's members", hint={"cmd": "de", "ty": tname})


def leaves(c, E, v, ti, path=()):
    """[(condition, type index, value)] of the innermost messages of an enum-in-enum payload"""
    d = c.T[ti]
    if d["k"] == "adt" and d["kind"] == "Enum" and c.p.tstr(ti) != "Value":
        out = []
        for vi, var in enumerate(d["vs"]):
            cv = E.cv(v, ti, vi)
            if is_f(cv) or not var["fields"]:
                continue
            ft = var["fields"][0][1]
            for cond, t2, x in leaves(c, E, E.proj(v, vi, 0, ft), ft):
                out.append((And(cv, cond), t2, x))
        return out
    return [(True, ti, v)]


def strict_ser(c, tname):
    with c.guard("%s::serialize" % tname):
        c.work()
        ti = c.p.local_adts.get(tname)
        inst = c.p.seri.get(tname)
        if ti is None or inst is None:
            raise Missing(tname + " serializer")
        E = c.engine()
        st = X.St()
        x = E.mkval(ti, "x", None)
        outs = c.run(E, inst, [Ptr(E.new_cell(st, x)), Agg(inst.body.locals[2], 0, (0,))], st)
        names_ = [f[0] for f in c.T[ti]["vs"][0]["fields"]]
        head = []
        for k in (["id"] if "id" in names_ else []) + ["jsonrpc"] + (["method"] if "method" in names_ else []):
            i, ft = c.fidx(ti, k)
            head.append(("put", Str((k,)), True, E.ser(ft, E.proj(x, 0, i, ft), None)))
        wants = []
        if "result" in names_:
            i, ft = c.fidx(ti, "result")
            wants.append((True, "a response", head + [("put", Str(("result",)), True, E.ser(ft, E.proj(x, 0, i, ft), None))]))
        else:
            i, ft = c.fidx(ti, "request" if "request" in names_ else "notification")
            pay = E.proj(x, 0, i, ft)
            pk = Str(("params",))
            for cond, lt, lv in leaves(c, E, pay, ft):
                if c.p.tstr(lt) == "Value":
                    wants.append((cond, "a custom message", head + [("put", pk, And(E.jkind_is(lv, K_OBJ), E.jhas(lv, pk)), E.jget(lv, pk))], True))
                    continue
                fi, pt = c.fidx(lt, "params")
                pv = E.proj(lv, 0, fi, pt)
                inner = E.opt_inner(pt)
                if inner is None:
                    op = ("put", pk, True, E.ser(pt, pv, None))
                else:
                    op = ("put", pk, E.cv(pv, pt, 1), E.ser(inner, E.proj(pv, 1, 0, inner), None))
                wants.append((cond, c.p.tstr(lt), head + [op]))
        for o in c.no_panic(outs):
            c.prove("serialization succeeds", o.st.pc, E.cv(o.val, None, 0))
            got = E.proj(o.val, 0, 0, None)
            for w in wants:
                if len(w) > 3:
                    c.prove("writes id, version, method and parameters of a custom message, nothing else", o.st.pc + [w[0]],
                            E.jeq(got, JO(head + [("put", pk, E.jhas(got, pk), E.jget(got, pk))])), hint={"cmd": "ser", "ty": tname})
                c.prove("writes exactly the specified members of %s" % w[1], o.st.pc + [w[0]], E.jeq(got, JO(w[2])), hint={"cmd": "ser", "ty": tname})


def envelopes_wire(c):
    es = envs(c)
    for t in es:
        strict_de(c, t)
        strict_ser(c, t)
    if not es:
        raise Missing("hand-written envelopes")
