"""Contracts of the serde implementations: what JSON each wire type reads and writes.

The specification is the committed spec/<ver>.json (official JSON schema keys, required sets, constants,
enum strings); the code checked is the MIR of the derived or hand-written Deserialize/Serialize
implementations, executed symbolically on an arbitrary JSON document / an arbitrary value."""
from core import *


def de_args(E, inst, j):
    return [Agg(inst.body.locals[1], 0, (j,))]


def sym_json(name):
    return sym.CUR.doc(name)


def field_spec(c, tname):
    return c.spec["structs"][tname]["fields"]


def check_shape(c, ti, fields, var=0):
    """the members of the Rust type are exactly those of the specification, with the specified domains"""
    have = {f[0]: c.p.tstr(f[1]) for f in c.T[ti]["vs"][var]["fields"]}
    want = {f["f"] for f in fields}
    if set(have) != want:
        raise Missing("members changed: %s / %s" % (sorted(set(have) - want), sorted(want - set(have))))
    bad = [(f["f"], have[f["f"]], f["ty"]) for f in fields if "ty" in f and f["ty"] != have[f["f"]]]
    if bad:
        c.fail("member domains are the specified ones", "member, found, specified: %s" % bad)
    else:
        c.rec("member domains are the specified ones", "proved", backend="executor")


def expect_de(c, E, ti, fields, j, var=0):
    """specified meaning of reading a JSON object: (accepted?, value)"""
    lits = {f["k"] for f in fields if not f.get("flat")}
    ok = [E.jkind_is(j, K_OBJ)]
    vals = [None] * len(fields)
    for f in fields:
        i, ft = c.fidx(ti, f["f"], var)
        if f.get("flat"):
            rest = E.jrest(j, lits)
            if c.p.tstr(ft) == "Option<Map>":
                vals[i] = Agg(ft, 1, (rest,))
            elif c.p.tstr(ft) == "Map":
                vals[i] = rest
            else:
                k, v = E.de(ft, rest)
                ok.append(k)
                vals[i] = v
            continue
        key = Str((f["k"],))
        h = E.jhas(j, key)
        g = E.jget(j, key)
        k, v = E.de(ft, g)
        if "const" in f:
            cv = f["const"]
            if f["t"].startswith("Option"):
                inner = E.opt_inner(ft)
                some = E.cv(v, ft, 1)
                k = And(k, Implies(some, E.eq(E.proj(v, 1, 0, inner), Str((cv,)) if isinstance(cv, str) else cv)))
            elif isinstance(cv, str):
                k = And(k, E.eq(v, Str((cv,))))
            elif f.get("de"):
                k = And(k, E.eq(v, int(cv)))
        optional = "default" in f or (f["t"].startswith("Option") and not f.get("de"))
        if optional:
            ok.append(Implies(h, k))
            if isinstance(f.get("default"), str):
                dv = Str((f["defval"],))
            elif E.opt_inner(ft) is not None:
                dv = Agg(ft, 0, ())
            else:
                dv = None
            if dv is None:
                dv = default_of(c, E, ft)
            if f.get("double"):
                # an explicit null is kept apart from an absent member
                v = Agg(ft, 1, (E.de(E.opt_inner(ft), g)[1],))
            vals[i] = E.ite(h, v, dv) if isinstance(v, Val) or isinstance(dv, Val) else If(h, v, dv)
        else:
            ok.append(h)
            ok.append(k)
            vals[i] = v
    return And(*ok), Agg(ti, var, vals)


def default_of(c, E, ft):
    ts = c.p.tstr(ft)
    if ts.startswith("Vec<"):
        return VecV(())
    if ts.startswith("BTreeMap<"):
        return None
    if ts == "Map":
        return JO(())
    if ts == "bool":
        return False
    raise Unsupported("default of " + ts)


def expect_ser(c, E, ti, fields, x, var=0):
    ops = []
    pre = []
    for f in fields:
        i, ft = c.fidx(ti, f["f"], var)
        v = E.proj(x, var, i, ft)
        if f.get("flat"):
            inner = E.opt_inner(ft)
            if inner is not None and c.p.tstr(inner) == "Map":
                m = E.proj(v, 1, 0, inner)
                cond = E.cv(v, ft, 1)
            elif c.p.tstr(ft) == "Map":
                m, cond = v, True
            else:
                m, cond = E.ser(ft, v, None), True
                m = E.ser_expand(m) if isinstance(m, JSer) else m
            ops.append(("base", cond, m))
            for g in fields:
                if not g.get("flat"):
                    pre.append(Implies(cond, Not(E.jhas(m, Str((g["k"],))))))
            continue
        cond = True
        val = E.ser(ft, v, None)
        if f.get("skip"):
            if not f["skip"].endswith("Option::is_none"):
                cond = skip_cond(c, E, ft, v, f["skip"])
            else:
                cond = E.cv(v, ft, 1)
                inner = E.opt_inner(ft)
                val = E.ser(inner, E.proj(v, 1, 0, inner), None)
        ops.append(("put", Str((f["k"],)), cond, val))
    return JO(ops), [p for p in pre if not is_t(p)]


def skip_cond(c, E, ft, v, how):
    if how.endswith("Vec::is_empty"):
        return Not(contracts.veclen(E, v) == 0)
    if how.endswith("Map::is_empty"):
        if isinstance(v, JV):
            return contracts.jnonempty(E, v)
        raise Unsupported("skip " + how)
    raise Unsupported("skip " + how)


def compare_de(c, E, outs, ok, val, what, eq=None, hint=None):
    """every outcome: accepted iff the specification accepts, with the specified value"""
    eq = eq or (lambda a, b: E.eq(a, b))
    rets = c.no_panic(outs, hint=hint)
    n = 0
    for o in rets:
        isok = E.cv(o.val, None, 0)
        if not is_f(isok):
            got = E.proj(o.val, 0, 0, None)
            c.prove("accepts only %s" % what, o.st.pc + [isok], ok, hint=hint)
            c.prove("reads exactly the value of %s" % what, o.st.pc + [isok, ok], eq(got, val), hint=hint)
            n += 1
        if not is_t(isok):
            c.prove("accepts every %s" % what, o.st.pc + [Not(isok)], Not(ok), hint=hint)
    if not n:
        c.fail("some %s is accepted" % what, "every path rejects")


def struct_de(c, tname):
    with c.guard("%s::deserialize" % tname):
        c.work()
        ti = c.p.local_adts.get(tname)
        inst = c.p.deser.get(tname)
        if ti is None or inst is None:
            raise Missing(tname + " deserializer")
        fields = field_spec(c, tname)
        check_shape(c, ti, fields)
        E = c.engine()
        j = sym_json("doc")
        outs = c.run(E, inst, de_args(E, inst, j))
        ok, val = expect_de(c, E, ti, fields, j)
        compare_de(c, E, outs, ok, val, "well-formed document", hint={"cmd": "de", "ty": tname})


def struct_ser(c, tname):
    with c.guard("%s::serialize" % tname):
        c.work()
        ti = c.p.local_adts.get(tname)
        inst = c.p.seri.get(tname)
        if ti is None or inst is None:
            raise Missing(tname + " serializer")
        fields = field_spec(c, tname)
        E = c.engine()
        st = X.St()
        x = E.mkval(ti, "x", None)
        cell = E.new_cell(st, x)
        outs = c.run(E, inst, [Ptr(cell), Agg(inst.body.locals[2], 0, (0,))], st)
        want, pre = expect_ser(c, E, ti, fields, x)
        for o in c.no_panic(outs):
            c.prove("serialization succeeds", o.st.pc, E.cv(o.val, None, 0))
            got = E.proj(o.val, 0, 0, None)
            c.prove("writes exactly the specified members", o.st.pc + pre, E.jeq(got, want), hint={"cmd": "ser", "ty": tname})


def variants(c, tname):
    return [v[:2] for v in c.spec["untagged"][tname]]


def nonempty(c, E, tname, name, ft, v):
    """condition an alternative sets beyond those of its type: members that must not be empty lists"""
    out = []
    for x in c.spec["untagged"][tname]:
        if x[0] == name and len(x) > 2:
            for k in x[2]["nonempty"]:
                f = [f for f in field_spec(c, x[1]) if f["k"] == k][0]
                i, t = c.fidx(ft, f["f"])
                out.append(Not(contracts.veclen(E, E.proj(v, 0, i, t)) == 0))
    return And(*out)


def ty_of(c, ti, vi):
    fs = c.T[ti]["vs"][vi]["fields"]
    return fs[0][1]


def untagged_de(c, tname):
    with c.guard("%s::deserialize" % tname):
        c.work()
        ti = c.p.local_adts.get(tname)
        inst = c.p.deser.get(tname)
        if ti is None or inst is None:
            raise Missing(tname + " deserializer")
        E = c.engine()
        j = sym_json("doc")
        outs = c.run(E, inst, de_args(E, inst, j))
        okall, val = expect_untagged(c, E, ti, tname, j)
        compare_de(c, E, outs, okall, val, "document of one of the alternatives", hint={"cmd": "de", "ty": tname})


def tag_of(c, tname, tag="method"):
    """constant of the tag member of a struct type, None when it has none"""
    for f in c.spec["structs"].get(tname, {"fields": []})["fields"]:
        if f["k"] == tag and isinstance(f.get("const"), str):
            return f["const"]
    return None


def expect_dispatch(c, E, ti, tname, j):
    """the alternative is chosen by the method string alone"""
    val = BOT
    oks = []
    key = Str(("method",))
    m = E.jget(j, key)
    for name, payload in variants(c, tname):
        vi = c.vidx(ti, name)
        ft = ty_of(c, ti, vi)
        wire = tag_of(c, c.p.tstr(ft))
        if wire is None:
            raise Missing("method constant of " + c.p.tstr(ft))
        sel = And(E.jkind_is(j, K_OBJ), E.jhas(j, key), E.jkind_is(m, K_STR), E.streq(E.jstr(m), Str((wire,))))
        ok, pv = E.de(ft, j)
        oks.append(And(sel, ok))
        val = E.ite(sel, Agg(ti, vi, (pv,)), val)
    return Or(*oks), val


def expect_server_result(c, E, ti, tname, j):
    """resultType "input_required" selects that alternative; an absent (or non-string) one means "complete";
    otherwise the first alternative that accepts the document"""
    key = Str(("resultType",))
    rt = E.jget(j, key)
    isobj = E.jkind_is(j, K_OBJ)
    has = And(isobj, E.jhas(j, key), E.jkind_is(rt, K_STR))
    inp = And(has, E.streq(E.jstr(rt), Str(("input_required",))))
    filled = JO([("base", True, j), ("put", key, True, JS(Str(("complete",))))])
    doc = E.ite(Or(has, Not(isobj)), j, filled)
    val = BOT
    oks = []
    vs = [v for v in variants(c, tname) if v[0] != "InputRequiredResult"]
    for name, payload in reversed(vs):
        vi = c.vidx(ti, name)
        ft = ty_of(c, ti, vi)
        ok, pv = E.de(ft, doc)
        oks.append(ok)
        val = E.ite(ok, Agg(ti, vi, (pv,)), val)
    vi = c.vidx(ti, "InputRequiredResult")
    ok, pv = E.de(ty_of(c, ti, vi), j)
    return If(inp, ok, Or(*oks)), E.ite(inp, Agg(ti, vi, (pv,)), val)


def expect_untagged(c, E, ti, tname, j):
    if tname in c.spec["dispatch"]:
        return expect_dispatch(c, E, ti, tname, j)
    if tname == "ServerResult" and any(v[0] == "InputRequiredResult" for v in variants(c, tname)):
        return expect_server_result(c, E, ti, tname, j)
    val = BOT
    oks = []
    for name, payload in reversed(variants(c, tname)):
        vi = c.vidx(ti, name)
        if isinstance(payload, dict):
            check_shape(c, ti, payload["fields"], vi)
            ok, v = expect_de(c, E, ti, payload["fields"], j, vi)
        else:
            ft = ty_of(c, ti, vi)
            ok, pv = E.de(ft, j)
            ok = And(ok, nonempty(c, E, tname, name, ft, pv))
            v = Agg(ti, vi, (pv,))
        oks.append(ok)
        val = E.ite(ok, v, val)
    return Or(*oks), val


def untagged_ser(c, tname):
    with c.guard("%s::serialize" % tname):
        c.work()
        ti = c.p.local_adts.get(tname)
        inst = c.p.seri.get(tname)
        if ti is None or inst is None:
            raise Missing(tname + " serializer")
        for name, payload in variants(c, tname):
            vi = c.vidx(ti, name)
            E = c.engine()
            st = X.St()
            fs = c.T[ti]["vs"][vi]["fields"]
            x = Agg(ti, vi, [E.mkval(ft, "x_%s" % fn, None) for fn, ft in fs])
            outs = c.run(E, inst, [Ptr(E.new_cell(st, x)), Agg(inst.body.locals[2], 0, (0,))], st)
            pre = []
            if isinstance(payload, dict):
                want, pre = expect_ser(c, E, ti, payload["fields"], x, vi)
            else:
                want = E.ser(fs[0][1], x.fs[0], None)
            for o in c.no_panic(outs):
                c.prove("serialization succeeds", o.st.pc, E.cv(o.val, None, 0))
                c.prove("%s is written as its payload alone" % name, o.st.pc + pre, E.eq(E.proj(o.val, 0, 0, None), want), hint={"cmd": "ser", "ty": tname})


def strenum_de(c, tname):
    with c.guard("%s::deserialize" % tname):
        c.work()
        ti = c.p.local_adts[tname]
        inst = c.p.deser.get(tname)
        if inst is None:
            raise Missing(tname + " deserializer")
        E = c.engine()
        j = sym_json("doc")
        outs = c.run(E, inst, de_args(E, inst, j))
        s = E.jstr(j)
        ok = []
        val = BOT
        for v, wire in c.spec["strenums"][tname].items():
            e = And(E.jkind_is(j, K_STR), E.streq(s, Str((wire,))))
            ok.append(e)
            val = E.ite(e, Agg(ti, c.vidx(ti, v), ()), val)
        compare_de(c, E, outs, Or(*ok), val, "listed string", hint={"cmd": "de", "ty": tname})


def strenum_ser(c, tname):
    with c.guard("%s::serialize" % tname):
        c.work()
        ti = c.p.local_adts[tname]
        inst = c.p.seri.get(tname)
        if inst is None:
            raise Missing(tname + " serializer")
        for v, wire in c.spec["strenums"][tname].items():
            E = c.engine()
            st = X.St()
            x = Agg(ti, c.vidx(ti, v), ())
            outs = c.run(E, inst, [Ptr(E.new_cell(st, x)), Agg(inst.body.locals[2], 0, (0,))], st)
            for o in c.no_panic(outs):
                c.prove("%s is written as %r" % (v, wire), o.st.pc, And(E.cv(o.val, None, 0), E.eq(E.proj(o.val, 0, 0, None), JS(Str((wire,))))), hint={"cmd": "ser", "ty": tname})


def transparent(c, tname, which):
    ti = c.p.local_adts.get(tname)
    if which == "de":
      with c.guard("%s::deserialize" % tname):
        c.work()
        inst = c.p.deser.get(tname)
        if inst is None:
            raise Missing(tname + " deserializer")
        E = c.engine()
        j = sym_json("doc")
        outs = c.run(E, inst, de_args(E, inst, j))
        ft = c.T[ti]["vs"][0]["fields"][0][1]
        ok, v = E.de(ft, j)
        compare_de(c, E, outs, ok, Agg(ti, 0, (v,)), "payload document", hint={"cmd": "de", "ty": tname})
    if which == "ser":
      with c.guard("%s::serialize" % tname):
        c.work()
        inst = c.p.seri.get(tname)
        if inst is None:
            raise Missing(tname + " serializer")
        E = c.engine()
        st = X.St()
        x = E.mkval(ti, "x", None)
        outs = c.run(E, inst, [Ptr(E.new_cell(st, x)), Agg(inst.body.locals[2], 0, (0,))], st)
        ft = c.T[ti]["vs"][0]["fields"][0][1]
        for o in c.no_panic(outs):
            c.prove("writes exactly the wrapped value", o.st.pc, And(E.cv(o.val, None, 0), E.eq(E.proj(o.val, 0, 0, None), E.ser(ft, E.proj(x, 0, 0, ft), None))), hint={"cmd": "ser", "ty": tname})


# ---------------------------------------------------------------------------- all of it
def wire_reading(c, pat=""):
    for n, s in c.spec["structs"].items():
        if s["serde"] and re.search(pat, n):
            struct_de(c, n)
    for n in c.spec["untagged"]:
        if re.search(pat, n):
            untagged_de(c, n)
    for n in c.spec["strenums"]:
        if re.search(pat, n):
            strenum_de(c, n)
    for n in c.spec["transparent"]:
        if re.search(pat, n):
            transparent(c, n, "de")


def wire_writing(c, pat=""):
    for n, s in c.spec["structs"].items():
        if s["serde"] and re.search(pat, n):
            struct_ser(c, n)
    for n in c.spec["untagged"]:
        if re.search(pat, n):
            untagged_ser(c, n)
    for n in c.spec["strenums"]:
        if re.search(pat, n):
            strenum_ser(c, n)
    for n in c.spec["transparent"]:
        if re.search(pat, n):
            transparent(c, n, "ser")
