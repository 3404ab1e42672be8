"""Contracts of single functions outside the families: generic results, custom messages, task results, defaults."""
from caps import *


def generic_goals(c, E, o, j, r):
    """r holds exactly the members the JSON object j carries"""
    ti = c.ty("Result")
    def got_member(key, kind):
        h = E.jhas(j, key)
        return And(h, E.jkind_is(E.jget(j, key), kind)) if not is_f(h) else False
    key = lits("_meta")
    hasm = got_member(key, K_OBJ)
    i, mt = c.fidx(ti, "meta")
    e, et = c.fidx(ti, "extra")
    it = E.opt_inner(mt)
    meta, extra = E.proj(r, 0, i, mt), E.proj(r, 0, e, et)
    typed = c.p.tstr(it) != "Map"
    mok, mval = E.de(it, E.jget(j, key)) if typed and not is_f(hasm) else (True, E.jget(j, key))
    hasm = And(hasm, mok)
    gone = {"_meta"}
    g = [("_meta is kept as the result's meta", And(Eqb(E.cv(meta, mt, 1), hasm), Implies(hasm, E.eq(E.proj(meta, 1, 0, it), mval, o.st)) if not is_f(hasm) else True))]
    if "result_type" in {f[0] for f in c.T[ti]["vs"][0]["fields"]}:
        gone.add("resultType")
        rt = lits("resultType")
        hasr = got_member(rt, K_STR)
        want = E.ite(hasr, E.jstr(E.jget(j, rt)), lits("complete")) if not is_f(hasr) else lits("complete")
        g.append(("the result type is the one written, complete otherwise", E.eq(fieldv(c, E, r, ti, "result_type"), want, o.st)))
    rest = E.jrest(j, gone)
    ne = contracts.jnonempty(E, rest)
    return g + [("there are extra members exactly when another member is written", Eqb(E.cv(extra, et, 1), ne)),
                ("the extra members are the other members as written", Implies(ne, E.jeq(E.proj(extra, 1, 0, E.opt_inner(et)), rest, o.st)) if not is_f(ne) else True)]


def to_generic_result(c):
    """a result as the generic result: same JSON, `_meta` apart, everything else in the extra members"""
    for n in names(c, r"^<Result as From<"):
        x = from_pair(n)[1]

        def post(k, o, x=x):
            E = k.E
            j = E.ser_expand(E.ser(k.tys[0], k.arg(0), o.st))
            if isinstance(j, JSer):
                raise Unsupported("JSON of " + x)
            return generic_goals(c, E, o, j, o.val)
        contract(c, n, post)


def custom_from_jsonrpc(c):
    for n in names(c, r"^<(CustomRequest|CustomNotification) as From<Jsonrpc(Request|Notification)>>::from$"):
        y, x = from_pair(n)

        def post(k, o, x=x):
            E = k.E
            ti, ri = c.ty(x), k.ret
            if c.T[ri]["k"] != "adt":
                raise Missing("return type")
            return [("keeps %s" % f, E.eq(fieldv(c, E, o.val, ri, f), fieldv(c, E, k.arg(0), ti, f), o.st)) for f in ("method", "params")]
        contract(c, n, post)


def task_results(c):
    n = "<ClientTaskResult as TryFrom<ResultFromClient>>::try_from"
    if c.has(n):
        def post(k, o):
            E = k.E
            si, ti = c.ty("ResultFromClient"), c.ty("ClientTaskResult")
            v = k.arg(0)
            ok = E.cv(o.val, None, 0)
            sel, g = False, []
            for name in ("CreateMessageResult", "ElicitResult"):
                a, b = c.vidx(si, name), c.vidx(ti, name)
                s = E.cv(v, si, a)
                sel = Or(sel, s)
                ft = c.T[si]["vs"][a]["fields"][0][1]
                if not is_f(ok):
                    r = E.proj(o.val, 0, 0, ti)
                    g.append(("keeps a %s" % name, Implies(And(s, ok), And(E.cv(r, ti, b), E.eq(E.proj(r, b, 0, ft), E.proj(v, a, 0, ft), o.st)))))
            g.append(("succeeds exactly on results a task can have", Eqb(ok, sel)))
            if not is_t(ok):
                g.append(("otherwise reports an internal error", Implies(Not(ok), rpc_err(c, E, o.st, E.proj(o.val, 1, 0, None), -32603, data="any"))))
            return g
        contract(c, n, post)
    n = "<ResultFromClient as From<ClientTaskResult>>::from"
    if c.has(n):
        def post(k, o):
            E = k.E
            si, ti = c.ty("ClientTaskResult"), c.ty("ResultFromClient")
            return [("the result is kept in its alternative", by_variant(c, E, k.arg(0), si, lambda x, fs, ps: And(
                E.cv(o.val, ti, c.vidx(ti, x)), E.eq(E.proj(o.val, c.vidx(ti, x), 0, fs[0][1]), ps[0], o.st))))]
        contract(c, n, post)
    for src in ("ResultFromClient", "ResultFromServer"):
        n = "<Result as TryFrom<%s>>::try_from" % src
        if c.ver == "2025_11_25" and c.has(n):
            def post(k, o, src=src):
                E = k.E
                si = c.ty(src)
                v = k.arg(0)
                ok = E.cv(o.val, None, 0)
                g, sel = [], False
                for name in ("Result", "GetTaskPayloadResult"):
                    a = c.vidx(si, name)
                    s = E.cv(v, si, a)
                    sel = Or(sel, s)
                    ft = c.T[si]["vs"][a]["fields"][0][1]
                    p = E.proj(v, a, 0, ft)
                    if is_f(ok) or is_f(And(s, *o.st.pc)):
                        continue
                    r = E.proj(o.val, 0, 0, c.ty("Result"))
                    if name == "Result":
                        g.append(("hands back the payload unchanged", Implies(And(s, ok), E.eq(r, p, o.st))))
                    else:
                        j = E.ser_expand(E.ser(ft, p, o.st))
                        g += [("task payload: " + nm, Implies(And(s, ok), goal)) for nm, goal in generic_goals(c, E, o, j, r)]
                g.append(("succeeds exactly on generic results and task payloads", Eqb(ok, sel)))
                if not is_t(ok):
                    g.append(("otherwise reports an internal error", Implies(Not(ok), rpc_err(c, E, o.st, E.proj(o.val, 1, 0, None), -32603, data="any"))))
                return g
            contract(c, n, post)


def text_content_from(c):
    for n in names(c, r"^<TextContent as From<"):
        def post(k, o):
            E = k.E
            ti = c.ty("TextContent")
            g = []
            for f in c.spec["structs"]["TextContent"]["fields"]:
                i, ft = c.fidx(ti, f["f"])
                got = E.proj(o.val, 0, i, ft)
                if f["f"] == "text":
                    g.append(("the text is the argument", E.eq(got, k.arg(0), o.st)))
                elif "const" in f:
                    g.append(("type is %r" % f["const"], E.eq(got, lits(f["const"]), o.st)))
                else:
                    g.append(("no %s" % f["f"], E.cv(got, ft, 0)))
            return g
        contract(c, n, post)


def short_forms(c):
    n = "<IconTheme as From<&str>>::from"
    if c.has(n):
        def post(k, o):
            E = k.E
            ti = c.ty("IconTheme")
            d = E.streq(k.arg(0), lits("dark"))
            return [("dark for \"dark\", light for everything else", And(Implies(d, E.cv(o.val, ti, c.vidx(ti, "Dark"))), Implies(Not(d), E.cv(o.val, ti, c.vidx(ti, "Light")))))]
        contract(c, n, post)
    n = "<ElicitResultContentPrimitive as From<&str>>::from"
    if c.has(n):
        def post(k, o):
            E = k.E
            ti = c.ty("ElicitResultContentPrimitive")
            v = c.vidx(ti, "String")
            return [("the string itself", And(E.cv(o.val, ti, v), E.eq(E.proj(o.val, v, 0, None), k.arg(0), o.st)))]
        contract(c, n, post)
    n = "<ElicitResultContent as From<&str>>::from"
    if c.has(n):
        def post(k, o):
            E = k.E
            ti, pi = c.ty("ElicitResultContent"), c.ty("ElicitResultContentPrimitive")
            a, v = c.vidx(ti, "Primitive"), c.vidx(pi, "String")
            p = E.proj(o.val, a, 0, pi)
            return [("the string itself", And(E.cv(o.val, ti, a), E.cv(p, pi, v), E.eq(E.proj(p, v, 0, None), k.arg(0), o.st)))]
        contract(c, n, post)
    n = "<ElicitResultContent as From<Vec<&str>>>::from"
    if c.has(n):
        def post(k, o):
            E = k.E
            ti = c.ty("ElicitResultContent")
            a = c.vidx(ti, "StringArray")
            return [("the same strings in the same order", And(E.cv(o.val, ti, a), E.eq(E.proj(o.val, a, 0, None), k.arg(0), o.st)))]
        contract(c, n, post)


def special_conversions(c):
    to_generic_result(c)
    custom_from_jsonrpc(c)
    task_results(c)
    text_content_from(c)
    short_forms(c)
