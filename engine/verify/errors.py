"""Contracts of the error values: codes, texts, constructors, conversions, tool errors."""
from text import *

SDK = [("CONNECTION_CLOSED", -32000, "Connection closed"), ("REQUEST_TIMEOUT", -32001, "Request timeout"),
       ("RESOURCE_NOT_FOUND", -32002, "Resource not found"), ("BAD_REQUEST", -32015, "Bad request"),
       ("SESSION_NOT_FOUND", -32016, "Session not found"), ("INVALID_REQUEST", -32600, "Invalid request"),
       ("METHOD_NOT_FOUND", -32601, "Method not found"), ("INVALID_PARAMS", -32602, "Invalid params"),
       ("INTERNAL_ERROR", -32603, "Internal error"), ("PARSE_ERROR", -32700, "Parse Error"),
       ("MISSING_REQUIRED_CLIENT_CAPABILITY", -32021, "Missing required client capability"),
       ("UNSUPPORTED_PROTOCOL_VERSION", -32022, "Unsupported protocol version"),
       ("URL_ELICITATION_REQUIRED", -32042, "A required URL was not provided. Please supply the requested URL to continue.")]
RPC = [("PARSE_ERROR", -32700, "Parse error"), ("INVALID_REQUEST", -32600, "Invalid request"),
       ("METHOD_NOT_FOUND", -32601, "Method not found"), ("INVALID_PARAMS", -32602, "Invalid params"),
       ("INTERNAL_ERROR", -32603, "Internal error"), ("HEADER_MISMATCH", -32020, None),
       ("MISSING_REQUIRED_CLIENT_CAPABILITY", -32021, None), ("UNSUPPORTED_PROTOCOL_VERSION", -32022, None),
       ("URL_ELICITATION_REQUIRED", -32042, None)]
NEWER = {"2026_07_28", "draft"}


def code_table(c, t):
    tab = SDK if t == "SdkErrorCodes" else RPC
    out = []
    for n, code, msg in tab:
        if n in ("MISSING_REQUIRED_CLIENT_CAPABILITY", "UNSUPPORTED_PROTOCOL_VERSION", "HEADER_MISMATCH") and c.ver not in NEWER:
            continue
        if n == "URL_ELICITATION_REQUIRED" and c.ver != "2025_11_25":
            continue
        out.append((n, code, msg))
    return out


def code_of(c, E, v, ti, t):
    """the protocol's number of an error code"""
    tab = {n: code for n, code, _ in code_table(c, t)}
    out = None
    for vi, x in enumerate(c.T[ti]["vs"]):
        if vname(x) not in tab:
            raise Missing("error code " + vname(x))
        w = z3.IntVal(tab[vname(x)])
        out = w if out is None else z3.If(zb(E.cv(v, ti, vi)), w, out)
    return out


def codes(c):
    for t in ("SdkErrorCodes", "RpcErrorCodes"):
        ti = c.ty(t)

        def post(k, o, t=t, ti=ti):
            return [("is the number the protocol assigns", zi(o.val) == code_of(c, k.E, k.arg(0), ti, t))]
        contract(c, "<i64 as From<%s>>::from" % t, post)
    ti = c.ty("SdkErrorCodes")
    tab = {n: m for n, _, m in code_table(c, "SdkErrorCodes")}

    def goal(k, o, txt):
        return [("writes the standard text", k.E.streq(txt, by_variant(c, k.E, k.arg(0), ti, lambda x, fs, ps: lits(tab[x]))))]
    written(c, "<SdkErrorCodes as Display>::fmt", goal)


def err_is(c, k, o, ty, code, msg, data=None):
    return [("code, text and data are the standard ones", rpc_err(c, k.E, o.st, o.val, code, msg, data, ty))]


def jobj(*kv):
    return JO([("put", Str((k,)), True, v) for k, v in kv])


def error_ctors(c):
    sdk = {n: (code, m) for n, code, m in code_table(c, "SdkErrorCodes")}
    rpc = {n: (code, m) for n, code, m in code_table(c, "RpcErrorCodes")}
    for ty, fns, tab in (("SdkError", ["connection_closed", "session_not_found", "invalid_request", "method_not_found", "invalid_params", "internal_error", "parse_error", "resource_not_found", "bad_request"], sdk),
                         ("RpcError", ["method_not_found", "invalid_params", "invalid_request", "internal_error", "parse_error"], rpc)):
        for f in fns:
            n = "%s::%s" % (ty, f)
            code, msg = tab[f.upper()]
            contract(c, n, lambda k, o, ty=ty, code=code, msg=msg: err_is(c, k, o, ty, code, msg))

        def new(k, o, ty=ty):
            E = k.E
            ti = c.ty(ty)
            codes_ = ty + "Codes"
            return [("code of the given kind", zi(fieldv(c, E, o.val, ti, "code")) == code_of(c, E, k.vals[0], k.tys[0], codes_)),
                    ("keeps the text", E.eq(fieldv(c, E, o.val, ti, "message"), k.vals[1], o.st)),
                    ("keeps the data", E.eq(fieldv(c, E, o.val, ti, "data"), k.vals[2], o.st))]
        contract(c, ty + "::new", new)
        for b, fld in (("with_message", "message"), ("with_data", "data")):
            def bl(k, o, ty=ty, fld=fld):
                E = k.E
                ti = c.ty(ty)
                return [("member %s" % g, E.eq(fieldv(c, E, o.val, ti, g), k.vals[1] if g == fld else fieldv(c, E, k.vals[0], ti, g), o.st)) for g in ("code", "data", "message")]
            contract(c, "%s::%s" % (ty, b), bl)
        contract(c, "<%s as Error>::description" % ty, lambda k, o, ty=ty: [("is the text", k.E.eq(k.res(o), fieldv(c, k.E, k.arg(0), c.ty(ty), "message"), o.st))])

    def to(k, o):
        E = k.E
        t = zi(k.arg(0))
        shown = z3.If(t > 2 ** 64 - 1, z3.IntVal(2 ** 64 - 1), t)
        return err_is(c, k, o, "SdkError", -32001, "Request timeout", opt_data(c, "SdkError", jobj(("timeout", JI(shown)))))
    contract(c, "SdkError::request_timeout", to)
    if c.has("RpcError::url_elicit_required") or c.ver == "2025_11_25":
        for ty in ("RpcError", "SdkError"):
            def ue(k, o, ty=ty):
                E = k.E
                lst = E.ser(k.tys[0], k.arg(0), o.st)
                return err_is(c, k, o, ty, -32042, None, opt_data(c, ty, jobj(("elicitations", lst))))
            contract(c, ty + "::url_elicit_required", ue)
    written(c, "<SdkError as Display>::fmt", lambda k, o, txt: [("names the code and the text", k.E.streq(txt, contracts.mkstr([
        lits("MCP error "), Str((contracts.ufn("itoa", I, S)(zi(fieldv(c, k.E, k.arg(0), c.ty("SdkError"), "code"))),)), lits(": "), fieldv(c, k.E, k.arg(0), c.ty("SdkError"), "message")])))])


def opt_data(c, ty, j):
    i, ft = c.fidx(c.ty(ty), "data")
    return Agg(ft, 1, (j,))


def error_conversions(c):
    for t in ("JsonrpcErrorResponse", "JsonrpcError"):
        n = t + "::create"
        if t not in c.p.local_adts:
            continue

        def cr(k, o, t=t):
            E = k.E
            ti = c.ty(t)
            ei = c.ty("RpcError")
            err = fieldv(c, E, o.val, ti, "error")
            return [("keeps the id", E.eq(fieldv(c, E, o.val, ti, "id"), k.vals[0], o.st)),
                    ("protocol version", E.eq(fieldv(c, E, o.val, ti, "jsonrpc"), lits("2.0"), o.st)),
                    ("code of the given kind", zi(fieldv(c, E, err, ei, "code")) == code_of(c, E, k.vals[1], k.tys[1], "RpcErrorCodes")),
                    ("keeps the text", E.eq(fieldv(c, E, err, ei, "message"), k.vals[2], o.st)),
                    ("keeps the data", E.eq(fieldv(c, E, err, ei, "data"), k.vals[3], o.st))]
        contract(c, n, cr)
    for n in names(c, r"^<(Rpc|Sdk)Error as From<\w+Error>>::from$"):
        y, x = from_pair(n)
        if x == "CallToolError" or x not in c.spec["structs"]:
            continue

        def fr(k, o, y=y, x=x):
            E = k.E
            src = c.ty(x)
            i, et = c.fidx(src, "error")
            inner = fieldv(c, E, k.arg(0), src, "error")
            di, dt = c.fidx(et, "data")
            ti = c.ty(y)
            data = Agg(c.fidx(ti, "data")[1], 1, (E.ser(dt, fieldv(c, E, inner, et, "data"), o.st),))
            return [("keeps the code", E.eq(fieldv(c, E, o.val, ti, "code"), fieldv(c, E, inner, et, "code"), o.st)),
                    ("keeps the text", E.eq(fieldv(c, E, o.val, ti, "message"), fieldv(c, E, inner, et, "message"), o.st)),
                    ("keeps the data", E.eq(fieldv(c, E, o.val, ti, "data"), data, o.st))]
        contract(c, n, fr)


# ---------------------------------------------------------------------------- tool errors
def tool_text(c, k, v, st):
    """the text a tool error displays"""
    outs = []
    E = k.E
    inner = E.proj(v, 0, 0, c.T[c.ty("CallToolError")]["vs"][0]["fields"][0][1])
    return inner


def call_display(c, E, v, st):
    """text written by CallToolError's Display implementation for v: its contract is checked separately"""
    inst = c.fn("<CallToolError as Display>::fmt")
    cell = E.new_cell(st, v)
    f = E.new_cell(st, Str(()))
    outs = c.run(E, inst, [Ptr(cell), Ptr(f)], st)
    return [(o, o.st.cells[f]) for o in outs if o.kind == "ret"]


def shows(c, k, o, want):
    """goals: the tool error `o.val` displays as `want`"""
    goals = []
    for q, txt in call_display(c, k.E, o.val, o.st.fork() if hasattr(o.st, "fork") else o.st):
        extra = q.st.pc[len(o.st.pc):] if len(q.st.pc) > len(o.st.pc) else []
        goals.append(("displays as specified", Implies(And(*extra), k.E.streq(txt, want)) if extra else k.E.streq(txt, want)))
    if not goals and k.E.__class__ is X.Engine:
        raise Missing("display of a tool error")
    return goals


def tool_errors(c):
    contract(c, "CallToolError::from_message", lambda k, o: shows(c, k, o, k.arg(0)))
    contract(c, "CallToolError::unknown_tool", lambda k, o: shows(c, k, o, contracts.mkstr([lits("Unknown tool: "), k.arg(0)])))
    if c.has("CallToolError::unsupported_task_augmented_tool_call"):
        contract(c, "CallToolError::unsupported_task_augmented_tool_call", lambda k, o: shows(c, k, o, lits("Task-augmented tool calls are not supported.")))

    def inv(k, o):
        E = k.E
        nm = contracts.trimmed(k.arg(0))
        empty = E.streq(nm, lits(""))
        msg = E.ite(E.cv(k.arg(1), None, 1), E.proj(k.arg(1), 1, 0, None), lits("no additional details provided"))
        full = contracts.mkstr([lits("Invalid arguments for tool '"), nm, lits("': "), msg])
        return shows(c, k, o, E.ite(empty, lits("Invalid arguments: tool name cannot be empty"), full))
    contract(c, "CallToolError::invalid_arguments", inv)
    written(c, "<UnknownTool as Display>::fmt", lambda k, o, txt: [("names the tool", k.E.streq(txt, contracts.mkstr([lits("Unknown tool: "), k.E.proj(k.arg(0), 0, 0, c.T[c.ty("UnknownTool")]["vs"][0]["fields"][0][1])])))])
    if c.has("<StringSchemaFormatError as Display>::fmt"):
        ft = c.T[c.ty("StringSchemaFormatError")]["vs"][0]["fields"][0][1]
        written(c, "<StringSchemaFormatError as Display>::fmt", lambda k, o, txt: [("names the string", k.E.streq(txt, contracts.mkstr([
            lits("Invalid string schema format: '"), k.E.proj(k.arg(0), 0, 0, ft), lits("'")])))])

    def res(k, o):
        E = k.E
        ti = c.ty("CallToolResult")
        txts = call_display(c, E, k.arg(0), X.St())
        goals = []
        for f in c.spec["structs"]["CallToolResult"]["fields"]:
            i, ft = c.fidx(ti, f["f"])
            got = E.proj(o.val, 0, i, ft)
            if f["f"] == "is_error":
                goals.append(("is marked as an error", And(E.cv(got, None, 1), E.proj(got, 1, 0, None))))
            elif f["f"] == "content":
                n = contracts.veclen(E, got)
                goals.append(("has one content item", n == 1 if not isinstance(n, int) else n == 1))
                e = got.es[0]
                tc = E.proj(unwrap_to(c, E, e, c.T[ft]["args"][0] if "args" in c.T[ft] else None, "TextContent")[1], 0, c.fidx(c.ty("TextContent"), "text")[0], c.fidx(c.ty("TextContent"), "text")[1])
                goals.append(("the item is the text of the error", And(unwrap_to(c, E, e, c.T[ft]["args"][0], "TextContent")[0], Or(*[E.streq(tc, t) for _, t in txts]))))
            elif f["f"] == "result_type":
                goals.append(("is a complete result", result_type_is(c, E, ft, got, "complete")))
            elif E.opt_inner(ft) is not None:
                goals.append(("member %s is absent" % f["f"], E.cv(got, None, 0)))
            else:
                raise Missing("member " + f["f"])
        return goals
    contract(c, "<CallToolResult as From<CallToolError>>::from", res)

    def rpc(k, o):
        E = k.E
        txts = call_display(c, E, k.arg(0), X.St())
        return [("an internal error with the text of the tool error", Or(*[rpc_err(c, E, o.st, o.val, -32603, t, None) for _, t in txts]))]
    contract(c, "<RpcError as From<CallToolError>>::from", rpc)


def result_type_is(c, E, ft, v, want):
    if E.is_string(ft):
        return E.streq(v, lits(want))
    inner = E.opt_inner(ft)
    if inner is not None:
        return And(E.cv(v, ft, 1), result_type_is(c, E, inner, E.proj(v, 1, 0, inner), want))
    t = c.T[ft]["vs"][0]["fields"][0][1]
    return E.streq(E.proj(v, 0, 0, t), lits(want))


def unwrap_to(c, E, v, ti, want):
    p = best_path(c, ti, want)
    if p is None:
        raise Missing("path to " + want)
    cond, x = path_cond(c, E, v, p)
    return cond, x


def errors_all(c):
    codes(c)
    error_ctors(c)
    error_conversions(c)
    tool_errors(c)
