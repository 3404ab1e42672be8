"""Contracts of content blocks, tool results, resource contents, metadata, input requests/responses and batches."""
from special import *


# ---------------------------------------------------------------------------- collections
def vpush(E, v, x):
    return VecV(v.es + (x,)) if isinstance(v, VecV) else Opq("push", (v, x))


def vmap(E, v, ety, f):
    """the vector whose elements are f(element) of v's"""
    if isinstance(v, VecV):
        return VecV(tuple(f(x) for x in v.es))
    if v is BOT:
        return v
    return Opq("vmap", (v, f(E.mkval_const(ety, "elem"))))


def struct_is(c, E, st, got, tname, **kw):
    """goals: every member of got is the one given; the others are absent, or their constant / default"""
    ti = c.ty(tname)
    out = []
    for f in c.spec["structs"][tname]["fields"]:
        i, ft = c.fidx(ti, f["f"])
        g = E.proj(got, 0, i, ft)
        if f["f"] in kw:
            w = kw[f["f"]]
            if callable(w):
                out.append((f["f"], w(g, ft)))
                continue
            if w is not None and E.opt_inner(ft) is not None and not (isinstance(w, Val) and getattr(w, "ty", None) == ft):
                w = Agg(ft, 1, (w,))
        elif "const" in f:
            w = lits(f["const"]) if isinstance(f["const"], str) else int(f["const"])
            if E.opt_inner(ft) is not None:
                w = Agg(ft, 1, (w,))
        elif isinstance(f.get("default"), str):
            w = lits(f["defval"])
        else:
            w = default_val(c, E, ft)
        if w is None:
            raise Missing("member %s of %s" % (f["f"], tname))
        out.append((f["f"], E.eq(g, w, st)))
    return out


def complete(c, t):
    """results are built as complete ones where results have a type"""
    return {"result_type": lits("complete")} if "result_type" in {f["f"] for f in c.spec["structs"][t]["fields"]} else {}


def goals(pre, pairs):
    return [("%s %s" % (pre, a), b) for a, b in pairs]


def block(c):
    return "ContentBlock" if "ContentBlock" in c.p.local_adts else "CallToolResultContentItem" if "CallToolResultContentItem" in c.p.local_adts else None


def rest_args(k, used):
    """further arguments, by their names (they set the members of the same names)"""
    return {n: v for n, v in zip(k.names, k.vals) if n not in used}


def exact_opt(c, tname, kw):
    """arguments that already have the member's own (optional) type"""
    return kw


BLOCKS = {"text_content": ("TextContent", ["text"]), "image_content": ("ImageContent", ["data", "mime_type"]), "audio_content": ("AudioContent", ["data", "mime_type"]),
          "embedded_resource": ("EmbeddedResource", ["resource"]), "resource_link": ("ResourceLink", None)}


def args_for(c, k, tname):
    """constructor arguments by member name, as functions comparing like with like"""
    E = k.E
    kw = {}
    have = {f["f"] for f in c.spec["structs"][tname]["fields"]}
    for n, v, t in zip(k.names, k.vals, k.tys):
        if n not in have:
            raise Missing("argument %s" % n)

        def cmp(g, ft, v=v, t=t):
            if t == ft:
                return E.eq(g, v, k.cur.st)
            return E.eq(g, Agg(ft, 1, (v,)), k.cur.st)
        kw[n] = cmp
    return kw


def content_blocks(c):
    b = block(c)
    if not b:
        raise Missing("content block type")
    bi = c.ty(b)
    have = [vname(x) for x in c.T[bi]["vs"]]
    for f, (t, _) in BLOCKS.items():
        if t not in have:
            continue
        n = "%s::%s" % (b, f)
        vi = c.vidx(bi, t)

        def post(k, o, t=t, vi=vi):
            E = k.E
            k.cur = o
            p = E.proj(o.val, vi, 0, None)
            if len(k.tys) == 1 and c.p.tstr(k.tys[0]) == t:
                return [("holds its argument", And(E.cv(o.val, bi, vi), E.eq(p, k.arg(0), o.st)))]
            return [("is a %s" % t, E.cv(o.val, bi, vi))] + goals("member", struct_is(c, E, o.st, p, t, **args_for(c, k, t)))
        contract(c, n, post)
        n = "%s::as_%s" % (b, f)

        def post2(k, o, t=t, vi=vi):
            E = k.E
            v = k.arg(0)
            ok = E.cv(o.val, None, 0)
            sel = E.cv(v, bi, vi)
            g = [("succeeds exactly on a %s" % t, Eqb(ok, sel))]
            if not is_f(ok):
                g.append(("hands back the content", Implies(And(ok, sel), E.eq(E.proj(o.val, 0, 0, None), E.proj(v, vi, 0, c.ty(t)), o.st))))
            if not is_t(ok):
                want = contracts.mkstr([lits('Invalid conversion, "'), type_of(c, E, v, bi), lits('" is not a ' + t)])
                g.append(("otherwise an internal error naming both kinds", Implies(Not(ok), rpc_err(c, E, o.st, E.proj(o.val, 1, 0, None), -32603, want))))
            return g
        contract(c, n, post2)
    contract(c, b + "::content_type", lambda k, o: [("the content's own type", k.E.eq(k.res(o), type_of(c, k.E, k.arg(0), bi), o.st))])


def type_of(c, E, v, bi):
    r = BOT
    for vi, x in enumerate(c.T[bi]["vs"]):
        pt = x["fields"][0][1]
        r = E.ite(E.cv(v, bi, vi), fieldv(c, E, E.proj(v, vi, 0, pt), pt, "type_"), r)
    return r


def tool_results(c):
    t = "CallToolResult"
    b = block(c)
    bi = c.ty(b)
    ti = c.ty(t)
    ci, cty = c.fidx(ti, "content")
    new = c.ver in ("2026_07_28", "draft", "2025_11_25", "2025_06_18") and b == "ContentBlock"
    for f, (x, _) in BLOCKS.items():
        n = "%s::%s" % (t, f)
        if not c.has(n):
            continue

        def post(k, o, x=x):
            E = k.E
            k.cur = o
            vi = c.vidx(bi, x)
            pt = c.T[bi]["vs"][vi]["fields"][0][1]
            if len(k.tys) == 1 and c.p.tstr(k.tys[0]) == "Vec<%s>" % x:
                want = vmap(E, k.arg(0), pt, lambda e: Agg(bi, vi, (e,)))
                return goals("member", struct_is(c, E, o.st, o.val, t, **complete(c, t), content=want))
            if len(k.tys) == 1 and c.p.tstr(k.tys[0]) == x:
                want = VecV((Agg(bi, vi, (k.arg(0),)),))
                return goals("member", struct_is(c, E, o.st, o.val, t, **complete(c, t), content=want))
            g = goals("member", struct_is(c, E, o.st, o.val, t, **complete(c, t), content=lambda a, ft: True))
            got = E.proj(o.val, 0, ci, cty)
            if not isinstance(got, VecV) or len(got.es) != 1:
                raise Unsupported("content %r" % (got,))
            p = E.proj(got.es[0], vi, 0, pt)
            return g + [("one %s" % x, E.cv(got.es[0], bi, vi))] + goals("content", struct_is(c, E, o.st, p, x, **args_for(c, k, x)))
        contract(c, n, post)
    n = t + "::from_content"
    if c.has(n):
        contract(c, n, lambda k, o: goals("member", struct_is(c, k.E, o.st, o.val, t, **complete(c, t), content=k.arg(0))))
    n = t + "::add_content"
    if c.has(n):
        def post(k, o):
            E = k.E
            v = k.arg(0)
            g = []
            for i, (f, ft) in enumerate(c.T[ti]["vs"][0]["fields"]):
                w = E.proj(v, 0, i, ft)
                g.append((("appends the content" if f == "content" else "leaves %s alone" % f), E.eq(E.proj(o.val, 0, i, ft), vpush(E, w, k.arg(1)) if f == "content" else w, o.st)))
            return g
        contract(c, n, post)
    n = t + "::with_error"
    if c.has(n):
        def post(k, o):
            E = k.E
            vi = c.vidx(bi, "TextContent")
            pt = c.T[bi]["vs"][vi]["fields"][0][1]
            got = E.proj(o.val, 0, ci, cty)
            if not isinstance(got, VecV) or len(got.es) != 1:
                raise Unsupported("content %r" % (got,))
            p = E.proj(got.es[0], vi, 0, pt)
            return goals("member", struct_is(c, E, o.st, o.val, t, **complete(c, t), content=lambda a, ft: True, is_error=True)) + [("one text content", E.cv(got.es[0], bi, vi))] + \
                goals("content", struct_is(c, E, o.st, p, "TextContent", text=lambda a, ft: text_is(a, k, o)))

        def text_is(a, k, o):
            return And(*[Implies(And(*q.st.pc[len(o.st.pc):]), k.E.eq(a, txt, q.st)) for q, txt in call_display(c, k.E, k.arg(0), o.st.fork() if hasattr(o.st, "fork") else o.st)])
        contract(c, n, post)
    n = t + "::with_structured_content"
    if c.has(n):
        def post(k, o):
            E = k.E
            v = k.arg(0)
            g = []
            for i, (f, ft) in enumerate(c.T[ti]["vs"][0]["fields"]):
                got = E.proj(o.val, 0, i, ft)
                if f != "structured_content":
                    g.append(("leaves %s alone" % f, E.eq(got, E.proj(v, 0, i, ft), o.st)))
                else:
                    g.append(("sets the structured content", And(E.cv(got, ft, 1), E.jeq(contracts.jv(E, o.st, E.proj(got, 1, 0, E.opt_inner(ft))), k.arg(1), o.st))))
            return g
        contract(c, n, post)
    n = "BlobResourceContents::new"
    if c.has(n):
      contract(c, n, lambda k, o: goals("member", struct_is(c, k.E, o.st, o.val, "BlobResourceContents", blob=k.arg(0), uri=k.arg(1))))
    n = "CallToolRequestParams::new"
    if c.has(n):
        def post(k, o):
            kw = {"meta": k.arg(1)} if len(k.vals) > 1 else {}
            return goals("member", struct_is(c, k.E, o.st, o.val, "CallToolRequestParams", name=k.arg(0), **kw))
        contract(c, n, post)
    n = "CallToolRequest::tool_name"
    if c.has(n):
        contract(c, n, lambda k, o: [("the name of the tool", k.E.eq(k.res(o), fieldv(c, k.E, fieldv(c, k.E, k.arg(0), c.ty("CallToolRequest"), "params"), c.ty("CallToolRequestParams"), "name"), o.st))])
    n = "ElicitRequestParams::message"
    if c.has(n):
        def post(k, o):
            E = k.E
            pi = c.ty("ElicitRequestParams")
            w = BOT
            for vi, x in enumerate(c.T[pi]["vs"]):
                ft = x["fields"][0][1]
                w = E.ite(E.cv(k.arg(0), pi, vi), fieldv(c, E, E.proj(k.arg(0), vi, 0, ft), ft, "message"), w)
            return [("the message shown to the user", E.eq(k.res(o), w, o.st))]
        contract(c, n, post)


# ---------------------------------------------------------------------------- batches
def batches(c):
    for t in ("ClientMessages", "ServerMessages", "MessagesFromClient", "MessagesFromServer"):
        if t not in c.p.local_adts:
            raise Missing(t)
        ti = c.ty(t)
        si, bi = c.vidx(ti, "Single"), c.vidx(ti, "Batch")
        one, many = c.T[ti]["vs"][si]["fields"][0][1], c.T[ti]["vs"][bi]["fields"][0][1]
        contract(c, t + "::is_batch", lambda k, o, ti=ti, bi=bi: [("true exactly for a batch", Eqb(o.val, k.E.cv(k.arg(0), ti, bi)))])
        for f, vi, ft, other in (("as_single", si, one, "Batch"), ("as_batch", bi, many, "Single")):
            def post(k, o, vi=vi, ft=ft, ti=ti):
                E = k.E
                v = k.arg(0)
                ok = E.cv(o.val, None, 0)
                sel = E.cv(v, ti, vi)
                g = [("succeeds exactly on that kind", Eqb(ok, sel))]
                if not is_f(ok):
                    g.append(("hands back the message unchanged", Implies(And(ok, sel), E.eq(E.proj(o.val, 0, 0, ft), E.proj(v, vi, 0, ft), o.st))))
                if not is_t(ok):
                    g.append(("otherwise reports an internal error", Implies(Not(ok), rpc_err(c, E, o.st, E.proj(o.val, 1, 0, None), -32603, data="any", ty="SdkError"))))
                return g
            contract(c, "%s::%s" % (t, f), post)

        def post3(k, o, ti=ti, si=si, bi=bi, one=one, many=many):
            E = k.E
            v = k.arg(0)
            s = is_req(c, E, E.proj(v, si, 0, one), one)
            batch = E.proj(v, bi, 0, many)
            if isinstance(batch, VecV):
                a = Or(*[is_req(c, E, x, one) for x in batch.es])
            else:
                a = contracts.exists(E, batch, one, lambda x: is_req(c, E, x, one))
            return [("true exactly when a request is among the messages", Eqb(o.val, Or(And(E.cv(v, ti, si), s), And(E.cv(v, ti, bi), a))))]
        contract(c, t + "::includes_request", post3)


def is_req(c, E, v, ti):
    return sel_variant(c, E, v, ti, lambda x: kind_of_variant(x) == "Request")


def content_all(c):
    content_blocks(c)
    tool_results(c)
