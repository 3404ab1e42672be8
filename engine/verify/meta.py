"""Contracts of request metadata, trace context, input requests/responses, task metadata, response envelopes,
lifecycle predicates."""
from content import *
import seqs


# ---------------------------------------------------------------------------- trace context
TRACE = ("traceparent", "tracestate", "baggage")


def trace_context(c):
    t = "RequestMetaObject"
    if t not in c.p.local_adts or not c.has(t + "::traceparent"):
        if c.ver in ("2026_07_28", "draft"):
            raise Missing(t)
        return
    ti = c.ty(t)
    xi, xt = c.fidx(ti, "extra")
    mt = c.T[ti]["vs"][0]["fields"]
    for f in TRACE:
        def get(k, o, f=f):
            E = k.E
            x = E.proj(k.arg(0), 0, xi, xt)
            m = E.proj(x, 1, 0, E.opt_inner(xt))
            key = lits(f)
            j = E.jget(m, key)
            has = And(E.cv(x, xt, 1), E.jhas(m, key), E.jkind_is(j, K_STR))
            some_ = E.cv(o.val, None, 1)
            return [("found exactly when the extra members hold the text", Eqb(some_, has)),
                    ("the text as received", Implies(And(some_, has), E.eq(E.proj(o.val, 1, 0, None), E.jstr(j), o.st)) if not is_f(some_) else True)]
        contract(c, "%s::%s" % (t, f), get)

        def put(k, o, f=f):
            E = k.E
            v = k.arg(0)
            g = []
            for i, (n, ft) in enumerate(mt):
                got = E.proj(o.val, 0, i, ft)
                old = E.proj(v, 0, i, ft)
                if n != "extra":
                    g.append(("leaves %s alone" % n, E.eq(got, old, o.st)))
                    continue
                had = E.cv(old, ft, 1)
                base = E.proj(old, 1, 0, E.opt_inner(ft))
                want = E.ite(had, contracts.jput(E, base, lits(f), JS(k.arg(1))), JO((("put", lits(f), True, JS(k.arg(1))),)))
                g.append(("records the text and keeps every other extra member", And(E.cv(got, ft, 1), E.jeq(E.proj(got, 1, 0, E.opt_inner(ft)), want, o.st))))
            return g
        contract(c, "%s::with_%s" % (t, f), put)


# ---------------------------------------------------------------------------- request metadata
def request_meta(c):
    t = "RequestFromClient"
    ti = c.ty(t)
    if not c.has(t + "::with_meta"):
        if c.ver in ("2026_07_28", "draft"):
            raise Missing(t + "::with_meta")
        return
    alts = []
    for vi, x in enumerate(c.T[ti]["vs"]):
        pt = x["fields"][0][1] if x["fields"] else None
        fs = dict(c.T[pt]["vs"][0]["fields"]) if pt is not None and c.T[pt]["k"] == "adt" and c.T[pt]["kind"] == "Struct" else {}
        alts.append((vi, vname(x), pt, fs))

    def with_meta(k, o):
        E = k.E
        v = k.arg(0)
        g = []
        for vi, n, pt, fs in alts:
            sel = E.cv(v, ti, vi)
            if is_f(And(sel, *o.st.pc)):
                continue
            p, q = E.proj(v, vi, 0, pt), E.proj(o.val, vi, 0, pt)
            cond = [E.cv(o.val, ti, vi)]
            if n.startswith("Custom"):
                cond.append(E.eq(p, q, o.st))
            else:
                for i, (f, ft) in enumerate(c.T[pt]["vs"][0]["fields"]):
                    cond.append(E.eq(E.proj(q, 0, i, ft), k.arg(1) if f == "meta" else E.proj(p, 0, i, ft), o.st))
            g.append(("%s: only the metadata changes" % n, Implies(sel, And(*cond))))
        return g
    contract(c, t + "::with_meta", with_meta)

    def meta(k, o):
        E = k.E
        v = k.arg(0)
        some_ = E.cv(o.val, None, 1)
        std = Or(*[E.cv(v, ti, vi) for vi, n, pt, fs in alts if "meta" in fs])
        g = [("standard requests have metadata, custom ones do not", Eqb(some_, std))]
        if not is_f(some_):
            for vi, n, pt, fs in alts:
                if "meta" in fs:
                    s = E.cv(v, ti, vi)
                    if not is_f(And(s, *o.st.pc)):
                        g.append(("the metadata of a %s" % n, Implies(And(s, some_), E.eq(E.proj(o.val, 1, 0, None), fieldv(c, E, E.proj(v, vi, 0, pt), pt, "meta"), o.st))))
        return g
    contract(c, t + "::meta", meta)

    def answered(k, o):
        E = k.E
        v = k.arg(0)
        ok = E.cv(o.val, None, 0)
        takes = [(vi, n, pt, fs) for vi, n, pt, fs in alts if n in ("CallToolRequest", "GetPromptRequest", "ReadResourceRequest")]
        sel = Or(*[E.cv(v, ti, vi) for vi, n, pt, fs in takes])
        g = [("accepted exactly by the requests that can be answered", Eqb(ok, sel))]
        if not is_f(ok):
            r = E.proj(o.val, 0, 0, ti)
            for vi, n, pt, fs in takes:
                s = E.cv(v, ti, vi)
                if is_f(And(s, *o.st.pc)):
                    continue
                p, q = E.proj(v, vi, 0, pt), E.proj(r, vi, 0, pt)
                cond = [E.cv(r, ti, vi)]
                for i, (f, ft) in enumerate(c.T[pt]["vs"][0]["fields"]):
                    w = Agg(ft, 1, (k.arg(1),)) if f == "input_responses" else k.arg(2) if f == "request_state" else E.proj(p, 0, i, ft)
                    cond.append(E.eq(E.proj(q, 0, i, ft), w, o.st))
                g.append(("%s: carries the answers and the state, everything else unchanged" % n, Implies(And(s, ok), And(*cond))))
        if not is_t(ok):
            want = contracts.mkstr([lits("`"), payload_method(c, E, v, ti), lits("` does not accept inputResponses")])
            g.append(("otherwise invalid params, naming the method", Implies(Not(ok), rpc_err(c, E, o.st, E.proj(o.val, 1, 0, None), -32602, want))))
        return g
    contract(c, t + "::with_input_responses", answered)


# ---------------------------------------------------------------------------- input requests and responses
def inner0(c, E, v, ti):
    return E.proj(v, 0, 0, c.T[ti]["vs"][0]["fields"][0][1])


def input_requests(c):
    if "InputRequests" not in c.p.local_adts:
        if c.ver in ("2026_07_28", "draft"):
            raise Missing("InputRequests")
        return
    ti, ri, qi = c.ty("InputRequests"), c.ty("InputResponses"), c.ty("InputRequest")
    for f, t in (("as_create_message", "CreateMessageRequest"), ("as_list_roots", "ListRootsRequest"), ("as_elicit", "ElicitRequest")):
        def post(k, o, t=t):
            E = k.E
            path = best_path(c, qi, t)
            sel, p = path_cond(c, E, k.arg(0), path)
            some_ = E.cv(o.val, None, 1)
            return [("found exactly in that alternative", Eqb(some_, sel)),
                    ("the request itself", Implies(And(some_, sel), E.eq(E.proj(o.val, 1, 0, None), p, o.st)) if not is_f(some_) else True)]
        contract(c, "InputRequest::" + f, post)
    contract(c, "InputRequest::method", lambda k, o: [("the method of the request", k.E.eq(k.res(o), member(c, k.E, k.arg(0), qi, "method"), o.st))])
    for t, i in (("InputRequests", ti), ("InputResponses", ri)):
        contract(c, t + "::len", lambda k, o, i=i: [("the number of entries", k.E.eq(o.val, contracts.maplen(k.E, inner0(c, k.E, k.arg(0), i), o.st)))])
        contract(c, t + "::is_empty", lambda k, o, i=i: [("true exactly without entries", Eqb(o.val, contracts.maplen(k.E, inner0(c, k.E, k.arg(0), i), o.st) == 0))])

    def get(k, o):
        E = k.E
        cond, v = contracts.btget(E, o.st, inner0(c, E, k.arg(0), ti), k.arg(1), qi)
        some_ = E.cv(o.val, None, 1)
        return [("found exactly when there is an entry of that name", Eqb(some_, cond)),
                ("the entry itself", Implies(And(some_, cond), E.eq(E.proj(o.val, 1, 0, None), v, o.st)) if not is_f(some_) else True)]
    contract(c, "InputRequests::get", get)
    for f in ("iter", "keys"):
        def listed(k, o, f=f):
            """what the iterator yields is what an iterator over the entries yields, one by one"""
            E = k.E
            want = seqs.map_segs(E, inner0(c, E, k.arg(0), ti), seqs.MAPS["btree_" + f])
            got = [seqs.One(True, x) for x in o.val.es] if isinstance(o.val, VecV) else seqs.segs(E, o.st, o.val)
            if any(not is_t(x.cond) for x in got if isinstance(x, seqs.One)) or any(not is_t(x.guard) for x in got if isinstance(x, seqs.Gen_)):
                raise Unsupported("a selection of entries")
            if len(got) != len(want) or [type(x) for x in got] != [type(x) for x in want]:
                return [("all entries in order", False)]
            out = []
            for a, b in zip(got, want):
                if isinstance(a, seqs.One):
                    cond, x, y = True, a.val, b.val
                else:
                    if a.ety != b.ety or not E.same(a.v, b.v):
                        raise Unsupported("entries of another map")
                    (cond, x), (_, y) = a.mk(o.st, seqs.gen_elem(E, a)), b.mk(o.st, seqs.gen_elem(E, b))
                p, q = (x.fs, y.fs) if f == "iter" else ((x,), (y,))
                out.append(And(cond, *[E.eq(E.deref_all(o.st, u), E.deref_all(o.st, v), o.st) for u, v in zip(p, q)]))
            return [("all entries in order", And(*out))]
        contract(c, "InputRequests::" + f, listed)
    contract(c, "InputResponses::new", lambda k, o: [("no entries", contracts.maplen(k.E, inner0(c, k.E, o.val, ri), o.st) == 0)])

    def ins(k, o):
        E = k.E
        return [("adds the entry and keeps the others", E.eq(inner0(c, E, o.val, ri), Opq("mapput", (inner0(c, E, k.arg(0), ri), k.arg(1), k.arg(2))), o.st))]
    contract(c, "InputResponses::insert", ins)


# ---------------------------------------------------------------------------- result kinds
def result_kinds(c):
    if "ServerResult" not in c.p.local_adts or not c.has("ServerResult::is_complete"):
        if c.ver in ("2026_07_28", "draft"):
            raise Missing("ServerResult::is_complete")
        return
    ti = c.ty("ServerResult")
    path = best_path(c, ti, "InputRequiredResult")
    contract(c, "ServerResult::is_input_required", lambda k, o: [("true exactly for a result that asks for input", Eqb(o.val, path_cond(c, k.E, k.arg(0), path)[0]))])
    contract(c, "ServerResult::is_complete", lambda k, o: [("true exactly for a result that does not ask for input", Eqb(o.val, Not(path_cond(c, k.E, k.arg(0), path)[0])))])

    def post(k, o):
        E = k.E
        sel, p = path_cond(c, E, k.arg(0), path)
        some_ = E.cv(o.val, None, 1)
        return [("found exactly in a result that asks for input", Eqb(some_, sel)),
                ("the request for input itself", Implies(And(some_, sel), E.eq(E.proj(o.val, 1, 0, None), p, o.st)) if not is_f(some_) else True)]
    contract(c, "ServerResult::as_input_required", post)


# ---------------------------------------------------------------------------- response envelopes
def response_new(c):
    for t in ("ClientJsonrpcResponse", "ServerJsonrpcResponse"):
        ti = c.ty(t)

        def post(k, o, ti=ti):
            E = k.E
            return [("keeps the id", E.eq(fieldv(c, E, o.val, ti, "id"), k.arg(0), o.st)),
                    ("keeps the result", E.eq(fieldv(c, E, o.val, ti, "result"), k.arg(1), o.st)),
                    ("protocol version", E.eq(fieldv(c, E, o.val, ti, "jsonrpc"), lits("2.0"), o.st))]
        contract(c, t + "::new", post)


# ---------------------------------------------------------------------------- lifecycle predicates
def lifecycle(c):
    for f, want in (("is_initialize_request", "InitializeRequest"), ("is_initialized_notification", "InitializedNotification")):
        for n in names(c, r"::%s$" % f):
            def post(k, o, want=want):
                E = k.E
                ti = c.T[k.tys[0]]["e"]
                if want not in c.spec["structs"]:
                    return [("never: this version has no such message", Eqb(o.val, False))]
                r = sel_leaf(c, E, k.arg(0), ti, want)
                if r is None:
                    raise Missing("alternative " + want)
                return [("true exactly for that message", Eqb(o.val, r))]
            contract(c, n, post)


# ---------------------------------------------------------------------------- task metadata
RELATED = "io.modelcontextprotocol/related-task"


def related(E, m):
    """(found, text) of the related task in a metadata object: {"taskId": text}, or the text itself"""
    key, tid = lits(RELATED), lits("taskId")
    j = E.jget(m, key)
    obj = And(E.jkind_is(j, K_OBJ), E.jhas(j, tid))
    inner_ = E.jget(j, tid)
    v = E.ite(obj, inner_, j)
    found = And(E.jhas(m, key), Or(And(obj, E.jkind_is(inner_, K_STR)), And(Not(obj), E.jkind_is(j, K_STR))))
    return found, E.ite(obj, E.jstr(inner_), E.jstr(j))


def task_json(E, tid):
    return JO((("put", lits("taskId"), True, JS(tid)),))


def task_meta(c):
    M = "<Map<String, Value> as McpMetaEx>::"
    if not c.has(M + "add"):
        if c.ver == "2025_11_25":
            raise Missing(M + "add")
        return

    def put(E, m, key, j):
        return contracts.jput(E, m, key, j)
    for f in ("add", "add_raw"):
        contract(c, M + f, lambda k, o: [("adds the member and keeps the others", k.E.jeq(o.val, put(k.E, k.arg(0), k.arg(1), contracts.jv(k.E, o.st, k.arg(2))), o.st))])

    def addif(k, o):
        E = k.E
        w = put(E, k.arg(0), k.arg(2), contracts.jv(E, o.st, k.arg(3)))
        return [("adds the member when the condition holds", Implies(k.arg(1), E.jeq(o.val, w, o.st))),
                ("leaves the metadata alone otherwise", Implies(Not(k.arg(1)), E.jeq(o.val, k.arg(0), o.st)))]
    contract(c, M + "add_if", addif)

    def get(k, o):
        E = k.E
        found, txt = related(E, k.arg(0))
        some_ = E.cv(o.val, None, 1)
        return [("found exactly when the metadata names a task", Eqb(some_, found)),
                ("the id of the task", Implies(And(some_, found), E.eq(E.proj(o.val, 1, 0, None), txt, o.st)) if not is_f(some_) else True)]
    contract(c, M + "related_task_id", get)
    contract(c, M + "set_related_task_id", lambda k, o: [("names the task and keeps the other members", k.E.jeq(k.after(0, o), put(k.E, k.arg(0), lits(RELATED), task_json(k.E, k.arg(1))), o.st))])
    contract(c, M + "with_related_task_id", lambda k, o: [("names the task and keeps the other members", k.E.jeq(o.val, put(k.E, k.arg(0), lits(RELATED), task_json(k.E, k.arg(1))), o.st))])
    t = "GetTaskPayloadResult"
    ti = c.ty(t)
    mi, mt = c.fidx(ti, "meta")

    def get2(k, o):
        E = k.E
        x = E.proj(k.arg(0), 0, mi, mt)
        found, txt = related(E, E.proj(x, 1, 0, E.opt_inner(mt)))
        found = And(E.cv(x, mt, 1), found)
        some_ = E.cv(o.val, None, 1)
        return [("found exactly when the metadata names a task", Eqb(some_, found)),
                ("the id of the task", Implies(And(some_, found), E.eq(E.proj(o.val, 1, 0, None), txt, o.st)) if not is_f(some_) else True)]
    contract(c, t + "::related_task_id", get2)

    def set2(k, o):
        E = k.E
        v, w = k.arg(0), k.after(0, o)
        g = []
        for i, (n, ft) in enumerate(c.T[ti]["vs"][0]["fields"]):
            old, got = E.proj(v, 0, i, ft), E.proj(w, 0, i, ft)
            if n != "meta":
                g.append(("leaves %s alone" % n, E.eq(got, old, o.st)))
                continue
            had = E.cv(old, ft, 1)
            tj = task_json(E, k.arg(1))
            want = E.ite(had, put(E, E.proj(old, 1, 0, E.opt_inner(ft)), lits(RELATED), tj), JO((("put", lits(RELATED), True, tj),)))
            g.append(("names the task and keeps the other members", And(E.cv(got, ft, 1), E.jeq(E.proj(got, 1, 0, E.opt_inner(ft)), want, o.st))))
        return g
    contract(c, t + "::set_related_task_id", set2)
    t3 = "ElicitRequestParams"

    def wt(k, o):
        E = k.E
        pi = c.ty(t3)
        g = []
        for vi, x in enumerate(c.T[pi]["vs"]):
            pt = x["fields"][0][1]
            s = E.cv(k.arg(0), pi, vi)
            if is_f(And(s, *o.st.pc)):
                continue
            p, q = E.proj(k.arg(0), vi, 0, pt), E.proj(o.val, vi, 0, pt)
            cond = [E.cv(o.val, pi, vi)]
            for i, (f, ft) in enumerate(c.T[pt]["vs"][0]["fields"]):
                cond.append(E.eq(E.proj(q, 0, i, ft), Agg(ft, 1, (k.arg(1),)) if f == "task" else E.proj(p, 0, i, ft), o.st))
            g.append(("%s: carries the task, everything else unchanged" % vname(x), Implies(s, And(*cond))))
        return g
    contract(c, t3 + "::with_task", wt)


def meta_all(c):
    trace_context(c)
    request_meta(c)
    input_requests(c)
    result_kinds(c)
    response_new(c)
    lifecycle(c)
    task_meta(c)
