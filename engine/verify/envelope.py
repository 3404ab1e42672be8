"""Contracts of the message envelopes: classification, accessors, construction and conversion."""
from families import *

KINDS = ["Request", "Response", "Notification", "Error"]


def kind_of_variant(vname):
    for k in KINDS:
        if k in vname or (k == "Response" and "Result" in vname):
            return k
    raise Missing("message kind of variant " + vname)


def vname(v):
    return v["name"].split("::")[-1]


def member(c, E, v, ti, name):
    """the member `name` of whatever alternative v holds: ITE over the leaf alternatives"""
    d = c.T[ti]
    if d.get("box"):
        return member(c, E, E.unbox(v), d["args"][0], name)
    if d["k"] != "adt" or d["krate"] != "rust_mcp_schema":
        raise Missing("member %s below %s" % (name, c.p.tstr(ti)))
    out = BOT
    for vi, x in enumerate(d["vs"]):
        fs = x["fields"]
        here = [(i, ft) for i, (n, ft) in enumerate(fs) if n == name]
        if here:
            w = E.proj(v, vi, here[0][0], here[0][1])
        else:
            w = None
            for i, (n, ft) in enumerate(fs):
                if n.isdigit() or len(d["vs"]) > 1:
                    try:
                        w = member(c, E, E.proj(v, vi, i, ft), ft, name)
                        break
                    except Missing:
                        continue
            if w is None:
                raise Missing("member %s of %s" % (name, c.p.tstr(ti)))
        if len(d["vs"]) == 1:
            return w
        out = E.ite(E.cv(v, ti, vi), w, out)
    return out


def by_variant(c, E, v, ti, f):
    """ITE over the alternatives of v: f(variant name, fields, payload)"""
    out = BOT
    for vi, x in enumerate(c.T[ti]["vs"]):
        ps = [E.proj(v, vi, i, ft) for i, (n, ft) in enumerate(x["fields"])]
        w = f(vname(x), x["fields"], ps)
        out = E.ite(E.cv(v, ti, vi), w, out) if isinstance(w, Val) or isinstance(out, Val) else If(E.cv(v, ti, vi), w, out)
    return out


def sel_variant(c, E, v, ti, pred):
    return Or(*[E.cv(v, ti, vi) for vi, x in enumerate(c.T[ti]["vs"]) if pred(vname(x))])


# ---------------------------------------------------------------------------- classification
def classification(c):
    for t in ("ClientMessage", "ServerMessage", "MessageFromClient", "MessageFromServer"):
        ti = c.p.local_adts.get(t)
        for k in KINDS:
            n = "<%s as McpMessage>::is_%s" % (t, k.lower())
            contract(c, n, lambda kk, o, k=k, ti=ti: [
                ("true exactly for a %s" % k.lower(), Eqb(o.val, sel_variant(c, kk.E, kk.arg(0), ti, lambda x: kind_of_variant(x) == k)))])
        n = "<%s as McpMessage>::message_type" % t

        def post(kk, o, ti=ti):
            mt = c.ty("MessageTypes")
            w = by_variant(c, kk.E, kk.arg(0), ti, lambda x, fs, ps: Agg(mt, c.vidx(mt, kind_of_variant(x)), ()))
            return [("names the kind of the message", kk.E.eq(o.val, w, o.st))]
        contract(c, n, post)


def opt_of(ft, v):
    return Agg(ft, 1, (v,))


def rpc_accessors(c):
    for t in ("ClientMessage", "ServerMessage"):
        ti = c.p.local_adts.get(t)

        def rid(k, o, ti=ti):
            E = k.E
            got = k.res(o) if not isinstance(o.val, Agg) else o.val

            def f(x, fs, ps):
                kd = kind_of_variant(x)
                if kd == "Notification":
                    return (False, BOT)
                m = member(c, E, ps[0], fs[0][1], "id")
                return m
            goals = []
            for vi, x in enumerate(c.T[ti]["vs"]):
                sel = E.cv(k.arg(0), ti, vi)
                kd = kind_of_variant(vname(x))
                fs = x["fields"]
                if kd == "Notification":
                    goals.append(("a notification has no id", Implies(sel, E.cv(got, None, 0))))
                    continue
                p = E.proj(k.arg(0), vi, 0, fs[0][1])
                m = member(c, E, p, fs[0][1], "id")
                inner = id_opt(c, fs[0][1])
                if inner:
                    isn = E.cv(m, None, 0)
                    goals.append(("the id of %s" % kd.lower(), Implies(sel, And(Eqb(E.cv(got, None, 0), isn), Implies(Not(isn), E.eq(E.deref_all(o.st, E.proj(got, 1, 0, None)), E.proj(m, 1, 0, None), o.st))))))
                else:
                    goals.append(("the id of %s" % kd.lower(), Implies(sel, And(E.cv(got, None, 1), E.eq(E.deref_all(o.st, E.proj(got, 1, 0, None)), m, o.st)))))
            return goals
        contract(c, "<%s as RpcMessage>::request_id" % t, rid)

        def jr(k, o, ti=ti):
            E = k.E
            return [("the version member written on the wire", E.eq(k.res(o), member(c, E, k.arg(0), ti, "jsonrpc"), o.st))]
        contract(c, "<%s as RpcMessage>::jsonrpc" % t, jr)
        n = "<%s as RpcMessage>::method" % t
        if c.has(n):
            def me(k, o, ti=ti):
                E = k.E
                got = o.val
                goals = []
                for vi, x in enumerate(c.T[ti]["vs"]):
                    sel = E.cv(k.arg(0), ti, vi)
                    kd = kind_of_variant(vname(x))
                    fs = x["fields"]
                    if kd in ("Response", "Error"):
                        goals.append(("%s has no method" % kd.lower(), Implies(sel, E.cv(got, None, 0))))
                        continue
                    m = member(c, E, E.proj(k.arg(0), vi, 0, fs[0][1]), fs[0][1], "method")
                    goals.append(("the method of a %s" % kd.lower(), Implies(sel, And(E.cv(got, None, 1), E.eq(E.deref_all(o.st, E.proj(got, 1, 0, None)), m, o.st)))))
                return goals
            contract(c, n, me)


def id_opt(c, ti):
    d = c.T[ti]
    for n, ft in d["vs"][0]["fields"]:
        if n == "id":
            return c.p.tstr(ft).startswith("Option")
    return False


ACC = r"^(Client|Server)(Jsonrpc)?(Request|Notification|Response)::(request_id|method|jsonrpc)$"


def inherent_accessors(c):
    """request_id / method / jsonrpc of an envelope answer with the member of the alternative it holds"""
    for n in names(c, ACC):
        t, f = n.split("::")
        ti = c.p.local_adts.get(t)
        if ti is None:
            continue
        mname = "id" if f == "request_id" else f

        def post(k, o, ti=ti, mname=mname):
            return [("is the member written on the wire", k.E.eq(k.res(o), member(c, k.E, k.arg(0), ti, mname), o.st))]
        contract(c, n, post)


def const_method(c, t):
    m = consts_of(c, t).get("method")
    if m is None:
        raise Missing("method constant of " + t)
    return m


def from_methods(c):
    """method() of an id-less request/notification is the protocol method of its alternative"""
    for n in names(c, r"^(Request|Notification)From(Client|Server)::method$") + names(c, r"^InputRequest::method$|^(Client|Server)(Request|Notification)::method$"):
        t = n.split("::")[0]
        ti = c.p.local_adts.get(t)
        if ti is None or c.T[ti]["kind"] != "Enum":
            continue

        def post(k, o, ti=ti):
            return [("is the method of the alternative", k.E.eq(k.res(o), payload_method(c, k.E, k.arg(0), ti), o.st))]
        pre = custom_pre(c, ti)
        contract(c, n, post, prefn=pre)


def payload_method(c, E, v, ti):
    def f(x, fs, ps):
        pt = c.p.tstr(fs[0][1])
        if x.startswith("Custom"):
            if pt == "Value":
                return E.jstr(E.jget(ps[0], Str(("method",))))
            return member(c, E, ps[0], fs[0][1], "method")
        if "method" in consts_of(c, x):
            return lits(const_method(c, x))
        return by_variant(c, E, ps[0], fs[0][1], lambda y, gs, qs: lits(const_method(c, c.p.tstr(gs[0][1]))))
    return by_variant(c, E, v, ti, f)


def sel_leaf(c, E, v, ti, want):
    """v holds the alternative called `want`, at any depth; None when its type has no such alternative"""
    d = c.T[ti]
    if d.get("krate") != "rust_mcp_schema":
        return None
    if d["kind"] == "Enum":
        out = []
        for vi, x in enumerate(d["vs"]):
            if vname(x) == want:
                out.append(E.cv(v, ti, vi))
            elif x["fields"]:
                r = sel_leaf(c, E, E.proj(v, vi, 0, x["fields"][0][1]), x["fields"][0][1], want)
                if r is not None:
                    out.append(And(E.cv(v, ti, vi), r))
        return Or(*out) if out else None
    fs = dict(d["vs"][0]["fields"])
    for f in ("request", "notification"):
        if f in fs:
            return sel_leaf(c, E, fieldv(c, E, v, ti, f), fs[f], want)
    return None


def custom_pre(c, ti):
    """older versions hold a custom message as an arbitrary JSON value: method() needs it to have a method string"""
    for vi, x in enumerate(c.T[ti]["vs"]):
        if vname(x).startswith("Custom") and c.p.tstr(x["fields"][0][1]) == "Value":
            def pre(k, i=0, vi=vi, ft=x["fields"][0][1]):
                E = k.E
                v = k.arg(i)
                return Implies(E.cv(v, ti, vi), has_method(E, E.proj(v, vi, 0, ft)))
            return pre
    return None


def has_method(E, j):
    key = Str(("method",))
    return And(E.jkind_is(j, K_OBJ), E.jhas(j, key), E.jkind_is(E.jget(j, key), K_STR))


# ---------------------------------------------------------------------------- narrowing a message to one kind
def as_functions(c):
    for t in ("ClientMessage", "ServerMessage"):
        ti = c.p.local_adts.get(t)
        for k in KINDS:
            n = "%s::as_%s" % (t, k.lower())
            if not c.has(n):
                continue

            def post(kk, o, k=k, ti=ti):
                E = kk.E
                vi = c.vidx(ti, k)
                sel = E.cv(kk.arg(0), ti, vi)
                ok = E.cv(o.val, None, 0)
                ft = c.T[ti]["vs"][vi]["fields"][0][1]
                g = [("succeeds exactly for a %s" % k.lower(), Eqb(ok, sel))]
                if not is_f(ok):
                    g.append(("hands back the message unchanged", Implies(And(ok, sel), E.eq(E.proj(o.val, 0, 0, None), E.proj(kk.arg(0), vi, 0, ft), o.st))))
                if not is_t(ok):
                    g.append(("otherwise reports an internal error", Implies(Not(ok), rpc_err(c, E, o.st, E.proj(o.val, 1, 0, None), -32603, data="any"))))
                return g
            contract(c, n, post)


# ---------------------------------------------------------------------------- construction from the id-less form
def env_new(c):
    """<X>JsonrpcRequest::new(id, request) / <X>JsonrpcNotification::new(notification): the alternative, the id and
    the params given, the protocol constants"""
    for n in names(c, r"^(Client|Server)Jsonrpc(Request|Notification)::new$"):
        t = n.split("::")[0]
        ti = c.p.local_adts.get(t)
        old = len(c.T[ti]["vs"]) == 1
        inst = c.fn(n)
        src = inst.body.locals[inst.body.argc]

        def post(k, o, ti=ti, old=old, src=src):
            E = k.E
            req = k.vals[-1]
            rid = k.vals[0] if len(k.vals) == 2 else None
            g = []
            if old:
                fs = dict(c.T[ti]["vs"][0]["fields"])
                if rid is not None:
                    g.append(("keeps the id", E.eq(fieldv(c, E, o.val, ti, "id"), rid, o.st)))
                g.append(("protocol version", E.eq(fieldv(c, E, o.val, ti, "jsonrpc"), lits("2.0"), o.st)))
                pay = "request" if "request" in fs else "notification"
                g.append(("keeps the payload", E.eq(fieldv(c, E, o.val, ti, pay), req, o.st)))
                g.append(("method of the payload", E.eq(fieldv(c, E, o.val, ti, "method"), old_method(c, E, req, src), o.st)))
                return g
            for vi, x in enumerate(c.T[src]["vs"]):
                sel = E.cv(req, src, vi)
                p = E.proj(req, vi, 0, x["fields"][0][1])
                g.append(("alternative %s" % vname(x), Implies(sel, env_is(c, E, o.st, o.val, ti, vname(x), x["fields"][0][1], p, rid))))
            return g
        pre = None
        if old:
            pi = len([1 for _ in range(inst.body.argc)]) - 1
            cp = custom_pre(c, src)
            pre = (lambda k, cp=cp, pi=pi: cp(k, pi)) if cp else None
        contract(c, n, post, prefn=pre)


def env_of(c):
    """From<a single request / notification> for the envelope struct of the older versions: the envelope of that
    message, its method the message's own"""
    for n in names(c, r"^<(Client|Server)Jsonrpc(Request|Notification) as From<(\w+)>>::from$"):
        t, x = from_pair(n)
        ti = c.ty(t)
        if len(c.T[ti]["vs"]) != 1:
            continue
        fs = dict(c.T[ti]["vs"][0]["fields"])
        pay = [f for f in ("request", "notification") if f in fs]
        if not pay or "id" in fs:
            continue
        pty = fs[pay[0]]
        path = best_path(c, pty, x)

        def post(k, o, ti=ti, pty=pty, path=path, x=x, n=n):
            if path is None:
                raise Missing("%s carries no %s" % (c.p.tstr(pty), x))
            return [("is the envelope of the message", wraps(c, k.E, o.st, o.val, ti, pty, wrap(c, path, k.arg(0)), None))]
        contract(c, n, post)


def old_method(c, E, v, ti):
    def f(x, fs, ps):
        if c.p.tstr(fs[0][1]) == "Value":
            return E.jstr(E.jget(ps[0], Str(("method",))))
        return by_variant(c, E, ps[0], fs[0][1], lambda y, gs, qs: lits(const_method(c, c.p.tstr(gs[0][1]))))
    return by_variant(c, E, v, ti, f)


def env_leaf(c, E, v, ti, want):
    """(condition, leaf struct type, accessor for members) of the alternative carrying `want`"""
    for vi, x in enumerate(c.T[ti]["vs"]):
        fs = x["fields"]
        if len(fs) == 1 and fs[0][0].isdigit():
            if c.p.tstr(fs[0][1]) == want:
                p = E.proj(v, vi, 0, fs[0][1])
                return E.cv(v, ti, vi), (lambda n, p=p, ft=fs[0][1]: fieldv(c, E, p, ft, n))
            d = c.T[fs[0][1]]
            if d["k"] == "adt" and d["krate"] == "rust_mcp_schema" and d["kind"] == "Enum":
                r = env_leaf(c, E, E.proj(v, vi, 0, fs[0][1]), fs[0][1], want)
                if r:
                    return And(E.cv(v, ti, vi), r[0]), r[1]
        elif vname(x) == want:
            def acc(n, vi=vi, fs=fs):
                for i, (m, ft) in enumerate(fs):
                    if m == n:
                        return E.proj(v, vi, i, ft)
                for i, (m, ft) in enumerate(fs):
                    if c.p.tstr(ft) == want:
                        return fieldv(c, E, E.proj(v, vi, i, ft), ft, n)
                raise Missing(n)
            return E.cv(v, ti, vi), acc
    return None


def env_is(c, E, st, got, ti, alt, pty, payload, rid):
    """goal: got is the envelope of the named alternative with this payload (and id)"""
    custom = alt.startswith("Custom")
    leaf = "JsonrpcRequest" if custom and rid is not None else "JsonrpcNotification" if custom else alt
    r = env_leaf(c, E, got, ti, leaf)
    if r is None:
        raise Missing("alternative for " + alt)
    sel, acc = r
    g = [sel]
    if rid is not None:
        g.append(E.eq(acc("id"), rid, st))
    g.append(E.eq(acc("jsonrpc"), lits("2.0"), st))
    if custom:
        g.append(E.eq(acc("method"), fieldv(c, E, payload, pty, "method"), st))
        g.append(E.eq(acc("params"), custom_params(c, E, acc("params"), fieldv(c, E, payload, pty, "params")), st))
    else:
        g.append(E.eq(acc("method"), lits(const_method(c, alt)), st))
        g.append(E.eq(acc("params"), payload, st))
    return And(*g)


def custom_params(c, E, target, src):
    return src


def env_into(c):
    """From<envelope> for the id-less form: the payload of the alternative, the id dropped"""
    for n in names(c, r"<(Request|Notification)From(Client|Server) as From<(Client|Server)Jsonrpc(Request|Notification)>>::from$"):
        y, x = from_pair(n)
        ti, src = c.ty(y), c.ty(x)

        def post(k, o, ti=ti, src=src):
            E = k.E
            v = k.arg(0)
            g = []
            if len(c.T[src]["vs"]) == 1:
                pay = [f for f in ("request", "notification") if f in dict(c.T[src]["vs"][0]["fields"])][0]
                return [("is the payload", E.eq(o.val, fieldv(c, E, v, src, pay), o.st))]
            for vi, alt in enumerate(c.T[ti]["vs"]):
                nm = vname(alt)
                pty = alt["fields"][0][1]
                leaf = nm
                if nm.startswith("Custom"):
                    leaf = "JsonrpcRequest" if "Request" in y else "JsonrpcNotification"
                r = env_leaf(c, E, v, src, leaf)
                if r is None:
                    raise Missing("alternative for " + nm)
                sel, acc = r
                p = E.proj(o.val, vi, 0, pty)
                if nm.startswith("Custom"):
                    w = And(E.eq(fieldv(c, E, p, pty, "method"), acc("method"), o.st), E.eq(fieldv(c, E, p, pty, "params"), acc("params"), o.st))
                else:
                    w = E.eq(p, acc("params"), o.st)
                g.append(("alternative %s" % nm, Implies(sel, And(E.cv(o.val, ti, vi), w))))
            return g
        contract(c, n, post)


# ---------------------------------------------------------------------------- pairing with an id
def from_messages(c):
    """from_message / to_message: a request or result needs an id, a notification must not have one"""
    for n in names(c, r"<(Client|Server)Message as FromMessage<MessageFrom(Client|Server)>>::from_message$"):
        t = re.match(r"<(\w+) as", n).group(1)
        ti = c.ty(t)
        inst = c.fn(n)
        src = inst.body.locals[1]

        def post(k, o, ti=ti, src=src):
            E = k.E
            msg, rid = k.vals
            has = E.cv(rid, None, 1)
            idv = E.proj(rid, 1, 0, None)
            ok = E.cv(o.val, None, 0)
            got = E.proj(o.val, 0, 0, None)
            err = E.proj(o.val, 1, 0, None)
            g = []
            for vi, x in enumerate(c.T[src]["vs"]):
                kd = kind_of_variant(vname(x))
                sel = E.cv(msg, src, vi)
                pty = x["fields"][0][1]
                p = E.proj(msg, vi, 0, pty)
                g += pair_rule(c, E, o, ti, kd, sel, pty, p, rid, has, idv, ok, got, err)
            return g
        cp = {}
        for vi, x in enumerate(c.T[src]["vs"]):
            pt = x["fields"][0][1]
            if c.T[pt]["k"] == "adt" and c.T[pt]["kind"] == "Enum" and kind_of_variant(vname(x)) in ("Request", "Notification"):
                q = custom_pre(c, pt)
                if q:
                    cp[vi] = (pt, q)

        def pre(k, src=src, cp=cp):
            E = k.E
            r = []
            for vi, (pt, q) in cp.items():
                p = E.proj(k.vals[0], vi, 0, pt)
                class K:
                    pass
                kk = K()
                kk.E = E
                kk.arg = lambda i, p=p: p
                r.append(Implies(E.cv(k.vals[0], src, vi), q(kk)))
            return And(*r)
        contract(c, n, post, prefn=pre if cp else None)


def pair_rule(c, E, o, ti, kd, sel, pty, p, rid, has, idv, ok, got, err):
    vi = c.vidx(ti, kd)
    ft = c.T[ti]["vs"][vi]["fields"][0][1]
    q = E.proj(got, vi, 0, ft)
    g = []
    if kd == "Notification":
        g.append(("a notification with an id is refused", Implies(And(sel, has), And(Not(ok), rpc_err(c, E, o.st, err, -32603, data="any")) if not is_t(ok) else False)))
        g.append(("a notification without an id is paired", Implies(And(sel, Not(has)), And(ok, E.cv(got, ti, vi), wraps(c, E, o.st, q, ft, pty, p, None)) if not is_f(ok) else False)))
        return g
    if kd == "Error":
        idf = fieldv(c, E, q, ft, "id")
        i, idt = c.fidx(ft, "id")
        if c.p.tstr(idt).startswith("Option"):
            w = And(E.eq(idf, rid, o.st))
            g.append(("an error keeps its id, if any", Implies(sel, And(ok, E.cv(got, ti, vi), w, E.eq(fieldv(c, E, q, ft, "error"), p, o.st), E.eq(fieldv(c, E, q, ft, "jsonrpc"), lits("2.0"), o.st)) if not is_f(ok) else False)))
            return g
        g.append(("an error keeps its id", Implies(And(sel, has), And(ok, E.cv(got, ti, vi), E.eq(idf, idv, o.st), E.eq(fieldv(c, E, q, ft, "error"), p, o.st), E.eq(fieldv(c, E, q, ft, "jsonrpc"), lits("2.0"), o.st)) if not is_f(ok) else False)))
        g.append(("an error without an id is refused", Implies(And(sel, Not(has)), And(Not(ok), rpc_err(c, E, o.st, err, -32603, data="any")) if not is_t(ok) else False)))
        return g
    g.append(("a %s without an id is refused" % kd.lower(), Implies(And(sel, Not(has)), And(Not(ok), rpc_err(c, E, o.st, err, -32603, data="any")) if not is_t(ok) else False)))
    g.append(("a %s is paired with its id" % kd.lower(), Implies(And(sel, has), And(ok, E.cv(got, ti, vi), wraps(c, E, o.st, q, ft, pty, p, idv)) if not is_f(ok) else False)))
    return g


def wraps(c, E, st, got, ft, pty, p, rid):
    """goal: the envelope `got` (type ft) carries payload p (type pty) with id rid"""
    fs = dict(c.T[ft]["vs"][0]["fields"])
    if len(c.T[ft]["vs"]) == 1:
        g = [E.eq(fieldv(c, E, got, ft, "jsonrpc"), lits("2.0"), st)]
        if rid is not None:
            g.append(E.eq(fieldv(c, E, got, ft, "id"), rid, st))
        pay = [f for f in ("result", "request", "notification") if f in fs][0]
        g.append(E.eq(fieldv(c, E, got, ft, pay), p, st))
        if "method" in fs:
            g.append(E.eq(fieldv(c, E, got, ft, "method"), old_method(c, E, p, pty), st))
        return And(*g)
    g = []
    for vi, x in enumerate(c.T[pty]["vs"]):
        s = E.cv(p, pty, vi)
        g.append(Implies(s, env_is(c, E, st, got, ft, vname(x), x["fields"][0][1], E.proj(p, vi, 0, x["fields"][0][1]), rid)))
    return And(*g)


def envelope_all(c):
    classification(c)
    rpc_accessors(c)
    inherent_accessors(c)
    from_methods(c)
    as_functions(c)
    env_new(c)
    env_of(c)
    env_into(c)
    from_messages(c)


def per_type_messages(c):
    """versions before 2025-11-25: from_message / to_message of each single request, result and notification"""
    for n in names(c, r"^<(\w+) as (FromMessage|ToMessage)<(\w+)>>::(from|to)_message$"):
        m = re.match(r"<(\w+) as (FromMessage|ToMessage)<(\w+)>>", n)
        a, tr, b = m.groups()
        t, x = (a, b) if tr == "FromMessage" else (b, a)
        if x.startswith("MessageFrom") or t not in ("ClientMessage", "ServerMessage"):
            continue
        if not x.endswith(("Request", "Result", "Notification")):
            continue
        ti = c.ty(t)
        kd = "Request" if x.endswith("Request") else "Notification" if x.endswith("Notification") else "Response"

        def post(k, o, ti=ti, kd=kd, x=x):
            E = k.E
            msg, rid = k.vals
            has = E.cv(rid, None, 1)
            idv = E.proj(rid, 1, 0, None)
            ok = E.cv(o.val, None, 0)
            got = E.proj(o.val, 0, 0, None)
            err = E.proj(o.val, 1, 0, None)
            ft = c.T[ti]["vs"][c.vidx(ti, kd)]["fields"][0][1]
            fs = dict(c.T[ft]["vs"][0]["fields"])
            pty = fs[[f for f in ("result", "request", "notification") if f in fs][0]]
            path = best_path(c, pty, x)
            if path is None:
                raise Missing("%s carries no %s" % (c.p.tstr(pty), x))
            return pair_rule(c, E, o, ti, kd, True, pty, wrap(c, path, msg), rid, has, idv, ok, got, err)
        contract(c, n, post)
