"""Contracts of capability gating and of the task predicates."""
from errors import *


def some_(c, E, v, ti, name):
    """member `name` (an Option) is present"""
    i, ft = c.fidx(ti, name)
    return E.cv(E.proj(v, 0, i, ft), ft, 1)


def inner(c, E, v, ti, name):
    """(present, value, type) of the optional member `name`"""
    i, ft = c.fidx(ti, name)
    x = E.proj(v, 0, i, ft)
    it = E.opt_inner(ft)
    return E.cv(x, ft, 1), E.proj(x, 1, 0, it), it


def chain(c, E, v, ti, names_):
    """every optional member along the path is present"""
    conds = []
    for n in names_:
        p, v, ti = inner(c, E, v, ti, n)
        conds.append(p)
    return And(*conds)


def alt(c, E, v, ti, name):
    """(selected, accessor) of the alternative carrying request `name`; None when the version has no such request"""
    return env_leaf(c, E, v, ti, name)


def member_ty(c, tname, f):
    i, ft = c.fidx(c.ty(tname), f)
    return ft


SERVER_NEEDS = [("SetLevelRequest", "logging", "logging"), ("GetPromptRequest", "prompts", "prompts"), ("ListPromptsRequest", "prompts", "prompts"),
                ("ListResourcesRequest", "resources", "resources"), ("ListResourceTemplatesRequest", "resources", "resources"),
                ("ReadResourceRequest", "resources", "resources"), ("SubscribeRequest", "resources", "resources"), ("UnsubscribeRequest", "resources", "resources"),
                ("CallToolRequest", "tools", "tools"), ("ListToolsRequest", "tools", "tools"), ("CompleteRequest", "completions", "completions"),
                ("GetTaskRequest", "tasks", "task"), ("GetTaskPayloadRequest", "tasks", "task"), ("CancelTaskRequest", "tasks", "task"), ("ListTasksRequest", "tasks", "task")]


def server_rules(c, E, cap, req, rti):
    """[(condition under which the request is refused, capability named)] in order of precedence"""
    ti = c.ty("ServerCapabilities")
    rules = []
    have = {f[0] for f in c.T[ti]["vs"][0]["fields"]}
    if "tasks" in have:
        r = alt(c, E, req, rti, "CallToolRequest")
        sel, acc = r
        pty = member_ty(c, "CallToolRequest", "params")
        aug = some_(c, E, acc("params"), pty, "task")
        rules.append((And(sel, aug, Not(chain(c, E, cap, ti, ["tasks", "requests", "tools", "call"]))), "Task-augmented tool call"))
    for name, capn, label in SERVER_NEEDS:
        r = alt(c, E, req, rti, name)
        if r is None:
            continue
        if capn not in have:
            raise Missing("capability " + capn)
        rules.append((And(r[0], Not(some_(c, E, cap, ti, capn))), label))
    if "tasks" in have:
        for name, sub, label in (("ListTasksRequest", "list", "listing tasks"), ("CancelTaskRequest", "cancel", "task cancellation")):
            rules.append((And(alt(c, E, req, rti, name)[0], Not(chain(c, E, cap, ti, ["tasks", sub]))), label))
    return rules


def client_rules(c, E, cap, req, rti):
    ti = c.ty("ClientCapabilities")
    have = {f[0] for f in c.T[ti]["vs"][0]["fields"]}
    rules = []
    sel, acc = alt(c, E, req, rti, "CreateMessageRequest")
    samp = chain(c, E, cap, ti, ["sampling"])
    if "tasks" not in have:
        rules.append((And(sel, Not(samp)), "sampling"))
        rules.append((And(alt(c, E, req, rti, "ListRootsRequest")[0], Not(chain(c, E, cap, ti, ["roots"]))), "roots"))
        rules.append((And(alt(c, E, req, rti, "ElicitRequest")[0], Not(chain(c, E, cap, ti, ["elicitation"]))), "elicitation"))
        return rules
    pty = member_ty(c, "CreateMessageRequest", "params")
    p = acc("params")
    rules.append((And(sel, Not(samp)), "sampling capability"))
    rules.append((And(sel, some_(c, E, p, pty, "include_context"), Not(chain(c, E, cap, ti, ["sampling", "context"]))), "context inclusion"))
    tools = fieldv(c, E, p, pty, "tools")
    rules.append((And(sel, some_(c, E, p, pty, "tool_choice"), Not(chain(c, E, cap, ti, ["sampling", "tools"]))), "tool choice"))
    rules.append((And(sel, contracts.veclen(E, tools) != 0, Not(chain(c, E, cap, ti, ["sampling", "tools"]))), "tool use"))
    rules.append((And(sel, some_(c, E, p, pty, "task"), Not(chain(c, E, cap, ti, ["tasks", "requests", "sampling", "create_message"]))), "sampling task"))
    rules.append((And(alt(c, E, req, rti, "ListRootsRequest")[0], Not(chain(c, E, cap, ti, ["roots"]))), "roots capability"))
    for nm in ("GetTaskRequest", "GetTaskPayloadRequest"):
        rules.append((And(alt(c, E, req, rti, nm)[0], Not(chain(c, E, cap, ti, ["tasks"]))), "Task"))
    rules.append((And(alt(c, E, req, rti, "CancelTaskRequest")[0], Not(chain(c, E, cap, ti, ["tasks", "cancel"]))), "task cancellation"))
    rules.append((And(alt(c, E, req, rti, "ListTasksRequest")[0], Not(chain(c, E, cap, ti, ["tasks", "list"]))), "listing tasks"))
    s2, a2 = alt(c, E, req, rti, "ElicitRequest")
    ety = member_ty(c, "ElicitRequest", "params")
    rules.append((And(s2, Not(chain(c, E, cap, ti, ["elicitation"]))), "input elicitation"))
    rules.append((And(s2, elicit_task(c, E, a2("params"), ety), Not(chain(c, E, cap, ti, ["tasks", "requests", "elicitation", "create"]))), "elicitation task"))
    return rules


def elicit_task(c, E, v, ti):
    return Or(*[And(E.cv(v, ti, vi), some_(c, E, E.proj(v, vi, 0, x["fields"][0][1]), x["fields"][0][1], "task")) for vi, x in enumerate(c.T[ti]["vs"])])


def refused(c, E, o, rules, entity, method):
    """goals: refused exactly when a rule applies, with the error naming the first rule that does"""
    ok = E.cv(o.val, None, 0)
    bad = Or(*[r for r, _ in rules])
    g = [("refused exactly when the needed capability is not declared", Eqb(ok, Not(bad)))]
    if not is_t(ok):
        err = E.proj(o.val, 1, 0, None)
        before = False
        for r, l in rules:
            here = And(Not(ok), r, Not(before))
            if not is_f(here):
                want = contracts.mkstr([lits(entity + " does not support " + l + " (required for "), method, lits(")")])
                g.append(("the refusal is an internal error naming %s and the method" % l, Implies(here, rpc_err(c, E, o.st, err, -32603, want, None))))
            before = Or(before, r)
    return g


def gating(c):
    for cap, entity, rules in (("ServerCapabilities", "Server", server_rules), ("ClientCapabilities", "Client", client_rules)):
        n = cap + "::can_handle_request"
        if not c.has(n):
            if c.ver in ("2026_07_28", "draft", "2025_11_25"):
                with c.guard(n):
                    c.fn(n)
            continue

        def post(k, o, entity=entity, rules=rules):
            E = k.E
            rti = c.T[k.tys[1]]["e"]
            rs = rules(c, E, k.vals[0], k.vals[1], rti)
            return refused(c, E, o, rs, entity, member(c, E, k.vals[1], rti, "method"))
        contract(c, n, post)
        n = cap + "::can_accept_notification"

        def post2(k, o, entity=entity):
            E = k.E
            m = k.vals[1]
            ti = c.T[k.tys[0]]["e"]
            rs = []

            def rule(notif, capn, label):
                if notif not in c.spec["structs"]:
                    return
                rs.append((And(E.streq(m, lits(const_method(c, notif))), Not(some_(c, E, k.vals[0], ti, capn))), label))
            if entity == "Server":
                rule("LoggingMessageNotification", "logging", "logging")
                rule("ResourceUpdatedNotification", "resources", "notifying about resources")
                rule("ResourceListChangedNotification", "resources", "notifying about resources")
                rule("ToolListChangedNotification", "tools", "notifying of tool list changes")
                rule("PromptListChangedNotification", "prompts", "notifying of prompt list changes")
            else:
                rule("RootsListChangedNotification", "roots", "roots list changed notifications")
            return refused(c, E, o, rs, entity, m)
        contract(c, n, post2)


# ---------------------------------------------------------------------------- task predicates
PATHS = {"can_cancel_tasks": ["cancel"], "can_list_tasks": ["list"], "can_run_task_augmented_tools": ["requests", "tools", "call"],
         "can_accept_elicitation_task": ["requests", "elicitation", "create"], "can_accept_sampling_task": ["requests", "sampling", "create_message"]}


def task_predicates(c):
    for n in names(c, r"^(Server|Client)(Capabilities|Tasks)::can_(cancel|list|run|accept_elic|accept_sam)"):
        t, f = n.split("::")
        path = (["tasks"] if t.endswith("Capabilities") else []) + PATHS[f]
        contract(c, n, lambda k, o, t=t, path=path: [("true exactly when every part of %s is declared" % ".".join(path), Eqb(o.val, chain(c, k.E, k.arg(0), c.ty(t), path)))])
    for n in names(c, r"::is_task_augmented$"):
        t = n.split("::")[0]

        def post(k, o, t=t):
            return [("true exactly when the request carries a task member", Eqb(o.val, augmented(c, k.E, k.arg(0), c.ty(t))))]
        contract(c, n, post)
    for n in names(c, r"::is_terminal$"):
        t = n.split("::")[0]

        def post(k, o, t=t):
            E = k.E
            v, ti = k.arg(0), c.ty(t)
            if t != "TaskStatus":
                i, ft = c.fidx(ti, "status")
                v, ti = E.proj(v, 0, i, ft), ft
            want = by_variant(c, E, v, ti, lambda x, fs, ps: x in ("Cancelled", "Completed", "Failed"))
            return [("true exactly for completed, failed and cancelled", Eqb(o.val, want))]
        contract(c, n, post)


def augmented(c, E, v, ti, depth=5):
    """some request below v carries a task"""
    d = c.T[ti]
    if d["k"] != "adt" or d["krate"] != "rust_mcp_schema" or depth == 0:
        return False
    if d["kind"] == "Enum":
        out = []
        for vi, x in enumerate(d["vs"]):
            for i, (n, ft) in enumerate(x["fields"]):
                t = c.p.tstr(ft)
                if t in ("CallToolRequest", "CallToolRequestParams", "CreateMessageRequest", "CreateMessageRequestParams", "ElicitRequest", "ElicitRequestParams", "ElicitRequestUrlParams", "ElicitRequestFormParams", "RequestFromServer", "RequestFromClient"):
                    out.append(And(E.cv(v, ti, vi), augmented(c, E, E.proj(v, vi, i, ft), ft, depth - 1)))
        return Or(*out)
    fs = dict(d["vs"][0]["fields"])
    if "task" in fs:
        return some_(c, E, v, ti, "task")
    if "params" in fs:
        return augmented(c, E, fieldv(c, E, v, ti, "params"), fs["params"], depth - 1)
    return False


def caps_all(c):
    gating(c)
    task_predicates(c)
