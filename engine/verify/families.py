"""Families of function contracts whose postcondition follows from the specification of the type alone:
constant accessors, constructors, builders, wrapping / narrowing conversions."""
from fncon import *


# ---------------------------------------------------------------------------- constant accessors
def const_targets(c):
    """(function, kind, type, field, constant)"""
    out = []
    for n in sorted(c.roots):
        m = re.match(r"(\w+)::(\w+)$", n)
        if not m or m.group(1) not in c.spec["structs"]:
            continue
        t, f = m.groups()
        cs = consts_of(c, t)
        for suf in ("_value", "_name", ""):
            if f.endswith(suf) and f[:len(f) - len(suf)] in cs:
                fld = f[:len(f) - len(suf)] if suf else f
                out.append((n, suf, t, fld, cs[fld]))
                break
            if suf and f.endswith(suf) and f[:len(f) - len(suf)] + "_" in cs:
                fld = f[:len(f) - len(suf)] + "_"
                out.append((n, suf, t, fld, cs[fld]))
                break
    return out


def const_fn(c, tgt):
    n, suf, t, fld, const = tgt
    ft = [f["t"] for f in c.spec["structs"][t]["fields"] if f["f"] == fld][0]
    opt = ft.startswith("Option")

    def post(k, o):
        E = k.E
        want = lits(const) if isinstance(const, str) else int(const)
        got = k.res(o)
        if suf == "":
            member = fieldv(c, E, k.arg(0), c.ty(t), fld)
            return [("is the member that is written on the wire", E.eq(got, member, o.st))] + ([] if opt else [("is the protocol constant", E.eq(got, want, o.st))] if isinstance(const, str) else [])
        return [("is the protocol constant", E.eq(got, want, o.st))]
    contract(c, n, post)


# ---------------------------------------------------------------------------- constructors
def coerce_arg(c, E, k, name, ft):
    """the value a member of type ft takes from the argument of the same name"""
    if name not in k.names:
        return None
    i = k.names.index(name)
    a, at = k.vals[i], k.tys[i]
    d = c.T[at]
    if d["k"] == "ref":
        return a if c.p.tstr(ft) == "String" or c.p.tstr(d["e"]) == c.p.tstr(ft) else None
    if at == ft:
        return a
    if E.opt_inner(ft) == at:
        return Agg(ft, 1, (a,))
    inner = E.opt_inner(ft)
    if inner is not None and c.T[inner].get("box") and c.T[inner]["args"][0] == at:
        return Agg(ft, 1, (BoxV(a),))
    return None


def default_val(c, E, ft):
    if E.opt_inner(ft) is not None:
        return Agg(ft, 0, ())
    try:
        return default_of(c, E, ft)
    except Unsupported:
        return None


def ctor_ok(c, n):
    """the constructors whose arguments are named after members"""
    t = n[:-len("::new")]
    s = c.spec["structs"].get(t)
    inst = c.roots[n]
    if not s or not inst.has_body:
        return False
    b = inst.body
    if b.locals[0] != c.p.local_adts.get(t):
        return False
    k = Call.argnames(None, b)
    if not set(k) <= {f["f"] for f in s["fields"]}:
        return False
    for a in range(b.argc):
        d = c.T[b.locals[a + 1]]
        if d["k"] == "param":
            return False
    return True


def ctor(c, n):
    t = n[:-len("::new")]
    ti = c.ty(t)
    fields = c.spec["structs"][t]["fields"]

    def post(k, o):
        E = k.E
        out = []
        for f in fields:
            i, ft = c.fidx(ti, f["f"])
            got = E.proj(o.val, 0, i, ft)
            w = coerce_arg(c, E, k, f["f"], ft)
            if w is None and "const" in f:
                w = lits(f["const"]) if isinstance(f["const"], str) else int(f["const"])
                if E.opt_inner(ft) is not None:
                    w = Agg(ft, 1, (w,))
            elif w is None and isinstance(f.get("default"), str):
                w = lits(f["defval"])
            elif w is None:
                w = default_val(c, E, ft)
            if w is None:
                raise Missing("argument for member %s of %s" % (f["f"], t))
            out.append(("member %s" % f["f"], E.eq(got, w, o.st)))
        return out
    contract(c, n, post)


# ---------------------------------------------------------------------------- builders
def builder_ok(c, n):
    m = re.match(r"(\w+)::with_(\w+)$", n)
    if not m or m.group(1) not in c.spec["structs"]:
        return None
    t, f = m.groups()
    if f not in {x["f"] for x in c.spec["structs"][t]["fields"]}:
        return None
    b = c.roots[n].body
    if b.argc != 2 or c.T[b.locals[1]]["k"] != "adt":
        return None
    return t, f


def builder(c, n):
    t, f = builder_ok(c, n)
    ti = c.ty(t)

    def post(k, o):
        E = k.E
        x = k.arg(0)
        out = []
        for g in c.spec["structs"][t]["fields"]:
            i, ft = c.fidx(ti, g["f"])
            got = E.proj(o.val, 0, i, ft)
            if g["f"] != f:
                out.append(("leaves member %s alone" % g["f"], E.eq(got, E.proj(x, 0, i, ft), o.st)))
                continue
            a, at = k.vals[1], k.tys[1]
            if at == ft:
                w = a
            elif E.opt_inner(ft) == at:
                w = Agg(ft, 1, (a,))
            else:
                w = special_coerce(c, E, k, ft, a, at)
            out.append(("sets member %s to its argument" % f, E.eq(got, w, o.st)))
        return out
    contract(c, n, post)


def special_coerce(c, E, k, ft, a, at):
    inner = E.opt_inner(ft)
    d = c.T[at]
    if inner is not None and c.p.tstr(inner) == "String":
        return Agg(ft, 1, (a,))
    if c.p.tstr(ft) == "String":
        return a
    raise Missing("argument %s of type %s" % (k.names[1], c.p.tstr(at)))


# ---------------------------------------------------------------------------- conversions
def conversions(c):
    """(function, direction, constructor path) for every From / TryFrom between an alternative and its enum"""
    out, left = [], []
    for n in names(c, r" as (From|TryFrom)<"):
        p = from_pair(n)
        if not p:
            left.append(n)
            continue
        y, x = p
        big, small, d = (y, x, "wrap") if n.endswith("::from") else (x, y, "narrow")
        ti = c.p.by_tstr.get(big)
        path = best_path(c, ti, small) if ti is not None else None
        if path is None:
            left.append(n)
        else:
            out.append((n, d, path))
    return out, left


# ---------------------------------------------------------------------------- all of it
# constructors and conversions whose contract is stated one by one elsewhere
SPECIAL = {"BlobResourceContents::new", "CallToolRequestParams::new", "InputResponses::new", "ClientJsonrpcResponse::new", "ServerJsonrpcResponse::new",
           "ClientJsonrpcRequest::new", "ServerJsonrpcRequest::new", "ClientJsonrpcNotification::new", "ServerJsonrpcNotification::new"}


def constants_all(c):
    for t in const_targets(c):
        const_fn(c, t)


def ctors_all(c):
    for n in names(c, r"^\w+::new$"):
        if n not in SPECIAL and ctor_ok(c, n):
            ctor(c, n)


def builders_all(c):
    for n in names(c, r"::with_"):
        if n != "CallToolResult::with_structured_content" and builder_ok(c, n):
            builder(c, n)


def conversions_all(c):
    out, left = conversions(c)
    for n, d, path in out:
        if d == "wrap":
            wrapping(c, n, path)
        elif not (n.startswith("<Result as TryFrom<ResultFrom") and c.ver == "2025_11_25"):
            narrowing(c, n, path)
