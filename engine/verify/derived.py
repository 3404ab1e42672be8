"""Copies, comparisons and defaults of the protocol types (mostly derived, a few written by hand)."""
from families import *

# defaults that are not "nothing set"
DEFAULTS = {"RequestId": ("Integer", 0), "ProgressToken": ("Integer", 0), "LoggingLevel": ("Info",)}


def copies(c):
    for n in sorted(c.roots):
        if n.endswith(" as Clone>::clone"):
            contract(c, n, lambda k, o: [("a copy equals the original", k.E.eq(k.res(o), k.arg(0), o.st))])


def blank(c, E, ft):
    """the value of a member that is not set"""
    if E.opt_inner(ft) is not None:
        return Agg(ft, 0, ())
    ts = c.p.tstr(ft)
    d = c.T[ft]
    if ts == "Map":
        return JO(())
    if ts.startswith(("BTreeMap<", "HashMap<")):
        return Opq("emptymap", ())
    if ts == "String":
        return Str(())
    if ts == "Value":
        return JNull
    if d["k"] in ("int", "uint"):
        return 0
    if d["k"] == "float":
        return Opq("f64:0", ())
    if d["k"] == "bool":
        return False
    if d["k"] == "adt" and d["krate"] == "rust_mcp_schema":
        if ts in DEFAULTS:
            v, *x = DEFAULTS[ts]
            return Agg(ft, c.vidx(ft, v), tuple(x))
        if d["kind"] == "Struct":
            return Agg(ft, 0, [blank(c, E, t) for _, t in d["vs"][0]["fields"]])
    return default_val(c, E, ft)


def defaults(c):
    for n in sorted(c.roots):
        m = re.match(r"^<(\w+) as Default>::default$", n)
        if not m or m.group(1) not in c.p.local_adts:
            continue
        ti = c.ty(m.group(1))

        def post(k, o, ti=ti):
            E = k.E
            if c.p.tstr(ti) in DEFAULTS or c.T[ti]["kind"] != "Struct":
                return [("the specified default", E.eq(o.val, blank(c, E, ti), o.st))]
            g = []
            for i, (f, ft) in enumerate(c.T[ti]["vs"][0]["fields"]):
                w = blank(c, E, ft)
                got = E.proj(o.val, 0, i, ft)
                g.append(("%s is not set" % f, E.eq(got, w, o.st)))
            return g
        contract(c, n, post)


def same(c, E, ti, a, b):
    """same alternative, same content"""
    alts = []
    for vi, x in enumerate(c.T[ti]["vs"]):
        cond = [E.cv(a, ti, vi), E.cv(b, ti, vi)]
        cond += [E.eq(E.proj(a, vi, i, f[1]), E.proj(b, vi, i, f[1])) for i, f in enumerate(x["fields"])]
        alts.append(And(*cond))
    return Or(*alts)


def comparisons(c):
    for n in sorted(c.roots):
        m = re.match(r"^<(\w+) as PartialEq>::eq$", n)
        if not m or m.group(1) not in c.p.local_adts or m.group(1) == "RequestId":
            continue
        ti = c.ty(m.group(1))

        def post(k, o, ti=ti):
            E = k.E
            return [("equal exactly when the same value", Eqb(o.val, same(c, E, ti, k.arg(0), k.arg(1))))]
        contract(c, n, post)
        m = m.group(1)
        if m in c.spec["strenums"] and c.has("<%s as Ord>::cmp" % m):
            nv = len(c.T[ti]["vs"])

            def oc(k, o, ti=ti, nv=nv):
                E = k.E
                return [("compares as equal exactly when the same value", Eqb(E.cv(o.val, c.ty("Ordering"), 1), same(c, E, ti, k.arg(0), k.arg(1))))]
            contract(c, "<%s as Ord>::cmp" % m, oc)


def derived(c):
    copies(c)
    comparisons(c)
    defaults(c)
