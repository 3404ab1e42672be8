"""Schemas of elicitation forms, parsed member by member: which kind of primitive schema a JSON schema object
stands for, with which limits, and that everything else is a parse error."""
from content import *

FN = "<PrimitiveSchemaDefinition as TryFrom<&Map>>::try_from"


def fname(c):
    for n in c.roots:
        if n.startswith("<PrimitiveSchemaDefinition as TryFrom<&Map<") and n.endswith("::try_from"):
            return n
    raise Missing("schema parser")


def text(E, m, k):
    g = E.jget(m, Str((k,)))
    return And(E.jhas(m, Str((k,))), E.jkind_is(g, K_STR)), E.jstr(g)


def integer(E, m, k):
    g = E.jget(m, Str((k,)))
    ok, v = contracts.i64cond(E, g)
    return And(E.jhas(m, Str((k,))), ok), v


def number(E, m, k):
    g = E.jget(m, Str((k,)))
    return And(E.jhas(m, Str((k,))), Or(E.jkind_is(g, K_INT), E.jkind_is(g, K_FLT))), (g.v if isinstance(g, JF) else Opq("f64of", (g,)))


def boolean(E, m, k):
    g = E.jget(m, Str((k,)))
    return And(E.jhas(m, Str((k,))), E.jkind_is(g, K_BOOL)), E.jbool(g)


def optional(E, ft, cv):
    cond, v = cv
    if is_f(cond):
        return Agg(ft, 0, ())
    return E.ite(cond, Agg(ft, 1, (v,)), Agg(ft, 0, ()))


MEMBERS = {"description": text, "title": text, "max_length": (integer, "maxLength"), "min_length": (integer, "minLength"),
           "maximum": number, "minimum": number}


def built(c, E, m, tname):
    """the schema value a JSON object of one of the plain kinds stands for"""
    ti = c.ty(tname)
    out = []
    for f in c.spec["structs"][tname]["fields"]:
        i, ft = c.fidx(ti, f["f"])
        n = f["f"]
        if n in MEMBERS:
            g = MEMBERS[n]
            g, key = g if isinstance(g, tuple) else (g, n)
            out.append(optional(E, ft, g(E, m, key)))
        elif n == "default":
            g = {"StringSchema": text, "NumberSchema": number, "BooleanSchema": boolean}[tname]
            out.append(optional(E, ft, g(E, m, "default")))
        elif n == "format":
            inner = E.opt_inner(ft)
            have, s = text(E, m, "format")
            v, okf = BOT, []
            for var, w in c.spec["strenums"][c.p.tstr(inner)].items():
                q = E.streq(s, Str((w,)))
                okf.append(q)
                v = E.ite(q, Agg(inner, c.vidx(inner, var), ()), v)
            out.append(optional(E, ft, (And(have, Or(*okf)), v)))
        elif n == "type_" and "const" in f:
            out.append(lits(f["const"]))
        elif n == "type_":
            out.append(E.ite(E.streq(E.jstr(E.jget(m, Str(("type",)))), Str(("integer",))), Agg(ft, c.vidx(ft, "Integer"), ()), Agg(ft, c.vidx(ft, "Number"), ())))
        else:
            raise Missing("member %s of %s" % (n, tname))
    return Agg(ti, 0, out)


def alternative(c, E, path, v):
    for ty, vi in reversed(path):
        v = BoxV(v) if ty == "box" else Agg(ty, vi, (v,))
    return v


def parse_error(c, E, e):
    ti = c.ty("RpcError")
    i, ft = c.fidx(ti, "code")
    return E.eq(E.proj(e, 0, i, ft), -32700)


def plain(c, E, m, ti):
    """[(condition, value)] of the plain kinds"""
    has, t = text(E, m, "type")
    is_ = lambda *ws: And(has, Or(*[E.streq(t, Str((w,))) for w in ws]))
    out = []
    for tname, ws in (("StringSchema", ("string",)), ("NumberSchema", ("number", "integer")), ("BooleanSchema", ("boolean",))):
        out.append((is_(*ws), True, alternative(c, E, best_path(c, ti, tname), built(c, E, m, tname)), tname))
    return out, is_


def newer(c, E, m, ti):
    """[(condition, accepted?, value, what)]: exactly one condition holds"""
    hask = lambda k: E.jhas(m, Str((k,)))
    kinds, is_ = plain(c, E, m, ti)

    def whole(tname, cond):
        if is_f(cond):
            return False, None
        ok, v = E.de(c.ty(tname), m)
        return ok, alternative(c, E, best_path(c, ti, tname), v)
    one, en, nm = hask("oneOf"), hask("enum"), hask("enumNames")
    arr = And(Not(one), Not(en), is_("array"))
    items = E.jget(m, Str(("items",)))
    io = And(hask("items"), E.jkind_is(items, K_OBJ))
    anyof, ien = And(io, E.jhas(items, Str(("anyOf",)))), And(io, E.jhas(items, Str(("enum",))))
    out = []
    for cond, tname, what in ((one, "TitledSingleSelectEnumSchema", "titled choice"),
                              (And(Not(one), en, nm), "LegacyTitledEnumSchema", "choice with enumNames"),
                              (And(Not(one), en, Not(nm)), "UntitledSingleSelectEnumSchema", "untitled choice"),
                              (And(arr, anyof), "TitledMultiSelectEnumSchema", "titled multiple choice"),
                              (And(arr, Not(anyof), ien), "UntitledMultiSelectEnumSchema", "untitled multiple choice")):
        out.append((cond,) + whole(tname, cond) + (what,))
    none = And(Not(one), Not(en))
    out += [(And(none, cond), ok, v, w) for cond, ok, v, w in kinds]
    out.append((Not(Or(*[x[0] for x in out])), False, None, "anything else"))
    return out


def older(c, E, m, ti):
    kinds, is_ = plain(c, E, m, ti)
    has, t = text(E, m, "type")
    choice = Or(is_("enum"), And(Not(has), E.jhas(m, Str(("oneOf",)))))
    out = list(kinds)
    # the simple titled choice: every alternative is an object with a title and a list starting with its value
    one = E.jget(m, Str(("oneOf",)))
    arr = E.jarr(one)
    vt = c.ty("Value")
    first = lambda e: contracts_first(E, E.jarr(E.jget(e, Str(("enum",)))))

    def good(e):
        g = E.jget(e, Str(("enum",)))
        return And(E.jkind_is(e, K_OBJ), E.jhas(e, Str(("enum",))), E.jkind_is(g, K_ARR), contracts.veclen(E, E.jarr(g)) > 0, E.jkind_is(first(e), K_STR))

    def titled(e):
        t = E.jget(e, Str(("title",)))
        return E.ite(And(E.jkind_is(e, K_OBJ), E.jhas(e, Str(("title",))), E.jkind_is(t, K_STR)), E.jstr(t), E.jstr(first(e)))
    bad = contracts.exists(E, arr, vt, lambda e: Not(good(e)))
    et = c.ty("EnumSchema")
    vals = []
    for f in c.spec["structs"]["EnumSchema"]["fields"]:
        i, ft = c.fidx(et, f["f"])
        if f["f"] == "enum_":
            vals.append(vmap(E, arr, vt, lambda e: E.jstr(first(e))))
        elif f["f"] == "enum_names":
            vals.append(vmap(E, arr, vt, titled))
        elif f["f"] in MEMBERS:
            vals.append(optional(E, ft, text(E, m, f["f"])))
        elif "const" in f:
            vals.append(lits(f["const"]))
        else:
            raise Missing("member " + f["f"])
    acc = And(E.jhas(m, Str(("oneOf",))), E.jkind_is(one, K_ARR), Not(bad))
    out.append((choice, acc, alternative(c, E, best_path(c, ti, "EnumSchema"), Agg(et, 0, vals)), "simple titled choice"))
    out.append((Not(Or(*[x[0] for x in out])), False, None, "anything else"))
    return out


def contracts_first(E, v):
    return E.mkval(E.elem_ty(v.ty), v.t, "elem0:" + E.ts(v.ty))


def schemas(c):
    if "PrimitiveSchemaDefinition" not in c.p.local_adts:
        return
    name = fname(c)
    ti = c.ty("PrimitiveSchemaDefinition")

    def post(k, o):
        E = k.E
        m = k.arg(0)
        cases = older(c, E, m, ti) if c.ver == "2025_06_18" else newer(c, E, m, ti)
        ok = E.cv(o.val, None, 0)
        out = []
        for cond, acc, v, what in cases:
            out.append(("%s: accepted exactly when well-formed" % what, Implies(cond, Eqb(ok, acc))))
            if v is not None and not is_f(ok):
                out.append(("%s: exactly the members given" % what, Implies(And(cond, ok, acc), E.eq(E.proj(o.val, 0, 0, None), v, o.st))))
        if not is_t(ok):
            out.append(("refused as a parse error", Implies(Not(ok), parse_error(c, E, E.proj(o.val, 1, 0, None)))))
        return out

    contract(c, name, post)
    fmt = "<StringSchemaFormat as FromStr>::from_str"
    tab = c.spec["strenums"]["StringSchemaFormat"]
    if c.has(fmt):
        strenum_text(c, fmt, "StringSchemaFormat", tab)
