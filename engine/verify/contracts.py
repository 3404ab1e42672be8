"""Contracts of the functions the verified code depends on but that are not part of /repo:
the standard library, serde, serde_json, and the JSON primitives of the abstract serde back end.
Each entry is an assumption (trusted base); `Engine.used_contracts` reports which ones a run used.

A contract is fn(E, st, f, inst, args, dty) and returns a value, a list of Out, or NotImplemented
(meaning: execute the callee's body instead)."""
import z3
from sym import *

TABLE = {}


def C(*names):
    def deco(fn):
        for n in names:
            TABLE[n] = fn
        return fn
    return deco


_norm = {}


def norm(d):
    r = _norm.get(d)
    if r is None:
        from prog import strip_generics
        r = strip_generics(d).replace("core::", "std::").replace("alloc::", "std::")
        r = r.replace("serde_std::", "serde_core::")
        import re
        r = re.sub(r"^serde_core::", "serde::", r)
        r = re.sub(r"__private\d*::", "__private::", r)
        _norm[d] = r
    return r


def lookup(E, f, inst):
    n = norm(f["def"])
    fn = TABLE.get(n)
    if fn is not None:
        return n, fn
    if inst is not None and not inst.has_body:
        n2 = norm(inst.df)
        fn = TABLE.get(n2)
        if fn is not None:
            return n2, fn
    if n.startswith("vharness::prim_"):
        fn = TABLE.get(n[len("vharness::"):])
        if fn is not None:
            return n, fn
    return None


def Out(kind, st, val):
    from exec import Out as O
    return O(kind, st, val)


# ------------------------------------------------------------------------------- helpers
def v_(E, st, a):
    return E.deref_all(st, a)


def cellptr(E, st, a):
    """innermost pointer to a non-pointer value"""
    while True:
        if isinstance(a, Ptr):
            x = E.get_path(st.cells[a.cell], a.path)
            if isinstance(x, (Ptr, VRef)):
                a = x
                continue
            return a
        if isinstance(a, VRef):
            if isinstance(a.v, (Ptr, VRef)):
                a = a.v
                continue
            return a
        raise Unsupported("pointer expected: %r" % (a,))


def opt(E, dty, cond, v):
    """Option value: Some(v) when cond"""
    some = Agg(dty, 1, (v,))
    none = Agg(dty, 0, ())
    return E.ite(cond, some, none)


def result(E, st, dty, cond, okv, errv=None):
    """Ok/Err outcomes as separate paths"""
    outs = []
    for s, t in E.fork(st, cond):
        if t:
            outs.append(Out("ret", s, Agg(dty, 0, (okv,))))
        else:
            outs.append(Out("ret", s, Agg(dty, 1, (errv if errv is not None else errval(E, dty),))))
    return outs


def errval(E, dty):
    et = E.T[dty]["args"][1]
    return E.mkval(et, "err", None)


def unit(E, dty):
    return Agg(dty, 0, ())


def okunit(E, dty):
    d = E.T[dty]
    return Agg(dty, 0, (Agg(d["args"][0], 0, ()),))


def strv(E, st, a):
    s = v_(E, st, a)
    if s is BOT:
        return s
    if isinstance(s, Ite):
        return E.ite(s.c, strv(E, st, s.a), strv(E, st, s.b))
    if not isinstance(s, Str):
        raise Unsupported("string expected: %r" % (s,))
    return s


def jv(E, st, a):
    j = v_(E, st, a)
    if isinstance(j, JV) or j is BOT or isinstance(j, Ite):
        return j
    if isinstance(j, Agg) and len(j.fs) >= 1 and (isinstance(j.fs[0], (JV, Ite)) or j.fs[0] is BOT):
        return j.fs[0]
    if isinstance(j, Opq) and j.tag in ("CRD", "CRD0"):
        return j.args[0]
    raise Unsupported("json expected: %r" % (j,))


def b_(c):
    return c


# ------------------------------------------------------------------------------- JSON primitives
@C("prim_kind")
def _(E, st, f, inst, args, dty):
    j = jv(E, st, args[0])
    outs = []
    cur = st
    for k in range(7):
        nxt = None
        for s, t in E.fork(cur, E.jkind_is(j, k)):
            if t:
                outs.append(Out("ret", s, Agg(dty, k, ())))
            else:
                nxt = s
        if nxt is None:
            return outs
        cur = nxt
    return outs


@C("prim_bool")
def _(E, st, f, inst, args, dty):
    return E.jbool(jv(E, st, args[0]))


@C("prim_str")
def _(E, st, f, inst, args, dty):
    return E.jstr(jv(E, st, args[0]))


@C("prim_err")
def _(E, st, f, inst, args, dty):
    return Agg(dty, 0, (0,))


@C("prim_next_key")
def _(E, st, f, inst, args, dty):
    p = cellptr(E, st, args[0])
    it = st.iters.get(p.cell)
    if it is None or it[0] != "key":
        raise Unsupported("map access outside the summarised loop")
    if it[1] is None:
        st.iters[p.cell] = ("done",)
        return Agg(dty, 0, ())
    st.iters[p.cell] = ("val", it[1])
    return Agg(dty, 1, (JS(it[1]),))


@C("prim_next_value")
def _(E, st, f, inst, args, dty):
    p = cellptr(E, st, args[0])
    it = st.iters.get(p.cell)
    if it is None or it[0] != "val":
        raise Unsupported("map value outside the summarised loop")
    st.iters[p.cell] = ("used",)
    j = E.get_path(st.cells[p.cell], p.path).fs[0]
    return E.jget(j, it[1])


@C("prim_obj_new")
def _(E, st, f, inst, args, dty):
    return Agg(dty, 0, (JO(()),))


@C("prim_obj_put")
def _(E, st, f, inst, args, dty):
    p = cellptr(E, st, args[0])
    o = E.deref(st, p)
    k = args[1]
    if isinstance(k, JS):
        k = k.s
    else:
        k = E.jstr(k)
    E.store(st, p, Agg(o.ty, o.var, (jput(E, o.fs[0], k, args[2]),)))
    return unit(E, dty)


def jput(E, j, k, v):
    if isinstance(j, Ite):
        return E.ite(j.c, jput(E, j.a, k, v), jput(E, j.b, k, v))
    if isinstance(j, JO):
        ops = j.ops
        if k.lit is not None:
            # drop an earlier put of the same literal key (last wins) if nothing conditional intervenes
            ops = tuple(o for o in ops if not (o[0] == "put" and o[1].lit == k.lit))
        return JO(ops + (("put", k, True, v),))
    return JO((("base", True, j), ("put", k, True, v)))


@C("prim_obj_end")
def _(E, st, f, inst, args, dty):
    return args[0].fs[0]


@C("prim_mk_str")
def _(E, st, f, inst, args, dty):
    return JS(strv(E, st, args[0]))


@C("prim_mk_null")
def _(E, st, f, inst, args, dty):
    return JNull


@C("prim_mk_bool")
def _(E, st, f, inst, args, dty):
    return JB(args[0])


@C("prim_mk_int")
def _(E, st, f, inst, args, dty):
    return JI(args[0])


@C("prim_mk_f64")
def _(E, st, f, inst, args, dty):
    return JF(args[0])


# ------------------------------------------------------------------------------- serde
def is_helper(E, ty):
    d = E.T[ty]
    return d["k"] == "adt" and d["krate"] == "rust_mcp_schema" and ("::_::" in d["name"] or d["name"].split("::")[-1].startswith("__"))


@C("serde::Deserialize::deserialize", "serde::de::Deserialize::deserialize")
def c_de(E, st, f, inst, args, dty):
    ty = f["args"][0]
    if not isinstance(ty, int):
        raise Unsupported("deserialize of ?")
    D = args[0]
    D = E.deref_all(st, D) if isinstance(D, (Ptr, VRef)) else D
    isabs = isinstance(D, Agg) and E.T[D.ty].get("name") == "vharness::AbsDe"
    if is_helper(E, ty):
        if isabs:
            return NotImplemented
        raise Unsupported("helper type from another deserializer")
    if isinstance(D, Agg) and E.T[D.ty].get("name", "").endswith("FlatMapDeserializer"):
        return de_flat(E, st, f, D, ty, dty)
    j = jv(E, st, D)
    ok, val = E.de(ty, j, st)
    return result(E, st, dty, ok, val)


def de_flat(E, st, f, D, ty, dty):
    vec = E.deref_all(st, D.fs[0])
    if isinstance(vec, Opq) and vec.tag == "collected":
        j = vec.args[0]
    elif isinstance(vec, VecV) and not vec.es:
        j = JO(())
    else:
        raise Unsupported("flatten source %r" % (vec,))
    ts = E.ts(ty)
    if ts in ("Map", "Option<Map>"):
        if ts == "Map":
            return Agg(dty, 0, (j,))
        return Agg(dty, 0, (Agg(ty, 1, (j,)),))
    ok, val = E.de(ty, j, st)
    return result(E, st, dty, ok, val)


@C("serde::Serialize::serialize", "serde::ser::Serialize::serialize")
def c_ser(E, st, f, inst, args, dty):
    ty = f["args"][0]
    if is_helper(E, ty):
        return NotImplemented
    sv = args[1]
    sd = E.deref_all(st, sv) if isinstance(sv, (Ptr, VRef)) else sv
    if isinstance(sd, Agg) and E.T[sd.ty].get("name", "").endswith("FlatMapSerializer"):
        # flattening a map: its entries are appended to the enclosing object
        p = cellptr(E, st, sd.fs[0])
        o = E.deref(st, p)           # AbsObjK(AbsObj(json), Option)
        j = E.ser(ty, args[0], st)
        inner = o.fs[0]
        cur = inner.fs[0]
        E.store(st, p, Agg(o.ty, o.var, (Agg(inner.ty, inner.var, (jbase(E, cur, j),)),) + o.fs[1:]))
        return okunit(E, dty)
    if isinstance(sd, (Agg, Sym)) and E.T[sd.ty].get("name") == "vharness::AbsSer":
        j = E.ser(ty, args[0], st)
        return Agg(dty, 0, (j,))
    if isinstance(sd, Opq):
        j = E.ser(ty, args[0], st)
        return Agg(dty, 0, (j,))
    raise Unsupported("serializer %r" % (sd,))


def jbase(E, cur, j):
    """object cur with all entries of j (an object, or null which contributes nothing)"""
    if j is JNull:
        return cur
    if isinstance(j, Ite):
        return E.ite(j.c, jbase(E, cur, j.a), jbase(E, cur, j.b))
    ops = cur.ops if isinstance(cur, JO) else (("base", True, cur),)
    return JO(ops + (("base", True, j),))


@C("serde::__private::de::missing_field")
def _(E, st, f, inst, args, dty):
    ty = E.T[dty]["args"][0]
    if E.opt_inner(ty) is not None:
        return Agg(dty, 0, (Agg(ty, 0, ()),))
    return Agg(dty, 1, (errval(E, dty),))


@C("serde::__private::de::ContentVisitor::new")
def _(E, st, f, inst, args, dty):
    return Opq("ContentVisitor")


@C("serde::__private::de::ContentRefDeserializer::new")
def _(E, st, f, inst, args, dty):
    return Opq("CRD", (jv(E, st, args[0]),))


@C("serde::Deserializer::deserialize_any", "serde::Deserializer::deserialize_map", "serde::Deserializer::deserialize_struct")
def _(E, st, f, inst, args, dty):
    D = args[0]
    if not (isinstance(D, Opq) and D.tag == "CRD"):
        return NotImplemented
    j = D.args[0]
    vis = [a for a in f["args"] if isinstance(a, int)][1]
    vm = E.p.visit_map.get(vis)
    if vm is None:
        raise Unsupported("no visit_map for " + E.ts(vis))
    visv = args[-1]
    outs = []
    for s, t in E.fork(st, E.jkind_is(j, K_OBJ)):
        if t:
            outs.extend(E.retag(E.run(vm, [visv, Agg(E.p.absmap, 0, (j,))], s), dty))
        else:
            outs.append(Out("ret", s, Agg(dty, 1, (errval(E, dty),))))
    return outs


@C("serde::de::DeserializeSeed::deserialize")
def _(E, st, f, inst, args, dty):
    if isinstance(args[0], Opq) and args[0].tag == "ContentVisitor":
        return Agg(dty, 0, (jv(E, st, args[1]),))
    return NotImplemented


@C("serde::de::Error::custom", "serde::de::Error::unknown_variant", "serde::de::Error::missing_field",
   "serde::de::Error::unknown_field", "serde::de::Error::duplicate_field", "serde::de::Error::invalid_type",
   "serde::de::Error::invalid_value", "serde::de::Error::invalid_length", "serde::ser::Error::custom")
def _(E, st, f, inst, args, dty):
    if inst is not None and inst.has_body:
        return NotImplemented
    msg = []
    for a in args:
        try:
            msg.append(E.deref_all(st, a))
        except Unsupported:
            pass
    return Opq("serde_error:" + f["def"].split("::")[-1], [m for m in msg if isinstance(m, (Str, VecV))])


# ------------------------------------------------------------------------------- serde_json
@C("serde_json::from_value", "serde_json::value::from_value")
def _(E, st, f, inst, args, dty):
    ty = E.T[dty]["args"][0]
    ok, val = E.de(ty, jv(E, st, args[0]), st)
    return result(E, st, dty, ok, val)


@C("serde_json::to_value", "serde_json::value::to_value")
def _(E, st, f, inst, args, dty):
    j = E.ser(f["args"][0], args[0], st)
    t = f["args"][0]
    while E.T[t]["k"] == "ref":
        t = E.T[t]["e"]
    if E.p.tstr(t) in ("u128", "i128") and isinstance(j, JI):
        # serde_json refuses integers outside i64 / u64
        return result(E, st, dty, And(zi(j.i) <= 2 ** 64 - 1, zi(j.i) >= -2 ** 63), j)
    return Agg(dty, 0, (j,))


JTEXT = z3.Function("json_text", J, S)
PARSE = z3.Function("json_parse", S, J)
PARSEOK = z3.Function("json_parse_ok", S, B)
_textof = {}


def json_text(E, j):
    if isinstance(j, Ite):
        return E.ite(j.c, json_text(E, j.a), json_text(E, j.b))
    if isinstance(j, JSer):
        try:
            j2 = E.ser_expand(j)
        except Unsupported:
            j2 = j
        if isinstance(j2, (JS, JI, JB)) or j2 is JNull:
            j = j2
    if j is JNull:
        return Str(("null",))
    t = JTEXT(E.jterm(j))
    _textof[t.get_id()] = (t, j)
    axiom(z3.And(PARSEOK(t), PARSE(t) == E.jterm(j)))
    return Str((t,))


@C("serde_json::to_string", "serde_json::ser::to_string")
def _(E, st, f, inst, args, dty):
    j = E.ser(f["args"][0], args[0], st)
    return Agg(dty, 0, (json_text(E, j),))


@C("serde_json::from_str", "serde_json::de::from_str")
def _(E, st, f, inst, args, dty):
    ty = E.T[dty]["args"][0]
    s = strv(E, st, args[0])
    if len(s.parts) == 1 and not isinstance(s.parts[0], str) and s.parts[0].get_id() in _textof:
        ok, val = E.de(ty, _textof[s.parts[0].get_id()][1], st)
        return result(E, st, dty, ok, val)
    t = PARSE(s.term())
    axiom(z3.And(KIND(t) >= 0, KIND(t) <= 6))
    ok, val = E.de(ty, JSym(t), st)
    return result(E, st, dty, And(PARSEOK(s.term()), ok), val)


@C("serde_json::Value::get", "serde_json::value::Value::get")
def _(E, st, f, inst, args, dty):
    j = jv(E, st, args[0])
    k = strv(E, st, args[1])
    E.note_streq(k, k)
    c = And(E.jkind_is(j, K_OBJ), E.jhas(j, k))
    return opt(E, dty, c, VRef(E.jget(j, k)))


@C("std::ops::Index::index")
def _(E, st, f, inst, args, dty):
    t = f["args"][0]
    if E.jty(t) == "Value":
        j = jv(E, st, args[0])
        k = v_(E, st, args[1])
        if isinstance(k, Str):
            c = And(E.jkind_is(j, K_OBJ), E.jhas(j, k))
            return VRef(E.ite(c, E.jget(j, k), JNull))
    while E.T[t]["k"] == "ref":
        t = E.T[t]["e"]
    if E.T[t]["k"] == "str" or E.is_string(t):
        return str_index(E, st, args)
    return NotImplemented


def _as(kind, pay):
    def fn(E, st, f, inst, args, dty):
        j = jv(E, st, args[0])
        c = E.jkind_is(j, kind)
        return opt(E, dty, c, VRef(pay(E, j)) if not is_f(c) else BOT)
    return fn


TABLE["serde_json::Value::as_str"] = _as(K_STR, lambda E, j: E.jstr(j))
TABLE["serde_json::Value::as_object"] = _as(K_OBJ, lambda E, j: j)
TABLE["serde_json::Value::as_array"] = _as(K_ARR, lambda E, j: E.jarr(j))


@C("serde_json::Value::as_bool")
def _(E, st, f, inst, args, dty):
    j = jv(E, st, args[0])
    c = E.jkind_is(j, K_BOOL)
    return opt(E, dty, c, E.jbool(j))


@C("serde_json::Value::as_number")
def _(E, st, f, inst, args, dty):
    j = jv(E, st, args[0])
    c = Or(E.jkind_is(j, K_INT), E.jkind_is(j, K_FLT))
    return opt(E, dty, c, VRef(Opq("Number", (j,))))


def _kindp(k):
    def fn(E, st, f, inst, args, dty):
        return Or(*[E.jkind_is(jv(E, st, args[0]), x) for x in k])
    return fn


for _n, _k in (("is_null", (K_NULL,)), ("is_string", (K_STR,)), ("is_object", (K_OBJ,)), ("is_array", (K_ARR,)), ("is_boolean", (K_BOOL,)), ("is_number", (K_INT, K_FLT))):
    TABLE["serde_json::Value::" + _n] = _kindp(_k)


def i64cond(E, j):
    i = E.jint(j)
    if i is BOT:
        return False, BOT
    rng = (-2 ** 63 <= i < 2 ** 63) if isinstance(i, int) else z3.And(i >= -2 ** 63, i < 2 ** 63)
    return And(E.jkind_is(j, K_INT), rng), i


@C("serde_json::Number::as_i64", "serde_json::Value::as_i64", "serde_json::value::Value::as_i64")
def _(E, st, f, inst, args, dty):
    j = numj(E, st, args[0])
    c, i = i64cond(E, j)
    return opt(E, dty, c, i)


def numj(E, st, a):
    n = v_(E, st, a)
    if isinstance(n, Ite):
        return E.ite(n.c, numj(E, st, VRef(n.a)), numj(E, st, VRef(n.b)))
    if n is BOT:
        return BOT
    if isinstance(n, Opq) and n.tag == "Number":
        return n.args[0]
    if isinstance(n, JV):
        return n
    raise Unsupported("number expected %r" % (n,))


@C("serde_json::Number::as_f64", "serde_json::Value::as_f64")
def _(E, st, f, inst, args, dty):
    j = numj(E, st, args[0])
    c = Or(E.jkind_is(j, K_INT), E.jkind_is(j, K_FLT))
    return opt(E, dty, c, j.v if isinstance(j, JF) else Opq("f64of", (j,)))


# ---- serde_json::Map
M = "serde_json::Map::"


@C(M + "new", M + "with_capacity")
def _(E, st, f, inst, args, dty):
    return JO(())


@C(M + "get")
def _(E, st, f, inst, args, dty):
    j = jv(E, st, args[0])
    k = strv(E, st, args[1])
    return opt(E, dty, E.jhas(j, k), VRef(E.jget(j, k)))


@C(M + "contains_key")
def _(E, st, f, inst, args, dty):
    return E.jhas(jv(E, st, args[0]), strv(E, st, args[1]))


@C(M + "is_empty")
def _(E, st, f, inst, args, dty):
    return Not(jnonempty(E, jv(E, st, args[0])))


def jnonempty(E, j):
    if isinstance(j, JO):
        lits = sorted(x for x in E.jlits(j, set()) if x is not None)
        return Or(*[E.jhas(j, Str((l,))) for l in lits], E.jother(j, set(lits)))
    return E.jother(j, set())


@C(M + "insert")
def _(E, st, f, inst, args, dty):
    p = cellptr(E, st, args[0])
    j = E.deref(st, p)
    k = strv(E, st, args[1])
    old = opt(E, dty, E.jhas(j, k), E.jget(j, k))
    E.store(st, p, jput(E, j, k, args[2]))
    return old


@C(M + "remove")
def _(E, st, f, inst, args, dty):
    p = cellptr(E, st, args[0])
    j = E.deref(st, p)
    k = strv(E, st, args[1])
    old = opt(E, dty, E.jhas(j, k), E.jget(j, k))
    E.store(st, p, jdel(E, j, k))
    return old


def jdel(E, j, k):
    if isinstance(j, Ite):
        return E.ite(j.c, jdel(E, j.a, k), jdel(E, j.b, k))
    if k.lit is None:
        raise Unsupported("removal of a symbolic key")
    if isinstance(j, JO):
        ops = []
        for o in j.ops:
            if o[0] == "put" and o[1].lit == k.lit:
                continue
            ops.append(o)
        if any(o[0] == "base" or o[0] == "put" and o[1].lit is None for o in ops):
            ops.append(("del", k))
        return JO(ops)
    return JO((("base", True, j), ("del", k)))


@C(M + "entry")
def _(E, st, f, inst, args, dty):
    return Opq("entry", (cellptr(E, st, args[0]), strv(E, st, args[1])))


@C("serde_json::map::Entry::and_modify")
def _(E, st, f, inst, args, dty):
    en = args[0]
    p, k = en.args
    j = E.deref(st, p)
    outs = []
    for s, t in E.fork(st, E.jhas(j, k)):
        if not t:
            outs.append(Out("ret", s, en))
            continue
        c = E.new_cell(s, E.jget(j, k))
        for o in E.apply_fn(s, args[1], [Ptr(c)], None):
            if o.kind == "ret":
                E.store(o.st, p, jput(E, E.deref(o.st, p), k, o.st.cells[c]))
                outs.append(Out("ret", o.st, en))
            else:
                outs.append(o)
    return outs


@C("serde_json::map::Entry::or_insert_with", "serde_json::map::Entry::or_insert")
def _(E, st, f, inst, args, dty):
    en = args[0]
    p, k = en.args
    j = E.deref(st, p)
    outs = []
    here = within(p, ("j", k))
    for s, t in E.fork(st, E.jhas(j, k)):
        if t:
            outs.append(Out("ret", s, here))
            continue
        if f["def"].endswith("or_insert"):
            E.store(s, p, jput(E, E.deref(s, p), k, args[1]))
            outs.append(Out("ret", s, here))
            continue
        for o in E.apply_fn(s, args[1], [], None):
            if o.kind == "ret":
                E.store(o.st, p, jput(E, E.deref(o.st, p), k, o.val))
                outs.append(Out("ret", o.st, here))
            else:
                outs.append(o)
    return outs


def within(p, step):
    """the place one step inside a place"""
    if not isinstance(p, Ptr):
        raise Unsupported("a place inside %r" % (p,))
    return Ptr(p.cell, p.path + (step,))


@C(M + "get_mut", "serde_json::Value::get_mut", "serde_json::value::Value::get_mut")
def _(E, st, f, inst, args, dty):
    p = cellptr(E, st, args[0])
    j = E.deref(st, p)
    k = strv(E, st, args[1])
    c = E.jhas(j, k) if f["def"].startswith(M) else And(E.jkind_is(j, K_OBJ), E.jhas(j, k))
    return opt(E, dty, c, within(p, ("j", k)))


@C("serde_json::Value::as_object_mut", "serde_json::value::Value::as_object_mut")
def _(E, st, f, inst, args, dty):
    p = cellptr(E, st, args[0])
    return opt(E, dty, E.jkind_is(E.deref(st, p), K_OBJ), p)


@C("std::ops::IndexMut::index_mut")
def _(E, st, f, inst, args, dty):
    """of a JSON value: null becomes an object, an absent member becomes null; of a JSON object: the member must be there"""
    t = f["args"][0]
    if E.jty(t) not in ("Value", "Map"):
        return NotImplemented
    p = cellptr(E, st, args[0])
    j = E.deref(st, p)
    k = strv(E, st, args[1])
    here = within(p, ("j", k))
    outs = []
    if E.jty(t) == "Map":
        for s, ok in E.fork(st, E.jhas(j, k)):
            outs.append(Out("ret", s, here) if ok else Out("panic", s, f["def"]))
        return outs
    for s, null in E.fork(st, E.jkind_is(j, K_NULL)):
        if null:
            E.store(s, p, JO((("put", k, True, JNull),)))
            outs.append(Out("ret", s, here))
            continue
        for s2, ok in E.fork(s, E.jkind_is(j, K_OBJ)):
            if not ok:
                outs.append(Out("panic", s2, f["def"]))
                continue
            for s3, has in E.fork(s2, E.jhas(j, k)):
                if not has:
                    E.store(s3, p, jput(E, j, k, JNull))
                outs.append(Out("ret", s3, here))
    return outs


def json_members(E, st, x):
    """known (name, value) pairs"""
    x = v_(E, st, x)
    if isinstance(x, Opq) and x.tag == "iter":
        x = v_(E, st, x.args[0])
    if isinstance(x, BoxV):
        x = x.v
    if isinstance(x, Agg) and x.ty is not None and E.T[x.ty].get("name") == "std::option::Option":
        x = VecV(x.fs)
    if isinstance(x, JO) and all(o[0] == "put" and is_t(o[2]) for o in x.ops):
        return [(o[1], o[3]) for o in x.ops]
    if not isinstance(x, VecV) or not all(isinstance(e, Agg) and len(e.fs) == 2 for e in x.es):
        raise Unsupported("members from %r" % (x,))
    return [(strv(E, st, e.fs[0]), e.fs[1]) for e in x.es]


@C("std::iter::Extend::extend")
def _(E, st, f, inst, args, dty):
    if not (isinstance(f["args"][0], int) and E.jty(f["args"][0]) == "Map"):
        raise Unsupported("extension of " + E.ts(f["args"][0]))
    p = cellptr(E, st, args[0])
    x = v_(E, st, args[1])
    if isinstance(x, Ite):
        outs = []
        for s, t in E.fork(st, x.c):
            for k, v in json_members(E, s, x.a if t else x.b):
                E.store(s, p, jput(E, E.deref(s, p), k, v))
            outs.append(Out("ret", s, unit(E, dty)))
        return outs
    if isinstance(x, JV):
        # all members of another object
        E.store(st, p, jover(E, E.deref(st, p), x))
        return unit(E, dty)
    for k, v in json_members(E, st, args[1]):
        E.store(st, p, jput(E, E.deref(st, p), k, v))
    return unit(E, dty)


def jover(E, j, x):
    """the members of x, and those of j it does not have"""
    return JO((j.ops if isinstance(j, JO) else (("base", True, j),)) + (("base", True, x),))


@C("std::iter::FromIterator::from_iter")
def _(E, st, f, inst, args, dty):
    if E.jty(f["args"][0]) not in ("Map", "Value"):
        raise Unsupported("from_iter of " + E.ts(f["args"][0]))
    r = JO(())
    for k, v in json_members(E, st, args[0]):
        r = jput(E, r, k, v)
    return r


# ------------------------------------------------------------------------------- closures
@C("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call")
def _(E, st, f, inst, args, dty):
    t = args[1]
    if not isinstance(t, Agg):
        raise Unsupported("closure arguments %r" % (t,))
    return E.apply_fn(st, args[0], list(t.fs), dty)


# ------------------------------------------------------------------------------- strings
@C("std::string::String::as_str", "std::string::String::as_mut_str", "std::ops::Deref::deref", "std::convert::AsRef::as_ref", "std::borrow::Borrow::borrow", "std::vec::Vec::as_slice", "std::string::String::as_bytes", "std::ops::DerefMut::deref_mut")
def _(E, st, f, inst, args, dty):
    if inst is not None and inst.krate == "rust_mcp_schema":
        return NotImplemented
    v = v_(E, st, args[0])
    if isinstance(v, BoxV):
        p = cellptr(E, st, args[0])
        return Ptr(p.cell, p.path + (("b",),)) if isinstance(p, Ptr) else VRef(v.v)
    return args[0]


@C("std::borrow::ToOwned::to_owned", "std::str::<impl str>::to_owned", "std::string::String::into_boxed_str", "std::str::<impl str>::to_string", "std::str::<impl str>::into_string")
def _(E, st, f, inst, args, dty):
    if inst is not None and inst.krate == "rust_mcp_schema":
        return NotImplemented
    return v_(E, st, args[0])


@C("std::clone::Clone::clone")
def _(E, st, f, inst, args, dty):
    # derived clones are checked to be the identity by their own obligations
    return v_(E, st, args[0])


@C("std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne")
def _(E, st, f, inst, args, dty):
    if inst is not None and inst.has_body:
        return NotImplemented
    a, b = v_(E, st, args[0]), v_(E, st, args[1])
    if isinstance(a, Str) and isinstance(b, Str):
        E.note_streq(a, b)
    r = E.eq(a, b, st)
    return Not(r) if f["def"].endswith("ne") else r


def pattern(E, st, a):
    """a string or char pattern as a string"""
    b = v_(E, st, a)
    if isinstance(b, bool):
        raise Unsupported("string pattern")
    if isinstance(b, int):
        return Str((chr(b),))
    if isinstance(b, (Str, Ite)):
        return strv(E, st, a)
    raise Unsupported("string pattern")


def rtrim(s, n):
    import strlogic
    w = "".join(map(chr, strlogic.WS))
    return s.strip(w) if n == "trim" else s.lstrip(w) if n == "trim_start" else s.rstrip(w)


def trimmed(s, n="trim"):
    if s.lit is not None:
        return mkstr([rtrim(s.lit, n)])
    return Str((ufn(n, S, S)(s.term()),))


@C("std::str::<impl str>::trim", "std::str::<impl str>::trim_start", "std::str::<impl str>::trim_end")
def _(E, st, f, inst, args, dty):
    n = f["def"].split("::")[-1]
    return VRef(trimmed(strv(E, st, args[0]), n))


@C("std::string::String::push_str", "std::string::String::push", "std::ops::AddAssign::add_assign")
def _(E, st, f, inst, args, dty):
    if inst is not None and inst.has_body and inst.krate == "rust_mcp_schema":
        return NotImplemented
    p = cellptr(E, st, args[0])
    a = E.deref(st, p)
    if not isinstance(a, (Str, Ite)):
        return NotImplemented
    E.store(st, p, mkstr([strv(E, st, VRef(a)), pattern(E, st, args[1])]))
    return unit(E, dty)


@C("std::ops::Add::add")
def _(E, st, f, inst, args, dty):
    a = v_(E, st, args[0])
    if not isinstance(a, (Str, Ite)):
        return NotImplemented
    return mkstr([strv(E, st, VRef(a)), strv(E, st, args[1])])


@C("std::string::String::insert_str", "std::string::String::insert")
def _(E, st, f, inst, args, dty):
    if v_(E, st, args[1]) != 0:
        raise Unsupported("insertion inside a string")
    p = cellptr(E, st, args[0])
    E.store(st, p, mkstr([pattern(E, st, args[2]), strv(E, st, args[0])]))
    return unit(E, dty)


@C("std::string::String::clear")
def _(E, st, f, inst, args, dty):
    p = cellptr(E, st, args[0])
    E.store(st, p, Str(()))
    return unit(E, dty)


@C("std::string::String::new", "std::string::String::with_capacity")
def _(E, st, f, inst, args, dty):
    return Str(())


@C("std::string::String::reserve", "std::vec::Vec::reserve", "std::vec::Vec::shrink_to_fit", "std::string::String::shrink_to_fit")
def _(E, st, f, inst, args, dty):
    return unit(E, dty)


@C("std::slice::<impl [T]>::concat")
def _(E, st, f, inst, args, dty):
    v = v_(E, st, args[0])
    if isinstance(v, VecV):
        es = [E.deref_all(st, e) for e in v.es]
        if all(isinstance(e, (Str, Ite)) for e in es):
            return mkstr([strv(E, st, VRef(e)) for e in es])
    raise Unsupported("concat of %r" % (v,))


def strlen(E, s):
    if s.lit is not None:
        return len(s.lit.encode())
    n = ufn("strlen", S, I)(s.term())
    axiom(n >= 0)
    return n


@C("std::str::<impl str>::len", "std::string::String::len")
def _(E, st, f, inst, args, dty):
    return strlen(E, strv(E, st, args[0]))


def boundary(E, s, i):
    """i is the offset of a character of s, or its length"""
    if s.lit is not None and isinstance(i, int):
        b = s.lit.encode()
        return 0 <= i <= len(b) and (i == len(b) or b[i] & 0xC0 != 0x80)
    if isinstance(i, int) and i == 0:
        return True
    n = strlen(E, s)
    r = ufn("char_boundary", S, I, B)(s.term(), zi(i))
    axiom(z3.Implies(r, z3.And(zi(i) >= 0, zi(i) <= zi(n))))
    axiom(z3.Implies(zi(i) == zi(n), r))
    return r


def str_range(E, st, s, r):
    """(start, end) of a range value over a string"""
    r = v_(E, st, r)
    if not isinstance(r, Agg):
        raise Unsupported("string range")
    k = E.T[r.ty]["name"].split("::")[-1]
    n = strlen(E, s)
    if k == "RangeTo":
        return 0, r.fs[0]
    if k == "RangeFrom":
        return r.fs[0], n
    if k == "Range":
        return r.fs[0], r.fs[1]
    if k == "RangeFull":
        return 0, n
    raise Unsupported("string range")


def le(a, b):
    return a <= b if isinstance(a, int) and isinstance(b, int) else zi(a) <= zi(b)


def str_slice(E, s, a, b):
    if s.lit is not None and isinstance(a, int) and isinstance(b, int):
        return mkstr([s.lit.encode()[a:b].decode("utf-8", "replace")])
    if isinstance(a, int) and a == 0 and b is strlen(E, s):
        return s
    t = ufn("slice", S, I, I, S)(s.term(), zi(a), zi(b))
    n = ufn("strlen", S, I)(t)
    axiom(z3.Implies(z3.And(zi(a) >= 0, zi(a) <= zi(b), zi(b) <= zi(strlen(E, s))), n == zi(b) - zi(a)))
    return Str((t,))


@C("std::str::<impl str>::is_char_boundary")
def _(E, st, f, inst, args, dty):
    return boundary(E, strv(E, st, args[0]), v_(E, st, args[1]))


@C("std::str::<impl str>::get")
def _(E, st, f, inst, args, dty):
    s = strv(E, st, args[0])
    a, b = str_range(E, st, s, args[1])
    c = And(le(a, b), boundary(E, s, a), boundary(E, s, b))
    return opt(E, dty, c, VRef(str_slice(E, s, a, b)) if not is_f(c) else BOT)


def str_index(E, st, args):
    s = strv(E, st, args[0])
    a, b = str_range(E, st, s, args[1])
    out = []
    for s2, ok in E.fork(st, And(le(a, b), boundary(E, s, a), boundary(E, s, b))):
        out.append(Out("ret", s2, VRef(str_slice(E, s, a, b))) if ok else Out("panic", s2, "string slice out of range or inside a character"))
    return out


@C("std::string::String::truncate")
def _(E, st, f, inst, args, dty):
    p = cellptr(E, st, args[0])
    s = strv(E, st, VRef(E.deref(st, p)))
    n = v_(E, st, args[1])
    out = []
    for s2, short in E.fork(st, le(n, strlen(E, s))):
        if not short:
            out.append(Out("ret", s2, unit(E, dty)))
            continue
        for s3, ok in E.fork(s2, boundary(E, s, n)):
            if ok:
                E.store(s3, p, str_slice(E, s, 0, n))
            out.append(Out("ret", s3, unit(E, dty)) if ok else Out("panic", s3, "truncate inside a character"))
    return out


@C("std::str::<impl str>::strip_prefix", "std::str::<impl str>::strip_suffix")
def _(E, st, f, inst, args, dty):
    n = f["def"].split("::")[-1]
    a, b = strv(E, st, args[0]), pattern(E, st, args[1])
    pre = n == "strip_prefix"
    if a.lit is not None and b.lit is not None:
        x, y = a.lit, b.lit
        if (x.startswith(y) if pre else x.endswith(y)):
            return Agg(dty, 1, (VRef(mkstr([x[len(y):] if pre else x[:len(x) - len(y)]])),))
        return Agg(dty, 0, ())
    c = ufn("starts_with" if pre else "ends_with", S, S, B)(a.term(), b.term())
    return opt(E, dty, c, VRef(Str((ufn(n, S, S, S)(a.term(), b.term()),))))


@C("std::str::<impl str>::replace")
def _(E, st, f, inst, args, dty):
    a, b, c = strv(E, st, args[0]), pattern(E, st, args[1]), strv(E, st, args[2])
    if a.lit is not None and b.lit is not None and c.lit is not None:
        return mkstr([a.lit.replace(b.lit, c.lit)])
    return Str((ufn("replace", S, S, S, S)(a.term(), b.term(), c.term()),))


@C("std::str::<impl str>::repeat")
def _(E, st, f, inst, args, dty):
    n = v_(E, st, args[1])
    if not isinstance(n, int) or n > 64:
        raise Unsupported("repeat")
    return mkstr([strv(E, st, args[0])] * n)


@C("std::str::<impl str>::is_empty", "std::string::String::is_empty")
def _(E, st, f, inst, args, dty):
    s = strv(E, st, args[0])
    if s.parts and any(isinstance(p, str) and p for p in s.parts):
        return False
    return E.streq(s, Str(()))


@C("std::str::<impl str>::to_lowercase", "std::str::<impl str>::to_uppercase", "std::str::<impl str>::to_ascii_lowercase", "std::str::<impl str>::to_ascii_uppercase")
def _(E, st, f, inst, args, dty):
    n = f["def"].split("::")[-1]
    s = strv(E, st, args[0])
    if s.lit is not None and s.lit.isascii():
        return Str((s.lit.lower() if "lower" in n else s.lit.upper(),))
    return Str((ufn(n, S, S)(s.term()),))


def lower_ascii(s):
    return "".join(ch.lower() if ch.isascii() else ch for ch in s)


@C("std::str::<impl str>::trim_matches", "std::str::<impl str>::trim_start_matches", "std::str::<impl str>::trim_end_matches")
def _(E, st, f, inst, args, dty):
    n = f["def"].split("::")[-1]
    s, p = strv(E, st, args[0]), pattern(E, st, args[1])
    if s.lit is not None and p.lit:
        x = s.lit
        while n != "trim_end_matches" and x.startswith(p.lit):
            x = x[len(p.lit):]
        while n != "trim_start_matches" and x.endswith(p.lit):
            x = x[:-len(p.lit)]
        return VRef(mkstr([x]))
    return VRef(Str((ufn(n, S, S, S)(s.term(), p.term()),)))


@C("std::str::<impl str>::starts_with", "std::str::<impl str>::ends_with", "std::str::<impl str>::contains", "std::str::<impl str>::eq_ignore_ascii_case")
def _(E, st, f, inst, args, dty):
    n = f["def"].split("::")[-1]
    if f["def"].endswith("contains") and isinstance(v_(E, st, args[0]), VecV):
        return NotImplemented
    a, b = strv(E, st, args[0]), pattern(E, st, args[1])
    if a.lit is not None and b.lit is not None:
        x, y = a.lit, b.lit
        return {"starts_with": x.startswith(y), "ends_with": x.endswith(y), "contains": y in x, "eq_ignore_ascii_case": lower_ascii(x) == lower_ascii(y)}[n]
    if n == "eq_ignore_ascii_case":
        for x in (a, b):
            if x.lit is not None and lower_ascii(x.lit) == x.lit and x.lit.upper() == x.lit:
                return E.streq(a, b)        # a text without letters equals only itself
        axiom(Implies(E.streq(a, b), ufn(n, S, S, B)(a.term(), b.term())))
    return ufn(n, S, S, B)(a.term(), b.term())


@C("std::cmp::Ord::cmp", "std::cmp::PartialOrd::partial_cmp")
def _(E, st, f, inst, args, dty):
    if inst is not None and inst.has_body:
        return NotImplemented
    a, b = v_(E, st, args[0]), v_(E, st, args[1])
    oty = dty
    if f["def"].endswith("partial_cmp"):
        oty = E.T[dty]["args"][0]
    if isinstance(a, Str):
        ta, tb = a.term(), b.term()
        lt = ufn("strlt", S, S, B)(ta, tb)
        eqc = E.streq(a, b)
    elif not isinstance(a, Val):
        lt, eqc = zi(a) < zi(b), zi(a) == zi(b)
    else:
        raise Unsupported("ordering of %r" % (a,))
    r = E.ite(eqc, Agg(oty, 1, ()), E.ite(lt, Agg(oty, 0, ()), Agg(oty, 2, ())))
    if f["def"].endswith("partial_cmp"):
        return Agg(dty, 1, (r,))
    return r


@C("std::ops::Not::not")
def _(E, st, f, inst, args, dty):
    if inst is not None and inst.krate == "rust_mcp_schema":
        return NotImplemented
    v = v_(E, st, args[0])
    if E.T[dty]["k"] != "bool":
        raise Unsupported("not of " + E.ts(dty))
    return Not(v)


@C("std::hash::Hash::hash")
def _(E, st, f, inst, args, dty):
    if inst is not None and inst.has_body:
        return NotImplemented
    p = cellptr(E, st, args[1])
    h = E.deref(st, p)
    x = v_(E, st, args[0])
    if isinstance(x, DiscV):
        x = E.disc_int(x.v, x.ty)
    E.store(st, p, Opq("hash", (h, x)))
    return unit(E, dty)


@C("std::convert::From::from", "std::convert::Into::into")
def _(E, st, f, inst, args, dty):
    if inst is not None and inst.has_body:
        return NotImplemented
    if dty is not None and inst is not None:
        v = v_(E, st, args[0])
        if E.is_string(dty) and isinstance(v, (Str, Ite)):
            return v
        if E.jty(dty) == "Value":
            if isinstance(v, Str):
                return JS(v)
            if isinstance(v, JV):
                return v
            if isinstance(v, (bool, z3.BoolRef)):
                return JB(v)
            if isinstance(v, (int, z3.ArithRef)):
                return JI(v)
        if E.T[dty]["k"] == "adt" and E.T[dty]["name"] == "std::vec::Vec" and (isinstance(v, VecV) or isinstance(v, Sym) and E.T[v.ty]["k"] in ("slice", "array", "adt")):
            return v
        if E.T[dty]["k"] in ("int", "uint") and isinstance(v, (int, z3.ArithRef)) and not isinstance(v, bool):
            return v
        if E.T[dty]["k"] == "adt" and E.T[dty].get("box") and E.T[E.T[dty]["args"][0]]["k"] == "dyn":
            return BoxV(v)
    if inst is None and isinstance(args[0], Val) and dty is not None:
        v = v_(E, st, args[0])
        if E.is_string(dty) and isinstance(v, Str):
            return v
        if E.jty(dty) and isinstance(v, JV):
            return v
    if inst is None and dty is not None and type(v_(E, st, args[0])).__name__ in ("Sym", "JSym") and E.T[dty]["k"] == "adt":
        return Opq("into:%s" % dty, (v_(E, st, args[0]),))      # the caller's own conversion into dty: any function
    raise Unsupported("conversion " + f["def"] + " " + (inst.name if inst is not None else "?"))


# ------------------------------------------------------------------------------- formatting
def display(E, st, ty, v, dty=None):
    """[(state, Str)]: text of Display for v : ty"""
    d = E.T[ty]
    while d["k"] == "ref":
        v = E.deref_all(st, v)
        ty = d["e"]
        d = E.T[ty]
    x = E.deref_all(st, v)
    if E.is_string(ty):
        return [(st, x)]
    if d["k"] == "adt" and d.get("box"):
        return display(E, st, d["args"][0], VRef(x.v if isinstance(x, BoxV) else x))
    if d["k"] in ("int", "uint"):
        if isinstance(x, int):
            return [(st, Str((str(x),)))]
        return [(st, Str((ufn("itoa", I, S)(x),)))]
    if d["k"] == "bool":
        r = []
        for s, t in E.fork(st, x):
            r.append((s, Str(("true" if t else "false",))))
        return r
    if E.jty(ty) in ("Value",):
        return [(st, json_text(E, x))]
    if d["k"] not in ("adt", "param"):
        # trait object: the concrete value decides
        if isinstance(x, Ite):
            a, b = display(E, st, ty, x.a), display(E, st, ty, x.b)
            if len(a) == 1 and len(b) == 1 and a[0][0] is st and b[0][0] is st:
                return [(st, E.ite(x.c, a[0][1], b[0][1]))]
        if isinstance(x, BoxV):
            x = x.v
        if isinstance(x, Agg) and isinstance(x.ty, int) and E.T[x.ty]["k"] == "adt" and E.T[x.ty]["krate"] == "rust_mcp_schema":
            ty, d = x.ty, E.T[x.ty]
    inst = E.p.display.get(E.ts(ty))
    if d["k"] == "adt" and d["krate"] == "rust_mcp_schema":
        if inst is None:
            raise Unsupported("no Display for " + E.ts(ty))
        c = E.new_cell(st, x)
        fc = E.new_cell(st, Str(()))
        r = []
        for o in E.run(inst, [Ptr(c), Ptr(fc)], st):
            if o.kind == "panic":
                raise Unsupported("Display panics")
            r.append((o.st, o.st.cells[fc]))
        return r
    return [(st, Str((ufn("display:" + E.ts(ty), U, S)(E.term(x, st)),)))]


@C("std::fmt::rt::Argument::new_display")
def _(E, st, f, inst, args, dty):
    ty = [a for a in f["args"] if isinstance(a, int)][0]
    outs = []
    for s, x in display(E, st, ty, args[0]):
        outs.append(Out("ret", s, Opq("fmtarg", (x,))))
    return outs


@C("std::fmt::rt::Argument::new_debug")
def _(E, st, f, inst, args, dty):
    ty = [a for a in f["args"] if isinstance(a, int)][0]
    x = E.deref_all(st, args[0])
    if isinstance(x, Str):
        return Opq("fmtarg", (Str((ufn("debug_str", S, S)(x.term()),)),))
    return Opq("fmtarg", (Str((ufn("debug:" + E.ts(ty), U, S)(E.term(x, st)),)),))


def template(bs, args):
    out = []
    i = 0
    n = 0
    while i < len(bs):
        b = bs[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            out.append(bytes(bs[i:i + b]).decode())
            i += b
        elif b == 0x80:
            l = bs[i] | bs[i + 1] << 8
            i += 2
            out.append(bytes(bs[i:i + l]).decode())
            i += l
        elif b & 0xC0 == 0xC0:
            fl = b & 0x3F
            if fl & ~8:
                raise Unsupported("format flags")
            if fl & 8:
                n = bs[i] | bs[i + 1] << 8
                i += 2
            out.append(args[n].args[0])
            n += 1
        else:
            raise Unsupported("format template")
    return mkstr(out)


@C("std::fmt::Arguments::new")
def _(E, st, f, inst, args, dty):
    b = v_(E, st, args[0])
    if isinstance(b, Opq) and b.tag.startswith("bytes:"):
        bs = list(bytes.fromhex(b.tag[6:]))
    elif isinstance(b, VecV):
        bs = list(b.es)
    else:
        raise Unsupported("format template %r" % (b,))
    a = v_(E, st, args[1])
    return Opq("fmtargs", (template(bs, list(a.es)),))


@C("std::fmt::Arguments::from_str", "std::fmt::Arguments::new_const")
def _(E, st, f, inst, args, dty):
    return Opq("fmtargs", (strv(E, st, args[0]),))


@C("std::fmt::Formatter::write_fmt")
def _(E, st, f, inst, args, dty):
    p = cellptr(E, st, args[0])
    E.store(st, p, mkstr([E.deref(st, p), args[1].args[0]]))
    return okunit(E, dty)


@C("std::ops::Not::not")
def _(E, st, f, inst, args, dty):
    if inst is not None and inst.krate == "rust_mcp_schema":
        return NotImplemented
    v = v_(E, st, args[0])
    if E.T[dty]["k"] != "bool":
        raise Unsupported("not of " + E.ts(dty))
    return Not(v)


@C("std::hash::Hash::hash")
def _(E, st, f, inst, args, dty):
    """a hasher's state is the sequence of values fed to it"""
    if inst is not None and inst.krate == "rust_mcp_schema":
        return NotImplemented
    p = cellptr(E, st, args[1])
    def fed(ty, v):
        v = E.deref_all(st, v)
        d = E.T[ty]
        while d["k"] == "ref":
            ty = d["e"]
            d = E.T[ty]
        if isinstance(v, Str):
            return [Str((ufn("hashed_str", S, S)(v.term()),))]
        if isinstance(v, (int, z3.ArithRef)):
            return [Str((ufn("hashed_" + E.ts(ty), I, S)(zi(v)),))]
        if d["k"] == "tuple":
            return [x for i, t in enumerate(d["es"]) for x in fed(t, E.proj(v, None, i, t))]
        raise Unsupported("hash of " + E.ts(f["args"][0]))
    E.store(st, p, mkstr([E.deref(st, p)] + fed(f["args"][0], args[0])))
    return E.unit(dty) if hasattr(E, "unit") else Agg(dty, 0, ())


@C("std::fmt::Formatter::write_str", "std::fmt::Write::write_str", "std::fmt::Formatter::pad")
def _(E, st, f, inst, args, dty):
    p = cellptr(E, st, args[0])
    E.store(st, p, mkstr([E.deref(st, p), strv(E, st, args[1])]))
    return okunit(E, dty)


@C("std::fmt::Display::fmt")
def _(E, st, f, inst, args, dty):
    if inst is not None and inst.krate == "rust_mcp_schema":
        return NotImplemented
    p = cellptr(E, st, args[1])
    outs = []
    for s, x in display(E, st, f["args"][0], args[0]):
        E.store(s, p, mkstr([E.deref(s, p), x]))
        outs.append(Out("ret", s, okunit(E, dty)))
    return outs


@C("std::fmt::format")
def _(E, st, f, inst, args, dty):
    return args[0].args[0]


@C("std::string::ToString::to_string")
def _(E, st, f, inst, args, dty):
    return [Out("ret", s, x) for s, x in display(E, st, f["args"][0], args[0])]


@C("std::hint::must_use", "std::convert::identity")
def _(E, st, f, inst, args, dty):
    return args[0]


@C("std::error::Error::source")
def _(E, st, f, inst, args, dty):
    if inst is not None and inst.krate == "rust_mcp_schema":
        return NotImplemented
    return Opq("error_source", (v_(E, st, args[0]),))


# ------------------------------------------------------------------------------- panics
@C("std::rt::panic_fmt", "std::panicking::panic_fmt")
def _(E, st, f, inst, args, dty):
    m = args[0].args[0] if isinstance(args[0], Opq) and args[0].args else "panic"
    return [Out("panic", st, m)]


@C("std::result::unwrap_failed", "std::option::unwrap_failed", "std::option::expect_failed", "std::panicking::panic", "std::panicking::panic_display", "std::panicking::unreachable_display", "std::panicking::panic_explicit", "std::panicking::panic_bounds_check", "std::panicking::assert_failed")
def _(E, st, f, inst, args, dty):
    return [Out("panic", st, f["def"])]


# ------------------------------------------------------------------------------- vectors and iterators
@C("std::vec::Vec::new", "std::vec::Vec::with_capacity")
def _(E, st, f, inst, args, dty):
    return VecV(())


@C("std::default::Default::default")
def _(E, st, f, inst, args, dty):
    if inst is not None and inst.has_body:
        return NotImplemented
    return default_of(E, dty)


def default_of(E, dty):
    d = E.T[dty]
    if E.is_string(dty):
        return Str(())
    j = E.jty(dty)
    if j == "Map":
        return JO(())
    if j == "Value":
        return JNull
    if d["k"] == "adt" and d["name"] == "std::vec::Vec":
        return VecV(())
    if d["k"] == "adt" and d["name"] in ("std::collections::BTreeMap", "std::collections::HashMap"):
        return Opq("emptymap")
    if d["k"] in ("int", "uint"):
        return 0
    if d["k"] == "bool":
        return False
    if d["k"] == "float":
        return Opq("f64:0")
    raise Unsupported("default of " + E.ts(dty))


@C("std::vec::Vec::push")
def _(E, st, f, inst, args, dty):
    p = cellptr(E, st, args[0])
    v = E.deref(st, p)
    if isinstance(v, VecV):
        E.store(st, p, VecV(v.es + (args[1],)))
    else:
        E.store(st, p, Opq("push", (v, args[1])))
    return unit(E, dty)


def veclen(E, v):
    if isinstance(v, VecV):
        return len(v.es)
    if v is BOT:
        return 0
    if isinstance(v, Sym):
        axiom(LEN(v.t) >= 0)
        return LEN(v.t)
    if isinstance(v, Ite):
        return If(v.c, zi(veclen(E, v.a)), zi(veclen(E, v.b)))
    if isinstance(v, Opq) and v.tag == "vmap":
        return veclen(E, v.args[0])
    if isinstance(v, Opq) and v.tag == "push":
        n = veclen(E, v.args[0])
        return n + 1
    raise Unsupported("length of %r" % (v,))


@C("std::vec::Vec::is_empty", "std::slice::<impl [T]>::is_empty")
def _(E, st, f, inst, args, dty):
    n = veclen(E, v_(E, st, args[0]))
    return n == 0


@C("std::vec::Vec::len", "std::slice::<impl [T]>::len")
def _(E, st, f, inst, args, dty):
    return veclen(E, v_(E, st, args[0]))


@C("std::slice::<impl [T]>::iter", "std::iter::IntoIterator::into_iter", "std::vec::Vec::iter", "std::slice::<impl [T]>::into_vec", "std::slice::<impl [T]>::to_vec", "std::iter::Iterator::cloned", "std::iter::Iterator::copied")
def _(E, st, f, inst, args, dty):
    if inst is not None and inst.krate == "rust_mcp_schema":
        return NotImplemented
    n = f["def"].split("::")[-1]
    v = v_(E, st, args[0])
    if n in ("into_vec", "to_vec"):
        return v.v if isinstance(v, BoxV) else v
    if isinstance(v, Opq) and v.tag in ("iter",):
        return v
    if isinstance(v, Opq) and v.tag == "btree_iter":
        return v
    t = E.T[f["args"][0]] if f["args"] and isinstance(f["args"][0], int) else None
    if n == "into_iter" and t is not None and t["k"] == "ref" and E.T[t["e"]]["k"] == "adt" and E.T[t["e"]]["name"] in ("std::collections::BTreeMap", "std::collections::HashMap"):
        return Opq("btree_iter", (v,))
    if n == "into_iter" and t is not None and t["k"] == "adt" and t["name"] not in ("std::vec::Vec",):
        return NotImplemented
    byref = n == "iter" or (n == "into_iter" and isinstance(args[0], (Ptr, VRef)))
    return Opq("iter", (v, byref))


def elem_const(E, ty):
    """the canonical generic element of a type: used as the bound variable of map/any"""
    return E.mkval_const(ty, "elem")


@C("std::iter::Iterator::map")
def _(E, st, f, inst, args, dty):
    it = args[0]
    if not (isinstance(it, Opq) and it.tag == "iter"):
        raise Unsupported("map over %r" % (it,))
    return Opq("itermap", (it, args[1]))


def item_ty(E, f):
    return None


def apply_each(E, st, it, fn, dty_elem):
    """apply fn to each element of a known sequence: [(state, [values])]"""
    v, byref = it.args
    cur = [(st, [])]
    for e in v.es:
        nxt = []
        for s, vs in cur:
            for o in E.apply_fn(s, fn, [VRef(e) if byref else e], dty_elem):
                if o.kind != "ret":
                    raise Unsupported("closure panics")
                nxt.append((o.st, vs + [o.val]))
        cur = nxt
    return cur


def generic_apply(E, st, v, byref, fn, dty_elem, ety):
    """value of fn on the generic element; single path or merged"""
    e = E.mkval_const(ety, "elem")
    outs = E.apply_fn(St0(st), fn, [VRef(e) if byref else e], dty_elem)
    n = len(st.pc)
    r = None
    for o in outs:
        if o.kind != "ret":
            raise Unsupported("closure panics")
        c = And(*o.st.pc[n:])
        val = o.val
        r = val if r is None else (E.ite(c, val, r) if isinstance(val, Val) or isinstance(r, Val) else If(c, val, r))
    return e, r


def St0(st):
    return st.copy()


@C("std::iter::Iterator::collect")
def _(E, st, f, inst, args, dty):
    it = args[0]
    if isinstance(it, Opq) and it.tag == "iter":
        return it.args[0]
    if not (isinstance(it, Opq) and it.tag == "itermap"):
        raise Unsupported("collect of %r" % (it,))
    base, fn = it.args
    v, byref = base.args
    d = E.T[dty]
    if not (d["k"] == "adt" and d["name"] == "std::vec::Vec"):
        raise Unsupported("collect into " + E.ts(dty))
    ety = d["args"][0]
    if isinstance(v, VecV):
        return [Out("ret", s, VecV(vs)) for s, vs in apply_each(E, st, base, fn, ety)]
    if isinstance(v, Sym):
        src = E.elem_ty(v.ty)
        e, r = generic_apply(E, st, v, byref, fn, ety, src)
        if isinstance(r, Str) and isinstance(e, Str) and E.same(r, e):
            return v
        if E.same(r, e):
            return v
        if E.T[src]["k"] == "ref":
            # a Vec of references is identified with the Vec of what they point to
            try:
                if E.same(r, v_(E, st, e)):
                    return v
            except Unsupported:
                pass
        return Opq("vmap", (v, r))
    raise Unsupported("collect over %r" % (v,))


ANY = {}


@C("std::iter::Iterator::any", "std::iter::Iterator::all")
def _(E, st, f, inst, args, dty):
    n = f["def"].split("::")[-1]
    it = v_(E, st, args[0])
    if not (isinstance(it, Opq) and it.tag == "iter"):
        raise Unsupported("any over %r" % (it,))
    v, byref = it.args
    if isinstance(v, VecV):
        outs = []
        for s, vs in apply_each(E, st, it, args[1], None):
            outs.append(Out("ret", s, Or(*vs) if n == "any" else And(*vs)))
        return outs
    if isinstance(v, Sym):
        ety = E.elem_ty(v.ty)
        e, r = generic_apply(E, st, v, byref, args[1], None, ety)
        return quant(E, n, v, e, r)
    raise Unsupported("any over %r" % (v,))


_bodies = []


def body_name(r):
    """one name for all predicates of the generic element that are equivalent"""
    for x, n in _bodies:
        if x.eq(r):
            return n
    for x, n in _bodies:
        s = z3.Solver()
        s.set("timeout", 2000)
        s.add(x != r)
        if s.check() == z3.unsat:
            _bodies.append((r, n))
            return n
    n = "exists:%s" % r.sexpr()
    _bodies.append((r, n))
    return n


def quant(E, n, v, e, r):
    """exists/forall over an unknown sequence: an uninterpreted predicate of the sequence and the body
    (equivalent bodies share their predicate)"""
    r = zb(r)
    if seqs.positional(E, r):
        raise Unsupported("what is asked of an element depends on its position")
    if n == "any" and is_f(r) or n == "all" and is_t(r):
        return n == "all"
    if n == "all":
        return Not(ufn(body_name(zb(Not(r))), U, B)(E.term(v)))
    return ufn(body_name(r), U, B)(E.term(v))


@C("std::iter::Iterator::next")
def _(E, st, f, inst, args, dty):
    p = cellptr(E, st, args[0])
    it = E.deref(st, p)
    if isinstance(p, Ptr) and not p.path and p.cell in st.iters:
        m = st.iters[p.cell]
        if m[0] == "elem":
            st.iters[p.cell] = ("took",)
            return Agg(dty, 1, (m[1],))
        if m[0] == "end":
            return Agg(dty, 0, ())
        raise Unsupported("several elements in one iteration")
    if isinstance(it, Opq) and it.tag == "iter" and isinstance(it.args[0], VecV):
        v, byref = it.args
        if not v.es:
            return Agg(dty, 0, ())
        E.store(st, p, Opq("iter", (VecV(v.es[1:]), byref)))
        return Agg(dty, 1, (VRef(v.es[0]) if byref else v.es[0],))
    raise Unsupported("iteration over an unknown sequence")


@C("std::slice::<impl [T]>::contains")
def _(E, st, f, inst, args, dty):
    v = v_(E, st, args[0])
    x = v_(E, st, args[1])
    if isinstance(v, VecV):
        r = []
        for e in v.es:
            ee = E.deref_all(st, e)
            if isinstance(ee, Str) and isinstance(x, Str):
                E.note_streq(ee, x)
            r.append(E.eq(ee, x, st))
        return Or(*r)
    raise Unsupported("contains on %r" % (v,))


@C("std::slice::<impl [T]>::first")
def _(E, st, f, inst, args, dty):
    v = v_(E, st, args[0])
    if isinstance(v, VecV):
        return Agg(dty, 1, (VRef(v.es[0]),)) if v.es else Agg(dty, 0, ())
    if isinstance(v, Sym):
        ety = E.elem_ty(v.ty)
        e = E.mkval(ety, v.t, "elem0:" + E.ts(v.ty))
        return opt(E, dty, veclen(E, v) > 0, VRef(e))
    raise Unsupported("first of %r" % (v,))


@C("std::slice::<impl [T]>::join")
def _(E, st, f, inst, args, dty):
    v = v_(E, st, args[0])
    sep = strv(E, st, args[1])
    if isinstance(v, VecV):
        parts = []
        for i, e in enumerate(v.es):
            if i:
                parts.append(sep)
            parts.append(E.deref_all(st, e))
        return mkstr(parts)
    return Str((ufn("join", U, S, S)(E.term(v, st), sep.term()),))


# ---- maps (BTreeMap): an opaque mathematical map
BT = "std::collections::BTreeMap::"
HM = "std::collections::HashMap::"


@C(BT + "new", HM + "new")
def _(E, st, f, inst, args, dty):
    return Opq("emptymap")


@C(BT + "insert", HM + "insert")
def _(E, st, f, inst, args, dty):
    p = cellptr(E, st, args[0])
    m = E.deref(st, p)
    E.store(st, p, Opq("mapput", (m, args[1], args[2])))
    c, v = btget(E, st, m, args[1], E.opt_inner(dty))
    return opt(E, dty, c, v)


@C(BT + "entry", HM + "entry")
def _(E, st, f, inst, args, dty):
    return Opq("btentry", (cellptr(E, st, args[0]), args[1]))


@C("std::collections::btree_map::Entry::or_insert", "std::collections::btree_map::Entry::or_insert_with", "std::collections::hash_map::Entry::or_insert", "std::collections::hash_map::Entry::or_insert_with")
def _(E, st, f, inst, args, dty):
    p, k = args[0].args
    m = E.deref(st, p)
    vty = E.T[dty]["e"]
    c, v = btget(E, st, m, k, vty)
    here = within(p, ("m", k, vty))
    outs = []
    for s, t in E.fork(st, c):
        if t:
            outs.append(Out("ret", s, here))
        elif f["def"].endswith("or_insert"):
            E.store(s, p, Opq("mapput", (m, k, args[1])))
            outs.append(Out("ret", s, here))
        else:
            for o in E.apply_fn(s, args[1], [], None):
                if o.kind == "ret":
                    E.store(o.st, p, Opq("mapput", (m, k, o.val)))
                    outs.append(Out("ret", o.st, here))
                else:
                    outs.append(o)
    return outs


@C(BT + "get_mut", HM + "get_mut")
def _(E, st, f, inst, args, dty):
    p = cellptr(E, st, args[0])
    k = v_(E, st, args[1])
    vty = E.T[E.opt_inner(dty)]["e"]
    c, _ = btget(E, st, E.deref(st, p), k, vty)
    return opt(E, dty, c, within(p, ("m", k, vty)))


def btget(E, st, m, k, vty):
    if isinstance(m, Opq) and m.tag == "emptymap":
        return False, BOT
    if isinstance(m, Ite):
        c1, v1 = btget(E, st, m.a, k, vty)
        c2, v2 = btget(E, st, m.b, k, vty)
        return If(m.c, c1, c2), E.ite(m.c, v1, v2)
    es = getattr(m, "entries", None)
    if es is not None:
        # replay: the entries of a real map
        c, v = False, BOT
        for a, x in es:
            e = E.eq(Str((a,)), k, st)
            c, v = Or(e, c), E.ite(e, x, v)
        return c, v
    if isinstance(m, Opq) and m.tag == "mapput":
        c = E.eq(m.args[1], k, st)
        c2, v2 = btget(E, st, m.args[0], k, vty)
        return Or(c, c2), E.ite(c, m.args[2], v2)
    t = E.term(m, st)
    kt = E.term(k, st)
    c = ufn("mhas", U, U, B)(t, kt)
    if vty is None:
        return c, BOT
    pair = ufn("mget", U, U, U)(t, kt)
    return c, E.mkval(vty, pair, "mval:" + E.ts(vty))


@C(BT + "get", HM + "get")
def _(E, st, f, inst, args, dty):
    m = v_(E, st, args[0])
    k = v_(E, st, args[1])
    rt = E.opt_inner(dty)
    vty = E.T[rt]["e"] if E.T[rt]["k"] == "ref" else rt
    c, v = btget(E, st, m, k, vty)
    return opt(E, dty, c, VRef(v))


@C(BT + "contains_key", HM + "contains_key")
def _(E, st, f, inst, args, dty):
    return btget(E, st, v_(E, st, args[0]), v_(E, st, args[1]), None)[0]


def maplen(E, m, st=None):
    if isinstance(m, Opq) and m.tag == "emptymap":
        return 0
    if getattr(m, "entries", None) is not None:
        return len(m.entries)
    if isinstance(m, Ite):
        return If(m.c, zi(maplen(E, m.a, st)), zi(maplen(E, m.b, st)))
    if isinstance(m, Opq) and m.tag == "mapput":
        c, _ = btget(E, st, m.args[0], m.args[1], None)
        n = maplen(E, m.args[0], st)
        if is_f(c):
            return n + 1
        if is_t(c):
            return n
    n = ufn("maplen", U, I)(E.term(m, st))
    axiom(n >= 0)
    return n


@C(BT + "len", HM + "len", BT + "is_empty", HM + "is_empty")
def _(E, st, f, inst, args, dty):
    n = maplen(E, v_(E, st, args[0]), st)
    return n == 0 if f["def"].endswith("is_empty") else n


@C(BT + "iter", BT + "keys", BT + "values")
def _(E, st, f, inst, args, dty):
    return Opq("btree_" + f["def"].split("::")[-1], (v_(E, st, args[0]),))


# ------------------------------------------------------------------------------- boxes
@C("std::boxed::Box::new")
def _(E, st, f, inst, args, dty):
    return BoxV(args[0])


@C("std::boxed::Box::new_uninit")
def _(E, st, f, inst, args, dty):
    return Ptr(E.new_cell(st, Opq("uninit")))


@C("std::boxed::box_assume_init_into_vec_unsafe")
def _(E, st, f, inst, args, dty):
    v = E.deref(st, args[0])
    if not isinstance(v, VecV):
        raise Unsupported("vec! contents %r" % (v,))
    return v


@C("std::mem::take")
def _(E, st, f, inst, args, dty):
    p = cellptr(E, st, args[0])
    v = E.deref(st, p)
    if isinstance(v, (Agg, Sym, Ite)) and E.opt_inner(dty) is not None:
        E.store(st, p, Agg(dty, 0, ()))
    elif E.is_string(dty):
        E.store(st, p, Str(()))
    else:
        E.store(st, p, default_of(E, dty))
    return v


@C("std::bool::<impl bool>::then", "std::bool::<impl bool>::then_some", "core::bool::<impl bool>::then", "core::bool::<impl bool>::then_some")
def _(E, st, f, inst, args, dty):
    outs = []
    for s, t in E.fork(st, zb(args[0])):
        if not t:
            outs.append(Out("ret", s, Agg(dty, 0, ())))
        elif f["def"].endswith("then_some"):
            outs.append(Out("ret", s, Agg(dty, 1, (args[1],))))
        else:
            for o in E.apply_fn(s, args[1], [], E.opt_inner(dty)):
                outs.append(Out("ret", o.st, Agg(dty, 1, (o.val,))) if o.kind == "ret" else o)
    return outs


@C("std::mem::replace")
def _(E, st, f, inst, args, dty):
    p = cellptr(E, st, args[0])
    v = E.deref(st, p)
    E.store(st, p, args[1])
    return v


# ------------------------------------------------------------------------------- integer conversions
RANGE = {"u8": (0, 2 ** 8 - 1), "u16": (0, 2 ** 16 - 1), "u32": (0, 2 ** 32 - 1), "u64": (0, 2 ** 64 - 1), "u128": (0, 2 ** 128 - 1), "usize": (0, 2 ** 64 - 1),
         "i8": (-2 ** 7, 2 ** 7 - 1), "i16": (-2 ** 15, 2 ** 15 - 1), "i32": (-2 ** 31, 2 ** 31 - 1), "i64": (-2 ** 63, 2 ** 63 - 1), "i128": (-2 ** 127, 2 ** 127 - 1), "isize": (-2 ** 63, 2 ** 63 - 1)}


@C("std::convert::TryFrom::try_from", "std::convert::TryInto::try_into")
def _(E, st, f, inst, args, dty):
    if inst is not None and inst.has_body and inst.krate == "rust_mcp_schema":
        return NotImplemented
    t = E.p.tstr(E.T[dty]["args"][0])
    v = v_(E, st, args[0])
    if t in RANGE and (isinstance(v, int) or (isinstance(v, z3.ExprRef) and z3.is_int(v))):
        lo, hi = RANGE[t]
        return result(E, st, dty, And(zi(v) >= lo, zi(v) <= hi), v)
    return NotImplemented


def exists(E, v, ety, pred):
    """some element of the vector v satisfies pred"""
    if isinstance(v, VecV):
        return Or(*[pred(x) for x in v.es])
    if isinstance(v, Ite):
        return If(v.c, exists(E, v.a, ety, pred), exists(E, v.b, ety, pred))
    if v is BOT:
        return Or()  # the vector of another kind of value: no elements
    e = E.mkval_const(ety, "elem")
    return quant(E, "any", v, e, pred(e))


import seqs
