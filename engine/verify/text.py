"""Contracts of the textual forms: message text (FromStr / Display), string enumerations, request ids,
protocol versions."""
from envelope import *

VERSIONS = [("V2024_11_05", "2024-11-05"), ("V2025_03_26", "2025-03-26"), ("V2025_06_18", "2025-06-18"),
            ("V2025_11_25", "2025-11-25"), ("V2026_07_28", "2026-07-28"), ("Draft", "DRAFT")]


def written(c, fname, goal, pre=None):
    """Display contract: goal(k, text) over the text written to an empty formatter"""
    def post(k, o):
        txt = k.after(1, o)
        return [("formatting succeeds", k.E.cv(o.val, None, 0))] + goal(k, o, txt)
    contract(c, fname, post, prefn=pre)


def json_display(c, t):
    n = "<%s as Display>::fmt" % t
    ti = c.ty(t)

    def goal(k, o, txt):
        E = k.E
        return [("writes the JSON text of the message", E.is_text_of(txt, E.ser(ti, k.arg(0), o.st)))]
    written(c, n, goal)


def json_from_str(c, t):
    n = "<%s as FromStr>::from_str" % t
    ti = c.ty(t)

    def post(k, o):
        E = k.E
        s = k.arg(0)
        text, j = E.parse_text(s)
        ok, val = (False, None) if text is False else E.de(ti, j, o.st)
        ok = And(text, ok)
        got = E.cv(o.val, None, 0)
        g = [("accepts exactly the JSON texts of the type", Eqb(got, ok))]
        if not is_f(got) and val is not None:
            g.append(("reads the value of the text", Implies(And(got, ok), E.eq(E.proj(o.val, 0, 0, None), val, o.st))))
        if not is_t(got):
            g.append(("otherwise reports a parse error", Implies(Not(got), rpc_err(c, E, o.st, E.proj(o.val, 1, 0, None), -32700, data="any"))))
        return g
    contract(c, n, post)


def message_texts(c):
    for n in names(c, r"^<(\w+) as (Display|FromStr)>::\w+$"):
        t = re.match(r"<(\w+) as", n).group(1)
        if t not in c.spec["structs"] and t not in c.spec["untagged"]:
            continue
        if t in ("RequestId", "SdkError", "UnknownTool", "CallToolError", "ProtocolVersion", "ProgressToken"):
            continue
        if t not in c.p.seri:
            continue
        if "Display" in n:
            json_display(c, t)
        else:
            json_from_str(c, t)


# ---------------------------------------------------------------------------- string enumerations
def strenum_texts(c):
    for n in names(c, r"^<(\w+) as (Display|FromStr)>::\w+$|^<(\w+) as TryFrom<(&str|&String|String)>>::try_from$|^<\w+ as From<&str>>::from$"):
        t = re.match(r"<(\w+) as", n).group(1)
        tab = c.spec["strenums"].get(t)
        if tab is None:
            continue
        strenum_text(c, n, t, tab)


def strenum_text(c, n, t, tab):
    ti = c.ty(t)
    if "Display" in n:
        def goal(k, o, txt):
            E = k.E
            w = by_variant(c, E, k.arg(0), ti, lambda x, fs, ps: lits(tab[x]))
            return [("writes the wire string", E.streq(txt, w))]
        return written(c, n, goal)

    def post(k, o):
        E = k.E
        s = k.arg(0)
        if "From<" in n and "TryFrom" not in n:
            # total conversion: the listed strings select their alternative
            return [("%r selects %s" % (w, v), Implies(E.streq(s, Str((w,))), E.cv(o.val, ti, c.vidx(ti, v)))) for v, w in tab.items()]
        got = E.cv(o.val, None, 0)
        oks = [E.streq(s, Str((w,))) for w in tab.values()]
        g = [("accepts exactly the listed strings", Eqb(got, Or(*oks)))]
        if not is_f(got):
            for v, w in tab.items():
                g.append(("%r selects %s" % (w, v), Implies(And(got, E.streq(s, Str((w,)))), E.cv(E.proj(o.val, 0, 0, None), ti, c.vidx(ti, v)))))
        if t == "StringSchemaFormat" and "FromStr" in n and not is_t(got) and "StringSchemaFormatError" in c.p.local_adts:
            et = c.ty("StringSchemaFormatError")
            err = E.proj(o.val, 1, 0, et)
            g.append(("otherwise names the string", Implies(Not(got), E.streq(fieldv(c, E, err, et, "invalid_value"), s))))
        return g
    contract(c, n, post)


# ---------------------------------------------------------------------------- request ids, message types
def request_id_text(c):
    ti = c.ty("RequestId")
    n = "<RequestId as Display>::fmt"
    if c.has(n):
        def goal(k, o, txt):
            E = k.E
            v = k.arg(0)
            si, ii = c.vidx(ti, "String"), c.vidx(ti, "Integer")
            s, i = E.proj(v, si, 0, c.T[ti]["vs"][si]["fields"][0][1]), E.proj(v, ii, 0, c.T[ti]["vs"][ii]["fields"][0][1])
            return [("a string id is written as is", Implies(E.cv(v, ti, si), E.streq(txt, s))),
                    ("an integer id is written in decimal", Implies(E.cv(v, ti, ii), E.streq(txt, Str((contracts.ufn("itoa", I, S)(zi(i)),)))))]
        written(c, n, goal)
    n = "<MessageTypes as Display>::fmt"
    if c.has(n):
        def goal2(k, o, txt):
            return [("writes the kind", k.E.streq(txt, by_variant(c, k.E, k.arg(0), c.ty("MessageTypes"), lambda x, fs, ps: lits(x))))]
        written(c, n, goal2)


# ---------------------------------------------------------------------------- protocol versions
def protocol_versions(c):
    t = "ProtocolVersion"
    ti = c.ty(t)
    with c.guard(t):
        have = [vname(x) for x in c.T[ti]["vs"]]
        if have != [v for v, _ in VERSIONS]:
            raise Missing("protocol versions are %s" % have)
        c.rec("the listed versions in release order", "proved", backend="executor")
    tab = dict(VERSIONS)

    def goal(k, o, txt):
        return [("writes the version string", k.E.streq(txt, by_variant(c, k.E, k.arg(0), ti, lambda x, fs, ps: lits(tab[x]))))]
    written(c, "<ProtocolVersion as Display>::fmt", goal)
    contract(c, "<ProtocolVersion as Into<String>>::into", lambda k, o: [
        ("is the version string", k.E.streq(o.val, by_variant(c, k.E, k.arg(0), ti, lambda x, fs, ps: lits(tab[x]))))])

    def tf(k, o):
        E = k.E
        s = k.arg(0)
        got = E.cv(o.val, None, 0)
        g = [("accepts exactly the known version strings", Eqb(got, Or(*[E.streq(s, Str((w,))) for _, w in VERSIONS])))]
        if not is_f(got):
            g += [("%r" % w, Implies(And(got, E.streq(s, Str((w,)))), E.cv(E.proj(o.val, 0, 0, None), ti, c.vidx(ti, v)))) for v, w in VERSIONS]
        if not is_t(got):
            ei = c.ty("ParseProtocolVersionError")
            g.append(("the error names the refused text", Implies(Not(got), E.streq(fieldv(c, E, E.proj(o.val, 1, 0, None), ei, "details"), s))))
        return g
    contract(c, "<ProtocolVersion as TryFrom<&str>>::try_from", tf)
    contract(c, "ProtocolVersion::latest", lambda k, o: [("is the newest released version", k.E.cv(o.val, ti, c.vidx(ti, "V2026_07_28")))])

    def sv(k, o):
        E = k.E
        all_ = [Agg(ti, c.vidx(ti, v), ()) for v, _ in VERSIONS]
        want = E.ite(k.arg(0), VecV(tuple(all_)), VecV(tuple(all_[:-1])))
        return [("every version, the draft only on request", E.eq(o.val, want, o.st))]
    contract(c, "ProtocolVersion::supported_versions", sv)

    def er(k, o, txt):
        d = fieldv(c, k.E, k.arg(0), c.ty("ParseProtocolVersionError"), "details")
        want = contracts.mkstr([lits("Unsupported protocol version : "), d, lits(". Supported versions: " + ", ".join(w for v, w in VERSIONS if v != "Draft"))])
        return [("names the refused text and the supported versions", k.E.streq(txt, want))]
    written(c, "<ParseProtocolVersionError as Display>::fmt", er)
    order = {v: i for i, (v, _) in enumerate(VERSIONS)}
    for n, f in (("<ProtocolVersion as PartialEq>::eq", lambda a, b: a == b),):
        if c.has(n):
            def eq(k, o):
                E = k.E
                return [("equal exactly when the same version", Eqb(o.val, Or(*[And(E.cv(k.arg(0), ti, i), E.cv(k.arg(1), ti, i)) for i in range(len(VERSIONS))])))]
            contract(c, n, eq)
    for n, mk_ in (("<ProtocolVersion as Ord>::cmp", False), ("<ProtocolVersion as PartialOrd>::partial_cmp", True)):
        if c.has(n):
            def oc(k, o, mk_=mk_):
                E = k.E
                r = E.proj(o.val, 1, 0, None) if mk_ else o.val
                g = [("always comparable", E.cv(o.val, None, 1))] if mk_ else []
                oi = E.ty_of(r) if hasattr(E, "ty_of") else None
                for i in range(len(VERSIONS)):
                    for j in range(len(VERSIONS)):
                        w = 0 if i < j else 1 if i == j else 2
                        g.append(("%s against %s follows release order" % (VERSIONS[i][0], VERSIONS[j][0]), Implies(And(E.cv(k.arg(0), ti, i), E.cv(k.arg(1), ti, j)), E.cv(r, ordering_ty(c), w))))
                return g
            contract(c, n, oc)


def ordering_ty(c):
    return c.ty("Ordering")


def text_all(c):
    message_texts(c)
    strenum_texts(c)
    request_id_text(c)
    protocol_versions(c)
