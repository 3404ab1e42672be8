"""Function contracts, shared machinery: symbolic call of one function of /repo and the families of
postconditions (wrapping, narrowing, constants, constructors, builders)."""
from wire import *


class Call:
    """one symbolic call: arguments are arbitrary values of the parameter types"""

    def __init__(self, c, fname, fix=None, variants=None):
        self.c = c
        self.name = fname
        self.inst = c.fn(fname)
        self.E = c.engine()
        self.st = X.St()
        b = self.inst.body
        self.tys = [b.locals[i + 1] for i in range(b.argc)]
        self.names = self.argnames(b)
        self.args, self.vals, self.cells = [], [], []
        for i, t in enumerate(self.tys):
            self._arg(i, t, (fix or {}).get(i, (fix or {}).get(self.names[i])))
        self.ret = b.locals[0]
        self.outs = None

    def argnames(self, b):
        nm = {}
        for d in b.dbg or []:
            try:
                n, l = d[0], d[1]
            except Exception:
                continue
            if isinstance(l, list):
                l = l[0] if not l[1] else None
            if isinstance(l, int) and 1 <= l <= b.argc and l not in nm:
                nm[l] = n
        return [nm.get(i + 1, "_%d" % (i + 1)) for i in range(b.argc)]

    def _arg(self, i, t, fixed):
        c, E = self.c, self.E
        d = c.T[t]
        if d["k"] == "ref":
            et = d["e"]
            if c.p.tstr(et) in ("Formatter", "DefaultHasher"):
                v = Str(())
            else:
                v = fixed if fixed is not None else E.mkval(et, self.names[i], None)
            cell = E.new_cell(self.st, v)
            self.args.append(Ptr(cell))
            self.cells.append(cell)
        else:
            v = fixed if fixed is not None else E.mkval(t, self.names[i], None)
            self.args.append(v)
            self.cells.append(None)
        self.vals.append(v)

    def arg(self, n):
        return self.vals[n if isinstance(n, int) else self.names.index(n)]

    def run(self, pre=None):
        if pre is not None:
            for x in (pre if isinstance(pre, list) else [pre]):
                self.E.assume(self.st, x)
        self.outs = self.c.run(self.E, self.inst, self.args, self.st)
        return self.outs

    def after(self, i, o):
        return o.st.cells[self.cells[i if isinstance(i, int) else self.names.index(i)]]

    def res(self, o):
        return self.E.deref_all(o.st, o.val) if isinstance(o.val, (Ptr, VRef, Ite)) else o.val


def contract(c, fname, post, fix=None, pre=None, label=None, hint=None, prefn=None):
    """post(k, o) -> [(name, goal)] for every returning path; no path may panic"""
    with c.guard(label or fname):
        k = Call(c, fname, fix)
        outs = k.run(prefn(k) if prefn else pre)
        h = hint or {"fn": fname}
        rets = c.no_panic(outs, hint=h)
        if not rets:
            c.fail("returns", "no path returns")
        for o in rets:
            for nm, goal in post(k, o):
                c.prove(nm, o.st.pc, goal, hint=h)


# ---------------------------------------------------------------------------- value helpers
def fieldv(c, E, v, ti, name, var=0):
    i, ft = c.fidx(ti, name, var)
    return E.proj(v, var, i, ft)


def lits(s):
    return Str((s,)) if s else Str(())


def is_opt(E, v):
    return E.cv(v, None, 1)


def mk(c, tstr, **kw):
    """struct literal of a specified type"""
    ti = c.ty(tstr)
    fs = c.T[ti]["vs"][0]["fields"]
    out = []
    for n, ft in fs:
        if n not in kw:
            raise Missing("member %s of %s" % (n, tstr))
        v = kw[n]
        if v is None:
            v = Agg(ft, 0, ())
        elif isinstance(v, tuple) and v and v[0] == "some":
            v = Agg(ft, 1, (v[1],))
        elif isinstance(v, str):
            v = lits(v)
        out.append(v)
    extra = set(kw) - {n for n, _ in fs}
    if extra:
        raise Missing("members %s of %s" % (sorted(extra), tstr))
    return Agg(ti, 0, out)


def mkvar(c, tstr, var, *fs):
    ti = c.ty(tstr)
    return Agg(ti, c.vidx(ti, var), fs)


def some(c, E, ft, v):
    return Agg(ft, 1, (v,))


def set_field(c, E, v, ti, name, new, var=0):
    fs = c.T[ti]["vs"][var]["fields"]
    return Agg(ti, var, [new if n == name else E.proj(v, var, i, ft) for i, (n, ft) in enumerate(fs)])


def consts_of(c, tname):
    """members whose value the specification fixes"""
    s = c.spec["structs"].get(tname)
    return {f["f"]: f["const"] for f in s["fields"] if "const" in f} if s else {}


# ---------------------------------------------------------------------------- F1 wrapping conversions
def paths(c, ty, want, depth, seen=()):
    """constructor paths from type ty down to payload type `want` (tstr): lists of (type, variant)"""
    d = c.T[ty]
    if d["k"] != "adt":
        return []
    if d.get("box"):
        return [[("box", ty)] + p for p in ([[]] if c.p.tstr(d["args"][0]) == want else paths(c, d["args"][0], want, depth, seen))]
    if d["krate"] != "rust_mcp_schema" or not d["deep"] or d["kind"] != "Enum" or ty in seen or depth == 0:
        return []
    r = []
    for vi, v in enumerate(d["vs"]):
        if len(v["fields"]) != 1 or not v["fields"][0][0].isdigit():
            continue
        ft = v["fields"][0][1]
        if c.p.tstr(ft) == want:
            r.append([(ty, vi)])
        else:
            r += [[(ty, vi)] + p for p in paths(c, ft, want, depth - 1, seen + (ty,))]
    return r


def best_path(c, ty, want):
    ps = paths(c, ty, want, 3)
    if not ps:
        return None
    n = min(len(p) for p in ps)
    ps = [p for p in ps if len(p) == n]
    if len(ps) > 1:
        named = [p for p in ps if c.T[p[-1][0]]["vs"][p[-1][1]]["name"].split("::")[-1] == want]
        if len(named) != 1:
            return None
        ps = named
    return ps[0]


def wrap(c, path, x):
    for ty, vi in reversed(path):
        x = BoxV(x) if ty == "box" else Agg(ty, [vi][0], (x,))
    return x


def names(c, pat):
    return [n for n in sorted(c.roots) if re.search(pat, n)]


def from_pair(n):
    m = re.match(r"<(.+?) as (From|TryFrom)<(.+)>>::(from|try_from)$", n)
    return (m.group(1), m.group(3)) if m else None


def wrapping(c, n, path):
    def post(k, o):
        return [("holds its argument unchanged in the matching alternative", k.E.eq(o.val, wrap(c, path, k.arg(0)), o.st))]
    contract(c, n, post)


def rpc_err(c, E, st, got, code, msg=None, data=None, ty="RpcError"):
    """goal: got is the error with this code (and message, and data)"""
    ti = c.ty(ty)
    g = [E.eq(fieldv(c, E, got, ti, "code"), code)]
    if msg is not None:
        g.append(E.eq(fieldv(c, E, got, ti, "message"), msg if isinstance(msg, Str) else lits(msg), st))
    if data is None:
        g.append(E.cv(fieldv(c, E, got, ti, "data"), None, 0))
    elif data != "any":
        g.append(E.eq(fieldv(c, E, got, ti, "data"), data, st))
    return And(*g)


def path_cond(c, E, v, path):
    cs = []
    for ty, vi in path:
        if ty == "box":
            v = E.unbox(v)
            continue
        cs.append(E.cv(v, ty, vi))
        v = E.proj(v, vi, 0, c.T[ty]["vs"][vi]["fields"][0][1])
    return And(*cs), v


def narrowing(c, n, path):
    def post(k, o):
        E = k.E
        sel, payload = path_cond(c, E, k.arg(0), path)
        ok = E.cv(o.val, None, 0)
        return [("succeeds exactly on the matching alternative", Eqb(ok, sel)),
                ("hands back the payload unchanged", Implies(And(ok, sel), E.eq(E.proj(o.val, 0, 0, None), payload, o.st)) if not is_f(ok) else True),
                ("otherwise reports an internal error", Implies(Not(ok), rpc_err(c, E, o.st, E.proj(o.val, 1, 0, None), -32603, data="any")) if not is_t(ok) else True)]
    contract(c, n, post)
