"""Runs the real code on concrete inputs and judges what it does by the same contracts.

Two uses:
 * replay of a counterexample: the arguments under the solver's model are turned into Rust values, the real
   function of /repo's current tree is called on them, and the postconditions are evaluated on what it
   returned;
 * bounded stand-in for a unit the verifier could not decide (labelled bounded, never counted as proved):
   the same with generated arguments.
The real code is compiled from a copy of /repo's src in which only visibility is widened (so that private
members can be set and read)."""
import hashlib, json, os, pickle, random, re, shutil, subprocess, sys, time
import build
from core import *
import core, sym

MAXD = 6


class NoReplay(Exception):
    pass


# ---------------------------------------------------------------------------- concrete values
class Tok(Opq):
    """a known value of a library type the logic treats as opaque (maps, floats)"""
    __slots__ = ("entries", "num", "shown")

    def __init__(self, tag, entries=None, num=None):
        super().__init__(tag, ())
        self.entries = entries
        self.num = num
        self.shown = None


def mk_map(entries):
    entries = tuple(sorted(entries, key=lambda e: e[0]))
    if not entries:
        return Tok("emptymap", ())
    return Tok("map:" + repr(entries), entries)


def dyn_err(s):
    """an error of an unknown type that displays as s"""
    t = Tok("dyn:" + s)
    t.shown = s
    return t


def mk_f64(x):
    return Tok("f64:0" if x == 0 else "f64:%r" % float(x), num=float(x))


def jv(x):
    """python JSON -> concrete document"""
    if x is None:
        return JNull
    if isinstance(x, bool):
        return JB(x)
    if isinstance(x, int):
        return JI(x)
    if isinstance(x, float):
        return JF(mk_f64(x))
    if isinstance(x, str):
        return JS(Str((x,)) if x else Str(()))
    if isinstance(x, list):
        return JA(VecV([jv(y) for y in x]))
    return JO([("put", Str((k,)) if k else Str(()), True, jv(v)) for k, v in x.items()])


def pj(E, v):
    """concrete document -> python JSON"""
    if v is JNull:
        return None
    if isinstance(v, JB):
        return pybool(v.b)
    if isinstance(v, JI):
        return pyint(v.i)
    if isinstance(v, JF):
        return v.v.num if isinstance(v.v, Tok) else pynum(E, v.v)
    if isinstance(v, JS):
        return pystr(v.s)
    if isinstance(v, JA):
        return [pj(E, x) for x in v.v.es]
    if isinstance(v, JO):
        d = {}
        for o in v.ops:
            if o[0] == "put":
                if pybool(o[2]):
                    d[pystr(o[1])] = pj(E, o[3])
            elif o[0] == "del":
                d.pop(pystr(o[1]), None)
            elif pybool(o[1]):
                d.update(pj(E, o[2]))
        return d
    if isinstance(v, JSer):
        return pj(E, E.jforce(v) if not E.opaque_ser(v) else E.ser_map(v))
    if isinstance(v, Ite) and isinstance(v.c, bool):
        return pj(E, v.a if v.c else v.b)
    if isinstance(v, Opq) and v.tag == "Number":
        return pj(E, v.args[0])
    raise NoReplay("document %r" % (v,))


def parse_json(s):
    """the document of a JSON text as the library reads it, or ValueError"""
    def no(x):
        raise ValueError(x)

    def whole(x):
        i = int(x)
        return i if -2 ** 63 <= i < 2 ** 64 and x != "-0" else float(x)

    def real(x):
        f = float(x)
        if f in (float("inf"), float("-inf")):
            raise ValueError(x)
        return f

    def text(o):
        if isinstance(o, str):
            o.encode("utf-8")
        elif isinstance(o, list):
            for y in o:
                text(y)
        elif isinstance(o, dict):
            for k, y in o.items():
                text(k)
                text(y)
        return o
    return text(json.loads(s, parse_constant=no, parse_int=whole, parse_float=real))


def pynum(E, v):
    if isinstance(v, Opq) and v.tag == "f64of":
        return float(pj(E, v.args[0]))
    if isinstance(v, Opq) and v.tag == "f64:0":
        return 0.0
    raise NoReplay("number %r" % (v,))


def pybool(b):
    if isinstance(b, bool):
        return b
    s = z3.simplify(b)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    raise NoReplay("condition %s" % b)


def pyint(i):
    if isinstance(i, int):
        return i
    s = z3.simplify(i)
    if z3.is_int_value(s):
        return s.as_long()
    raise NoReplay("integer %s" % i)


def pystr(s):
    if isinstance(s, Str):
        if s.lit is not None:
            return s.lit
        if all(isinstance(p, str) for p in s.parts):
            return "".join(s.parts)
        l = sym.lit_of(s.term())
        if l is not None:
            return l
    raise NoReplay("string %r" % (s,))


_DE_MEMO = {}


class CE(X.Engine):
    """the same engine on concrete values: library containers are taken apart"""

    def as_map(self, v):
        """a library map taken apart, None if v is not one"""
        if isinstance(v, Opq) and v.tag == "emptymap":
            return []
        if isinstance(v, Opq) and v.tag == "mapput":
            m = self.as_map(v.args[0])
            if m is None:
                return None
            k = pystr(v.args[1])
            return sorted([(a, x) for a, x in m if a != k] + [(k, v.args[2])], key=lambda e: e[0])
        if isinstance(v, Tok) and v.entries is not None:
            return sorted(v.entries, key=lambda e: e[0])
        return None

    def eq(self, a, b, st=None):
        if isinstance(a, Opq) and a.tag in ("emptymap", "mapput") or isinstance(b, Opq) and b.tag in ("emptymap", "mapput"):
            x, y = self.as_map(a), self.as_map(b)
            if x is not None and y is not None:
                if [k for k, _ in x] != [k for k, _ in y]:
                    return False
                return And(*[self.eq(p, q, st) for (_, p), (_, q) in zip(x, y)])
        if isinstance(a, Tok) and isinstance(b, Tok) and a.entries is not None and b.entries is not None:
            if [k for k, _ in a.entries] != [k for k, _ in b.entries]:
                return False
            return And(*[self.eq(x, y, st) for (_, x), (_, y) in zip(a.entries, b.entries)])
        if isinstance(a, Tok) and isinstance(b, Opq) or isinstance(b, Tok) and isinstance(a, Opq):
            if isinstance(a, Opq) and isinstance(b, Opq):
                if a.tag.startswith("f64of") or b.tag.startswith("f64of"):
                    try:
                        x = a.num if isinstance(a, Tok) else pynum(self, a)
                        y = b.num if isinstance(b, Tok) else pynum(self, b)
                        return x == y
                    except NoReplay:
                        pass
                else:
                    return a.tag == b.tag
        return super().eq(a, b, st)

    def parse_text(self, s):
        try:
            return True, jv(parse_json(pystr(s)))
        except ValueError:
            return False, JNull

    def is_text_of(self, txt, j):
        s = pystr(txt)
        d = pj(self, j)
        try:
            got = parse_json(s)
        except ValueError:
            return False
        compact = "." in s or "e" in s or len(s) == len(json.dumps(got, ensure_ascii=False, separators=(",", ":")).replace("\x7f", "\x7f"))
        return compact and got == d and json.dumps(got, sort_keys=True) == json.dumps(d, sort_keys=True)

    def jkind_is(self, j, k):
        if isinstance(j, Opq) and j.tag == "Number":
            return self.jkind_is(j.args[0], k)
        return super().jkind_is(j, k)

    def jforce(self, j):
        if isinstance(j, JSer) and self.opaque_ser(j):
            r = self.ser_map(j)
            return j if r is None else r
        return super().jforce(j)

    def ser_map(self, j):
        return None

    def ser(self, ty, v, st):
        v = self.deref_all(st, v) if st is not None else v
        d = self.T[ty]
        if d["k"] == "adt" and d["name"] == "std::vec::Vec" and isinstance(v, VecV):
            return JA(VecV([self.ser(d["args"][0], x, st) for x in v.es]))
        if d["k"] == "adt" and isinstance(v, Tok) and v.entries is not None:
            return JO([("put", Str((k,)), True, self.ser(d["args"][1], x, st)) for k, x in v.entries])
        return super().ser(ty, v, st)

    def jeq(self, a, b, st=None):
        if isinstance(a, JSer) and not self.opaque_ser(a):
            a = self.ser_expand(a)
        if isinstance(b, JSer) and not self.opaque_ser(b):
            b = self.ser_expand(b)
        return super().jeq(a, b, st)

    def de(self, ty, j, st=None):
        d = self.T[ty]
        if d["k"] == "adt" and d["name"] == "std::vec::Vec" and isinstance(j, JA) and isinstance(j.v, VecV):
            oks, vals = [], []
            for x in j.v.es:
                o, v = self.de(d["args"][0], x, st)
                oks.append(o)
                vals.append(v)
            return And(*oks), VecV(vals)
        if d["k"] == "adt" and d["name"] in ("std::collections::BTreeMap", "std::collections::HashMap") and isinstance(j, JO):
            m = pj(self, j)
            oks, vals = [], []
            for k, x in m.items():
                o, v = self.de(d["args"][1], jv(x), st)
                oks.append(o)
                vals.append((k, v))
            return And(*oks), mk_map(vals)
        return super().de(ty, j, st)

    def de_expand(self, ty, j):
        """documents recur over the cases: what a reader makes of one is computed once"""
        try:
            key = (ty, json.dumps(pj(self, j)))
        except (NoReplay, TypeError, ValueError):
            return super().de_expand(ty, j)
        memo = _DE_MEMO.setdefault(id(self.p), {})
        r = memo.get(key)
        if r is None:
            if len(memo) > 20000:
                memo.clear()
            r = super().de_expand(ty, j)
            memo[key] = r
        return r


# ---------------------------------------------------------------------------- from a solver model
def witness(c, model, hyp, goal):
    """the arguments of the unit's function under the solver's counterexample"""
    E = c.cur
    tops = getattr(E, "toplist", None)
    if tops is None:
        tops = E.tops or []
    M = Model(c, E, model, hyp, goal)
    out = []
    for name, ty, v in tops[:12]:
        try:
            out.append((name, ty, M.conc(v, ty, 0)))
        except Exception as e:
            if os.environ.get("VTRACE"):
                traceback.print_exc()
            out.append((name, ty, None))
    return dict(engine=getattr(E, "ordinal", 0), vals=out, strings=sorted(M.used)[:80])


class Model:
    def __init__(self, c, E, m, hyp, goal):
        self.c, self.E, self.m = c, E, m
        ids = set()
        seen = set()
        for e in (hyp, goal):
            if not isinstance(e, bool):
                core._vars(e, ids, seen)
        self.used = {s for s, t in sym._lits.items() if t.get_id() in ids}
        self.reads = {}
        acc = {}
        core.reads(zb(hyp), acc)
        core.reads(zb(goal), acc)
        for a in acc.values():
            self.reads.setdefault(a.arg(0).get_id(), []).append(a)
        self.names = {}
        for s in sorted(self.used):
            k = str(m.eval(sym._lits[s], model_completion=True))
            self.names.setdefault(k, s)
        self.nf = 0
        self.nodes = 0

    def over(self):
        self.nodes += 1
        return self.nodes > 3000

    def string(self, t):
        v = self.m.eval(t, model_completion=True)
        if z3.is_string_value(v):
            return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), v.as_string())
        k = str(v)
        if k not in self.names:
            self.nf += 1
            self.names[k] = "str%d" % self.nf
        return self.names[k]

    def b(self, x):
        if isinstance(x, bool):
            return x
        return z3.is_true(self.m.eval(x, model_completion=True))

    def i(self, x):
        if isinstance(x, int):
            return x
        return self.m.eval(x, model_completion=True).as_long()

    def conc(self, v, ty, d):
        E = self.E
        if isinstance(v, bool) or isinstance(v, int):
            return v
        if isinstance(v, z3.BoolRef):
            return self.b(v)
        if isinstance(v, z3.ArithRef):
            return self.i(v)
        if isinstance(v, Str):
            return mkstr([p if isinstance(p, str) else self.string(p) for p in v.parts])
        if isinstance(v, JV):
            return jv(self.json(v, d))
        if isinstance(v, BoxV):
            return BoxV(self.conc(v.v, E.T[ty]["args"][0] if ty is not None else None, d))
        if isinstance(v, VRef):
            return VRef(self.conc(v.v, E.T[ty]["e"] if ty is not None else None, d))
        if isinstance(v, Ite):
            return self.conc(v.a if self.b(v.c) else v.b, ty, d)
        if isinstance(v, Agg):
            T = E.T[v.ty]
            tys = [f[1] for f in T["vs"][v.var]["fields"]] if T["k"] == "adt" and T["deep"] else T.get("es") or [None] * len(v.fs)
            return Agg(v.ty, v.var, [self.conc(x, t, d + 1) for x, t in zip(v.fs, tys)])
        if isinstance(v, VecV):
            et = E.elem_ty(ty) if ty is not None else None
            return VecV([self.conc(x, et, d + 1) for x in v.es])
        if isinstance(v, Sym):
            T = E.T[v.ty]
            if T["k"] == "tuple":
                return Agg(v.ty, 0, [self.conc(E.proj(v, None, i, t), t, d + 1) for i, t in enumerate(T["es"])])
            if T["k"] == "float":
                return mk_f64(1.5)
            if T["k"] == "adt" and T["name"] == "std::vec::Vec" or T["k"] == "slice":
                n = max(0, min(3, self.i(LEN(v.t))))
                et = E.elem_ty(v.ty)
                if d > 2 * MAXD or self.over():
                    n = 0
                return VecV([self.conc(E._mkval(et, v.t, "elem%d:%s" % (i, E.ts(v.ty))), et, d + 1) for i in range(n)])
            if T["k"] == "adt" and T["name"].startswith("std::collections::"):
                return mk_map(())
            if T["k"] == "adt" and T["deep"]:
                n = len(T["vs"])
                var = 0
                if n > 1:
                    var = self.i(DISC(v.t))
                    if not 0 <= var < n:
                        var = 0
                if d > 2 * MAXD or self.over():
                    return Gen(self.c, E, random.Random(1), []).val(v.ty, 99)
                return Agg(v.ty, var, [self.conc(E.proj(v, var, i, f[1]), f[1], d + 1) for i, f in enumerate(T["vs"][var]["fields"])])
        raise NoReplay("value %r" % (v,))

    def json(self, v, d):
        E = self.E
        if not isinstance(v, JSym):
            if isinstance(v, Ite):
                return self.json(v.a if self.b(v.c) else v.b, d)
            if isinstance(v, JO):
                r = {}
                for o in v.ops:
                    if o[0] == "put" and self.b(o[2]):
                        r[pystr(self.conc(o[1], None, d))] = self.json(o[3], d + 1)
                    elif o[0] == "del":
                        r.pop(pystr(self.conc(o[1], None, d)), None)
                    elif o[0] == "base" and self.b(o[1]):
                        r.update(self.json(o[2], d))
                return r
            if isinstance(v, JS):
                return pystr(self.conc(v.s, None, d))
            if isinstance(v, JB):
                return self.b(v.b)
            if isinstance(v, JI):
                return self.i(v.i)
            if v is JNull:
                return None
            raise NoReplay("document %r" % (v,))
        t = v.t
        k = self.i(KIND(t))
        for a in self.reads.get(t.get_id(), ()):
            # containers are opaque to the logic: a document that reads as one is written from a value of it
            n = a.decl().name()[3:]
            if n.startswith(("Vec<", "BTreeMap<")) and k in (K_ARR, K_OBJ) and n in E.p.by_tstr and n != "Vec<Value>":
                try:
                    if self.b(a):
                        return spec_json(self.c, E, E.p.by_tstr[n], Gen(self.c, CE(self.c.p), random.Random(len(self.reads)), sorted(self.used), True).val(E.p.by_tstr[n], 2))
                    return [None] if k == K_ARR else {"x": None} if n != "BTreeMap<Value>" else {}
                except (NoReplay, Unsupported, IndexError, AttributeError):
                    break
        if k == K_NULL:
            return None
        if k == K_BOOL:
            return self.b(JBOOL(t))
        if k == K_INT:
            return self.i(JINT(t))
        if k == K_FLT:
            return 1.5
        if k == K_STR:
            return self.string(JSTR(t))
        if k == K_ARR:
            vt = E.p.by_tstr.get("Vec<Value>")
            n = max(0, min(3, self.i(LEN(JARR(t)))))
            if vt is None or d > 3:
                return []
            et = E.elem_ty(vt)
            return [self.json(E._mkval(et, JARR(t), "elem%d:%s" % (i, E.ts(vt))), d + 1) for i in range(n)]
        r = {}
        if d < 4:
            for s in sorted(self.used):
                l = lit(s)
                if self.b(HAS(t, l)):
                    r[s] = self.json(JSym(GET(t, l)), d + 1)
        return r


# ---------------------------------------------------------------------------- generated values
STRINGS = ["", "a", "text", "2.0", " 2.0", "2.0 ", "0", "é\"\\\n", "object", "string", "Null"]
INTS = [0, 1, 2, -1, 5, 100, 2 ** 31, 2 ** 53, 2 ** 63 - 1, -2 ** 63]


NMUT = 20


def mutate(s, i):
    i %= NMUT
    if i >= 12:
        return [s.swapcase(), "\ufeff" + s, "\n" + s, s + "\t", s + "\0", "\u00a0" + s + "\u3000", s[::-1], s.replace("a", "\u00e4") + "\u65e5"][i - 12]
    return [s + " ", " " + s, s.upper(), s.lower(), s[:-1], s + "x", s[1:], s + s, s.capitalize(), s.replace("/", "."), s.replace("-", "_"), "x" + s][i]


class Gen:
    def __init__(self, c, E, rng, words, normal=False):
        self.c, self.E, self.r = c, E, rng
        self.words = words
        self.normal = normal    # only values a document can stand for (round trips)
        self.some = rng.choice([0.5, 0.5, 0.5, 0.85, 0.95, 0.2])    # how often an optional member is present
        self.longs = 1 if rng.random() < 0.12 else 0
        self.long_strings = 0
        self.long_lists = 0
        self.mind = {}
        self.nums = []          # integer constants of the code
        self.turn = None        # which alternative comes first
        self.label = ""
        self.heard = []         # strings of earlier arguments

    def size(self, top):
        """a length the code may distinguish"""
        n = [x for x in self.nums if 2 < x <= top]
        return self.r.choice(n) + self.r.choice([-1, 0, 1, 1]) if n and self.r.random() < 0.5 else None

    def string(self):
        r = self.r
        if self.heard and r.random() < 0.5:
            w = r.choice(self.heard)
            return w if r.random() < 0.4 else mutate(w, r.randrange(NMUT))
        x = r.random()
        if self.words and x < 0.6:
            w = r.choice(self.words)
            return w if r.random() < 0.6 else mutate(w, r.randrange(NMUT))
        if x > 0.93 and self.long_strings < 2:
            # long, and with characters of several bytes at any offset
            self.long_strings += 1
            n = self.size(5000) or r.choice([r.randrange(1, 40), r.randrange(40, 300), r.randrange(300, 1200)])
            u = r.choice(["a\u00e9", "\u65e5\u672c", "x", "\U0001f600y", "ab \u00fc"])
            return ("a" * r.randrange(4) + u * (n // len(u) + 1))[:n]
        return r.choice(STRINGS) if x < 0.8 else "s%d" % r.randrange(5)

    def json(self, d=0):
        r = self.r
        k = r.randrange(5 if d > 2 else 8)
        if k == 0:
            return None
        if k == 1:
            return r.random() < 0.5
        if k == 2:
            return r.choice(INTS)
        if k == 3:
            return r.choice([0.5, -1.25, 1e20])
        if k in (4, 5):
            return self.string()
        if k == 6:
            return [self.json(d + 1) for _ in range(r.randrange(3))]
        return self.obj(d)

    def obj(self, d=0):
        return {self.string(): self.json(d + 1) for _ in range(self.r.randrange(4))}

    def depth(self, ty, seen=()):
        """least nesting a value of the type needs"""
        if ty in self.mind:
            return self.mind[ty]
        if ty in seen:
            return 50
        T = self.E.T[ty]
        r = 0
        if T["k"] == "adt" and T.get("box"):
            r = self.depth(T["args"][0], seen + (ty,))
        elif T["k"] == "adt" and T["krate"] == "rust_mcp_schema" and T["deep"] and T["vs"]:
            r = 1 + min(max([self.depth(f[1], seen + (ty,)) for f in v["fields"]] + [0]) for v in T["vs"])
        elif T["k"] in ("ref",):
            r = self.depth(T["e"], seen)
        if not seen:
            self.mind[ty] = r
        return r

    def first(self, ty, T, d):
        """round trips: of alternatives the protocol does not tell apart, the one a document is read as"""
        if not self.normal or d == 0:
            return None
        import roundtrip
        n = self.E.ts(ty)
        if n in self.c.spec["untagged"] and (roundtrip.AMBIGUOUS.search(n) or n in ("JsonrpcMessage",)):
            for i, v in enumerate(T["vs"]):
                if v["name"].split("::")[-1] == self.c.spec["untagged"][n][0][0]:
                    return i
        return None

    def val(self, ty, d=0):
        E, r = self.E, self.r
        T = E.T[ty]
        k = T["k"]
        if k == "bool":
            return r.random() < 0.5
        if k in ("int", "uint"):
            n = 8 * T["b"]
            lo, hi = (0, 2 ** n - 1) if k == "uint" else (-2 ** (n - 1), 2 ** (n - 1) - 1)
            ns = [i + e for i in self.nums for e in (-1, 0, 1) if lo <= i + e <= hi]
            if ns and r.random() < 0.4:
                return r.choice(ns)
            x = r.choice([i for i in INTS if lo <= i <= hi]) if r.random() < 0.7 else r.randrange(max(lo, -70000), min(hi, 70000))
            return x
        if k == "char":
            return ord("c")
        if k == "dyn" and "Error" in E.ts(ty):
            return dyn_err(self.string())
        if k == "float":
            return mk_f64(r.choice([0.5, 1.0, 0.0, -2.25]))
        if E.is_string(ty):
            return mkstr([self.string()])
        j = E.jty(ty)
        if j == "Map":
            return jv(self.obj(d))
        if j:
            return jv(self.json(d))
        if k == "ref":
            return VRef(self.val(T["e"], d))
        if k == "slice" or k == "array":
            return VecV([self.val(T["e"], d + 1) for _ in range((40 if r.random() < 0.1 else r.randrange(3)) if k == "slice" else int(T["n"]))])
        if k == "tuple":
            return Agg(ty, 0, [self.val(e, d) for e in T["es"]])
        if k == "adt":
            if T.get("box"):
                return BoxV(self.val(T["args"][0], d))
            inner = E.opt_inner(ty)
            if inner is not None:
                if d > (MAXD if self.some < 0.6 else 2 * MAXD) or r.random() >= (self.some if d < 9 else 0.5):
                    return Agg(ty, 0, ())
                return Agg(ty, 1, (self.val(inner, d + 1),))
            if T["name"] == "std::vec::Vec":
                n = 0 if d > MAXD else r.choice([0, 1, 1, 2, 3]) if d < 2 else r.randrange(2)
                es = [self.val(T["args"][0], d + 1) for _ in range(n)]
                if es and d < 4 and self.nums and r.random() < 0.3:
                    z = self.size(1100)
                    if z and self.long_lists < 3:
                        self.long_lists += 1
                        return VecV([es[0]] * (z - 1) + [es[-1]])
                if es and self.longs and d < 3:
                    # a long run of one element before the others: what is only done for the first few shows
                    self.longs = 0
                    es = [es[0]] * r.choice([9, 17, 33, 65, 70, 101]) + es[1:] + [self.val(T["args"][0], d + 1)]
                return VecV(es)
            if T["name"] in ("std::collections::BTreeMap", "std::collections::HashMap"):
                n = 0 if d > 3 else r.choice([0, 1, 2])
                es = {self.string(): self.val(T["args"][1], d + 1) for _ in range(n)}
                z = self.size(1100) if es and d < 4 and self.nums and r.random() < 0.3 else None
                if not z and es and self.longs and d < 3:
                    self.longs = 0
                    z = r.choice([9, 17, 33, 65, 70])
                if z and self.long_lists < 3:
                    self.long_lists += 1
                    v = next(iter(es.values()))
                    es.update({"k%03d" % i: v for i in range(z - len(es))})
                return mk_map(es.items())
            if T["krate"] == "rust_mcp_schema" and T["deep"] or T["name"] == "std::result::Result":
                vs = T["vs"]
                first = self.first(ty, T, d)
                if len(vs) == 1:
                    var = 0
                elif first is not None:
                    var = first
                elif d > 3:
                    ds = [max([self.depth(f[1]) for f in v["fields"]] + [0]) for v in vs]
                    var = r.choice([i for i, x in enumerate(ds) if x == min(ds)])
                elif d == 0 and self.turn is not None and len(vs) > 3:
                    # the alternative the unit is about more often, the others in turn
                    own = [i for i, x in enumerate(vs) for f in x["fields"] if re.search(r"\b%s\b" % re.escape(E.ts(f[1])), self.label)]
                    var = r.choice(own) if own and r.random() < 0.4 else self.turn % len(vs)
                else:
                    var = r.randrange(len(vs))
                spf = self.c.spec["structs"].get(E.ts(ty), {"fields": []})["fields"]
                sp = {f["f"]: f["const"] for f in spf if "const" in f}
                flat = {f["f"] for f in spf if f.get("flat")}
                fs = []
                for i, (n, ft) in enumerate(vs[var]["fields"]):
                    oi = E.opt_inner(ft)
                    if self.normal and n in flat and E.ts(ft) in ("Map", "Option<Map>"):
                        named = {f["k"] for f in spf if not f.get("flat")}
                        m = jv({k: x for k, x in self.obj(d).items() if k not in named})
                        fs.append(m if oi is None else Agg(ft, 1, (m,)))
                        continue
                    if self.normal and oi is not None and E.ts(oi) == "Value":
                        x = self.json(d)
                        fs.append(Agg(ft, 0, ()) if x is None else Agg(ft, 1, (jv(x),)))
                        continue
                    if self.normal and isinstance(sp.get(n), str):
                        v = mkstr([sp[n]])
                        fs.append(v if oi is None else Agg(ft, 1, (v,)) if r.random() < 0.7 else Agg(ft, 0, ()))
                        continue
                    if self.normal and n == "result_type" and E.is_string(ft):
                        fs.append(mkstr(["input_required" if E.ts(ty) == "InputRequiredResult" else "complete"]))
                        continue
                    iv = E.inv.get(E.ts(ty), {}).get((var, i))
                    if isinstance(iv, str):
                        fs.append(mkstr([iv]))
                    elif iv is not None:
                        fs.append(Agg(ft, 1, (mkstr([iv[1]]),)) if r.random() < 0.7 else Agg(ft, 0, ()))
                    elif isinstance(sp.get(n), str) and E.is_string(ft) and r.random() < 0.85:
                        fs.append(mkstr([sp[n]]))
                    elif isinstance(sp.get(n), int) and E.T[ft]["k"] in ("int", "uint"):
                        fs.append(sp[n])
                    else:
                        fs.append(self.payload(ty, T, var, ft, d))
                if self.normal:
                    self.envelope(T, vs[var], fs)
                return Agg(ty, var, fs)
        raise NoReplay("no generator for " + E.ts(ty))


    def envelope(self, T, v, fs):
        """an envelope of the older versions names the method of the message it holds, which is a specified one"""
        names = [f[0] for f in v["fields"]]
        body = [i for i, n in enumerate(names) if n in ("request", "notification")]
        if not body or "method" not in names or "jsonrpc" not in names:
            return
        fs[names.index("jsonrpc")] = mkstr(["2.0"])
        ft = v["fields"][body[0]][1]
        T2 = self.E.T[ft]
        for i, a in enumerate(T2["vs"]):
            if not a["name"].split("::")[-1].startswith("Custom"):
                pt = a["fields"][0][1]
                for _ in range(40):
                    x = self.val(pt, 2)
                    m = self.method_of(pt, x)
                    if m is not None:
                        fs[body[0]] = Agg(ft, i, (x,))
                        fs[names.index("method")] = mkstr([m])
                        return

    def method_of(self, ty, x):
        """the method constant of the message a value holds"""
        n = self.E.ts(ty)
        s = self.c.spec["structs"].get(n)
        if s is not None:
            for f in s["fields"]:
                if f["k"] == "method" and isinstance(f.get("const"), str):
                    return f["const"]
            return None
        if isinstance(x, BoxV):
            return self.method_of(self.E.T[ty]["args"][0], x.v)
        if isinstance(x, Agg) and len(x.fs) == 1:
            return self.method_of(self.E.T[ty]["vs"][x.var]["fields"][0][1], x.fs[0])
        return None

    def payload(self, ty, T, var, ft, d):
        """the value of a field; in a round trip, one its alternative is the reading of"""
        v = self.val(ft, d + 1)
        n = self.E.ts(ty)
        if self.normal and n in self.c.spec["untagged"] and len(T["vs"]) > 1:
            import wire
            vn = T["vs"][var]["name"].split("::")[-1]
            for i in range(40):
                if X.is_t(wire.nonempty(self.c, self.E, n, vn, ft, v)):
                    break
                v = self.val(ft, d + 1)
        return v


def doc_text(d, r):
    """a JSON text of a document, or nearly one"""
    s = json.dumps(d, ensure_ascii=r.random() < 0.3, indent=r.choice([None, None, 2]))
    x = r.random()
    if x < 0.5:
        return s
    return [s + " ", " \n\t\r" + s, "\ufeff" + s, s + "\0", "\u00a0" + s, s + ",", "[" + s + "]", s[:-1], s + s, s[1:], "data: " + s, s + "\ufeff", s + "\u3000", "\x0b" + s,
            "'" + s + "'", json.dumps(s), s.replace(":", "=", 1), s + "// c", s + "\n\n", s.replace(",", ",,", 1)][r.randrange(20)]


def strings_of(E, v, d=0):
    """texts and names within a concrete value"""
    out = set()
    if d > 6:
        return out
    if isinstance(v, Str):
        if v.lit is not None:
            out.add(v.lit)
    elif isinstance(v, Agg):
        for x in v.fs:
            out |= strings_of(E, x, d + 1)
    elif isinstance(v, VecV):
        for x in v.es[:5]:
            out |= strings_of(E, x, d + 1)
    elif isinstance(v, (BoxV, VRef)):
        out |= strings_of(E, v.v, d + 1)
    elif isinstance(v, Tok) and v.entries is not None:
        for k, x in v.entries:
            out.add(k)
            out |= strings_of(E, x, d + 1)
    elif isinstance(v, (JO, JS)):
        try:
            j = pj(E, v)
        except NoReplay:
            return out
        out |= {j} if isinstance(j, str) else set(j)
    return out


def other_kind(E, v):
    """the text of a number in the alternative for texts, and back"""
    if isinstance(v, VRef):
        w = other_kind(E, v.v)
        return None if w is None else VRef(w)
    if not isinstance(v, Agg) or v.ty is None or len(v.fs) != 1:
        return None
    T = E.T[v.ty]
    if T.get("k") != "adt" or T.get("kind") != "Enum":
        return None
    x = v.fs[0]
    for i, alt in enumerate(T["vs"]):
        if i == v.var or len(alt["fields"]) != 1:
            continue
        ft = alt["fields"][0][1]
        if isinstance(x, int) and not isinstance(x, bool) and E.is_string(ft):
            return Agg(v.ty, i, [mkstr([str(x)])])
        if isinstance(x, Str) and x.lit is not None and E.T[ft]["k"] == "int" and re.fullmatch(r"-?[0-9]{1,18}", x.lit):
            return Agg(v.ty, i, [int(x.lit)])
    return None


def near(E, v, r):
    """a copy of a concrete value that differs in at most one leaf"""
    w = other_kind(E, v) if r.random() < 0.35 else None
    if w is not None:
        return w
    leaves = []

    def walk(x, path):
        if isinstance(x, Str) and x.lit is not None or isinstance(x, (bool, int)):
            leaves.append(path)
        elif isinstance(x, (Agg,)):
            for i, y in enumerate(x.fs):
                walk(y, path + (i,))
        elif isinstance(x, VecV):
            for i, y in enumerate(x.es):
                walk(y, path + (i,))
        elif isinstance(x, (BoxV, VRef)):
            walk(x.v, path + (0,))
        elif isinstance(x, (JO, JA, JS, JI, JB)):
            leaves.append(path)
    walk(v, ())
    if not leaves or r.random() < 0.2:
        return v
    at = r.choice(leaves)

    def leaf(x):
        if isinstance(x, bool):
            return not x
        if isinstance(x, int):
            return x + 1 if 0 <= x < 100 else x
        if isinstance(x, Str):
            return mkstr([mutate(x.lit, r.randrange(NMUT))])
        try:
            ds = doc_variants(pj(E, x), [], r)
            d = r.choice(ds)
            return jv(d) if not isinstance(x, JO) or isinstance(d, dict) else x
        except NoReplay:
            return x

    def put(x, path):
        if not path:
            return leaf(x)
        i = path[0]
        if isinstance(x, Agg):
            return Agg(x.ty, x.var, [put(y, path[1:]) if j == i else y for j, y in enumerate(x.fs)])
        if isinstance(x, VecV):
            return VecV([put(y, path[1:]) if j == i else y for j, y in enumerate(x.es)])
        return type(x)(put(x.v, path[1:]))
    return put(v, at)


def spec_json(c, E, ty, v):
    """the specified document of a concrete value (from the specification, not from the code)"""
    T = E.T[ty]
    if T["k"] == "ref":
        return spec_json(c, E, T["e"], v.v if isinstance(v, VRef) else v)
    if T["k"] == "adt" and T.get("box"):
        return spec_json(c, E, T["args"][0], v.v)
    inner = E.opt_inner(ty)
    if inner is not None:
        return None if v.var == 0 else spec_json(c, E, inner, v.fs[0])
    if T["k"] == "adt" and T["name"] == "std::vec::Vec":
        return [spec_json(c, E, T["args"][0], x) for x in v.es]
    if isinstance(v, Tok) and v.entries is not None:
        return {k: spec_json(c, E, T["args"][1], x) for k, x in v.entries}
    if T["k"] == "float":
        return v.num
    if T["k"] == "adt" and T["krate"] == "rust_mcp_schema":
        n = E.ts(ty)

        def members(fields, var):
            out = {}
            names = [f[0] for f in T["vs"][var]["fields"]]
            flat = {}
            for f in fields:
                i = names.index(f["f"])
                ft = T["vs"][var]["fields"][i][1]
                x = v.fs[i]
                if f.get("flat"):
                    r = spec_json(c, E, ft, x)
                    flat.update(r or {})
                    continue
                if f.get("skip") and (isinstance(x, Agg) and E.opt_inner(ft) is not None and x.var == 0 or isinstance(x, VecV) and not x.es or isinstance(x, JO) and not x.ops):
                    continue
                out[f["k"]] = spec_json(c, E, ft, x)
            for k in flat:
                out.setdefault(k, flat[k])
            return out
        if n in c.spec["strenums"]:
            return c.spec["strenums"][n][T["vs"][v.var]["name"].split("::")[-1]]
        if n in c.spec["structs"]:
            return members(c.spec["structs"][n]["fields"], 0)
        if n in c.spec["transparent"]:
            return spec_json(c, E, T["vs"][0]["fields"][0][1], v.fs[0])
        if n in c.spec["untagged"]:
            vn = T["vs"][v.var]["name"].split("::")[-1]
            for a in c.spec["untagged"][n]:
                if a[0] == vn:
                    if isinstance(a[1], dict):
                        return members(a[1]["fields"], v.var)
                    return spec_json(c, E, T["vs"][v.var]["fields"][0][1], v.fs[0])
        # envelopes: marker, id, method and content are members of the value; use the code's own serialiser
        return pj(E, E.ser_expand(JSer(n, v)))
    return pj(E, E.ser(ty, v, None))


def odd_variants(doc, odd):
    """a document with words of the code that the specification does not have: as names of members, as values"""
    out = []
    if isinstance(doc, str):
        return list(odd)
    if not isinstance(doc, dict):
        return out

    def walk(x, make, depth):
        for k in list(x):
            y = x[k]
            for w in odd:
                z = {(w if a == k else a): b for a, b in x.items()}
                out.append(make(z))
                out.append(make(dict(x, **{w: y})))
                if not isinstance(y, (dict, list)):
                    out.append(make(dict(x, **{k: w})))
            if isinstance(y, dict) and depth < 2:
                walk(y, lambda z, k=k: make(dict(x, **{k: z})), depth + 1)
    walk(doc, lambda z: z, 0)
    for w in odd:
        for v in (True, "v", {}, None, 1):
            out.append(dict(doc, **{w: v}))
    return out


def doc_variants(doc, words, rng):
    """a document and its neighbours: members dropped, null, of another kind, strings slightly changed"""
    out = [doc]
    if not isinstance(doc, dict):
        return out + [None, 1, "x", {}, [None], [1, "x"]] + ([doc[:1], doc + doc, doc + [None]] if isinstance(doc, list) else []) + ([mutate(doc, i) for i in range(NMUT)] if isinstance(doc, str) else [])

    def put(path, v, drop=False):
        d = json.loads(json.dumps(doc))
        x = d
        for p in path[:-1]:
            x = x[p]
        if drop:
            del x[path[-1]]
        else:
            x[path[-1]] = v
        return d

    def walk(x, path, depth):
        for k in list(x):
            p = path + [k]
            y = x[k]
            out.append(put(p, None, True))
            # the member under another name
            for w in rng.sample(words, min(4, len(words))) + [mutate(k, rng.randrange(NMUT))]:
                if w not in x:
                    d = put(p, None, True)
                    z = d
                    for q in path:
                        z = z[q]
                    z[w] = y
                    out.append(d)
            out.append(put(p, None))
            out.append(put(p, 7))
            if not isinstance(y, str):
                out.append(put(p, "x"))
            if isinstance(y, str):
                for i in range(NMUT):
                    out.append(put(p, mutate(y, i)))
                for w in rng.sample(words, min(3, len(words))):
                    out.append(put(p, w))
            if isinstance(y, int) and not isinstance(y, bool):
                out.append(put(p, y + 1))
                out.append(put(p, float(y) + 0.5))
            if not isinstance(y, (dict, list)):
                out.append(put(p, {}))
                if not isinstance(y, type(None)):
                    out.append(put(p, []))
            elif isinstance(y, dict) and depth < 2:
                walk(y, p, depth + 1)
    walk(doc, [], 0)
    for k in ["extra"] + rng.sample(words, min(4, len(words))):
        for v in (1, "v", None):
            if k not in doc:
                out.append(dict(doc, **{k: v}))
    out += [None, 1, "x", True]
    return out


# ---------------------------------------------------------------------------- Rust text
def rstr(s):
    out = []
    for ch in s:
        o = ord(ch)
        if ch in "\"\\":
            out.append("\\" + ch)
        elif 32 <= o < 127:
            out.append(ch)
        else:
            out.append("\\u{%x}" % o)
    return '"%s"' % "".join(out)


def rpath(n):
    n = n.replace("vharness::rust_mcp_schema", "rust_mcp_schema")
    n = re.sub(r"<'\w+>", "", n)
    return n


KW = {"type", "ref", "enum", "const", "match", "in", "use", "mod", "self", "move"}


def rexpr(E, ty, v):
    T = E.T[ty]
    k = T["k"]
    if k == "bool":
        return "true" if pybool(v) else "false"
    if k in ("int", "uint"):
        n = pyint(v)
        s = E.ts(ty)
        if n < 0:
            return "%s::MIN" % s if n == -2 ** (8 * T["b"] - 1) else "(%d%s)" % (n, s)
        return "%d%s" % (n, s)
    if k == "char":
        return "'%s'" % chr(v)
    if k == "dyn" and getattr(v, "shown", None) is not None:
        return "DynE(%s.to_string())" % rstr(v.shown)
    if k == "float":
        return "%rf64" % (v.num if isinstance(v, Tok) else pynum(E, v))
    if k == "str":
        return rstr(pystr(v))
    if E.is_string(ty):
        return "%s.to_string()" % rstr(pystr(v))
    j = E.jty(ty)
    if j == "Map":
        return "jm(%s)" % rstr(json.dumps(pj(E, v)))
    if j:
        return "jd(%s)" % rstr(json.dumps(pj(E, v)))
    if k == "ref":
        x = v.v if isinstance(v, VRef) else v
        if E.T[T["e"]]["k"] == "str":
            return rstr(pystr(x))
        if E.T[T["e"]]["k"] == "slice":
            return "&[%s][..]" % ", ".join(rexpr(E, E.T[T["e"]]["e"], y) for y in x.es)
        return "&" + ("mut " if T["m"] else "") + rexpr(E, T["e"], x)
    if k == "array":
        return "[%s]" % ", ".join(rexpr(E, T["e"], y) for y in v.es)
    if k == "tuple":
        return "(%s)" % "".join(rexpr(E, e, x) + "," for e, x in zip(T["es"], v.fs))
    if k == "adt":
        if T.get("box"):
            return "Box::new(%s)" % rexpr(E, T["args"][0], v.v)
        inner = E.opt_inner(ty)
        if inner is not None:
            return "None" if v.var == 0 else "Some(%s)" % rexpr(E, inner, v.fs[0])
        if T["name"] == "std::vec::Vec":
            return "vec![%s]" % ", ".join(rexpr(E, T["args"][0], y) for y in v.es)
        if isinstance(v, Tok) and v.entries is not None:
            return "[%s].into_iter().collect()" % ", ".join("(%s.to_string(), %s)" % (rstr(a), rexpr(E, T["args"][1], b)) for a, b in v.entries) if v.entries else "Default::default()"
        if T["name"] == "std::result::Result":
            return "%s(%s)" % ("Err" if v.var else "Ok", rexpr(E, T["args"][v.var], v.fs[0]))
        if T["krate"] == "rust_mcp_schema" and T["deep"]:
            p = rpath(T["name"])
            va = T["vs"][v.var]
            if T["kind"] == "Enum":
                p += "::" + va["name"].split("::")[-1]
            fs = [(f[0], rexpr(E, f[1], x)) for f, x in zip(va["fields"], v.fs)]
            if not fs:
                return p if T["kind"] == "Enum" else p + " {}"
            return "%s { %s }" % (p, ", ".join("%s: %s" % ("r#" + n if n in KW else n, e) for n, e in fs))
    raise NoReplay("no Rust text for " + E.ts(ty))


# ---------------------------------------------------------------------------- Debug text -> value
class P:
    def __init__(self, E, s):
        self.E, self.s, self.i = E, s, 0

    def ws(self):
        while self.i < len(self.s) and self.s[self.i] in " \n":
            self.i += 1

    def eat(self, t):
        self.ws()
        if not self.s.startswith(t, self.i):
            raise NoReplay("expected %r at %r" % (t, self.s[self.i:self.i + 40]))
        self.i += len(t)

    def at(self, t):
        self.ws()
        return self.s.startswith(t, self.i)

    def word(self):
        self.ws()
        m = re.compile(r"(?:r#)?[A-Za-z_]\w*").match(self.s, self.i)
        if not m:
            raise NoReplay("expected a name at %r" % self.s[self.i:self.i + 40])
        self.i = m.end()
        w = m.group(0)
        return w[2:] if w.startswith("r#") else w

    def string(self):
        self.eat('"')
        out = []
        s = self.s
        while True:
            ch = s[self.i]
            self.i += 1
            if ch == '"':
                return "".join(out)
            if ch == "\\":
                e = s[self.i]
                self.i += 1
                if e == "u":
                    j = s.index("}", self.i)
                    out.append(chr(int(s[self.i + 1:j], 16)))
                    self.i = j + 1
                else:
                    out.append({"n": "\n", "t": "\t", "r": "\r", "0": "\0"}.get(e, e))
            else:
                out.append(ch)

    def number(self):
        self.ws()
        m = re.compile(r"-?\d+(?:\.\d+)?(?:e[+-]?\d+)?|NaN|-?inf").match(self.s, self.i)
        if not m:
            raise NoReplay("expected a number at %r" % self.s[self.i:self.i + 40])
        self.i = m.end()
        t = m.group(0)
        return int(t) if re.match(r"-?\d+$", t) else float(t)

    def opaque(self):
        st = self.i
        d = 0
        s = self.s
        while self.i < len(s):
            ch = s[self.i]
            if ch == '"':
                self.string()
                continue
            if ch in "([{":
                d += 1
            elif ch in ")]}":
                if d == 0:
                    break
                d -= 1
            elif ch == "," and d == 0:
                break
            self.i += 1
        return Opq("shown:" + s[st:self.i])

    def many(self, close, one):
        out = []
        while not self.at(close):
            out.append(one())
            if self.at(","):
                self.eat(",")
        self.eat(close)
        return out

    def json(self):
        w = self.word()
        if w == "Null":
            return JNull
        if w == "Bool":
            self.eat("(")
            b = self.word() == "true"
            self.eat(")")
            return JB(b)
        if w == "Number":
            self.eat("(")
            n = self.number()
            self.eat(")")
            return JI(n) if isinstance(n, int) else JF(mk_f64(n))
        if w == "String":
            self.eat("(")
            x = self.string()
            self.eat(")")
            return JS(mkstr([x]))
        if w == "Array":
            self.eat("[")
            return JA(VecV(self.many("]", self.json)))
        if w == "Object":
            return self.map()
        raise NoReplay("json " + w)

    def map(self):
        self.eat("{")

        def one():
            k = self.string()
            self.eat(":")
            return ("put", mkstr([k]), True, self.json())
        return JO(self.many("}", one))

    def val(self, ty):
        E = self.E
        T = E.T[ty]
        k = T["k"]
        if k == "bool":
            return self.word() == "true"
        if k in ("int", "uint"):
            return self.number()
        if k == "float":
            return mk_f64(self.number())
        if k == "ref":
            return VRef(self.val(T["e"]))
        if E.is_string(ty):
            return mkstr([self.string()])
        j = E.jty(ty)
        if j == "Map":
            return self.map()
        if j:
            return self.json()
        if k in ("slice", "array"):
            self.eat("[")
            return VecV(self.many("]", lambda: self.val(T["e"])))
        if k == "tuple":
            self.eat("(")
            out = []
            for e in T["es"]:
                out.append(self.val(e))
                if self.at(","):
                    self.eat(",")
            self.eat(")")
            return Agg(ty, 0, out)
        if k == "adt":
            if T.get("box"):
                return BoxV(self.val(T["args"][0]))
            if T["name"] == "std::vec::Vec":
                self.eat("[")
                return VecV(self.many("]", lambda: self.val(T["args"][0])))
            if T["name"] in ("std::collections::BTreeMap", "std::collections::HashMap"):
                self.eat("{")

                def one():
                    a = self.string()
                    self.eat(":")
                    return (a, self.val(T["args"][1]))
                return mk_map(self.many("}", one))
            if T["deep"] and (T["krate"] == "rust_mcp_schema" or T["name"] in ("std::option::Option", "std::result::Result", "std::cmp::Ordering")):
                return self.adt(ty, T)
        return self.opaque()

    def items(self, kv, pairs):
        self.eat("[")

        def one():
            if not pairs:
                return VRef(self.val(kv[0]))
            self.eat("(")
            a = self.val(kv[0])
            self.eat(",")
            b = self.val(kv[1])
            self.eat(")")
            return Agg(None, 0, (VRef(a), VRef(b)))
        return VecV(self.many("]", one))

    def adt(self, ty, T):
        st = self.i
        w = self.word()
        var = 0
        if T["kind"] == "Enum":
            for i, v in enumerate(T["vs"]):
                if v["name"].split("::")[-1] == w:
                    var = i
                    break
            else:
                self.i = st
                return self.opaque()
        fs = T["vs"][var]["fields"]
        if not fs:
            return Agg(ty, var, ())
        if self.at("("):
            self.eat("(")
            vals = []
            for f in fs:
                vals.append(self.val(f[1]))
                if self.at(","):
                    self.eat(",")
            self.eat(")")
            return Agg(ty, var, vals)
        if not self.at("{"):
            self.i = st
            return self.opaque()
        self.eat("{")
        got = {}
        while not self.at("}"):
            n = self.word()
            self.eat(":")
            ft = [f[1] for f in fs if f[0] in (n, "r#" + n)]
            if not ft:
                raise NoReplay("member " + n)
            got[n] = self.val(ft[0])
            if self.at(","):
                self.eat(",")
        self.eat("}")
        return Agg(ty, var, [got[f[0][2:] if f[0].startswith("r#") else f[0]] for f in fs])


def entry_types(c, E, inst):
    """types of the keys and values of the map in the only member of self"""
    t = inst.body.locals[1]
    while E.T[t]["k"] == "ref":
        t = E.T[t]["e"]
    return E.T[E.T[t]["vs"][0]["fields"][0][1]]["args"][:2]


# ---------------------------------------------------------------------------- calls
def call_text(c, E, inst, args, st):
    """(kind, Rust statements, printed arguments) of one call; args: engine values"""
    b = inst.body
    for t, i in c.p.deser.items():
        if i is inst:
            return ("de", c.p.local_adts[t], json.dumps(pj(E, args[0].fs[0])), None)
    for t, i in c.p.seri.items():
        if i is inst:
            ty = c.p.local_adts[t]
            return ("ser", ty, rexpr(E, ty, E.deref_all(st, args[0])), None)
    tys = [b.locals[i + 1] for i in range(b.argc)]
    lets, pas, after = [], [], []
    disp = None
    for i, (t, a) in enumerate(zip(tys, args)):
        T = E.T[t]
        if T["k"] == "ref" and c.p.tstr(T["e"]) == "Formatter":
            disp = i
            continue
        if T["k"] == "ref" and c.p.tstr(T["e"]) == "DefaultHasher":
            raise NoReplay("hasher state")
        v = E.deref_all(st, a) if isinstance(a, (Ptr, VRef)) else a
        if T["k"] == "ref" and E.T[T["e"]]["k"] not in ("str", "slice"):
            inner = T["e"]
            if E.T[inner]["k"] == "ref":
                v2 = E.deref_all(st, v) if isinstance(v, (Ptr, VRef)) else v
                lets.append("let a%d = %s;" % (i, rexpr(E, inner, VRef(v2))))
                pas.append("&a%d" % i)
                continue
            lets.append("let mut a%d%s = %s;" % (i, ann(c, E, inner), rexpr(E, inner, v)))
            pas.append(("&mut a%d" if T["m"] else "&a%d") % i)
            if T["m"]:
                after.append(i)
        else:
            lets.append("let a%d%s = %s;" % (i, ann(c, E, t), rexpr(E, t, VRef(v) if T["k"] == "ref" and not isinstance(v, VRef) else v)))
            pas.append("a%d" % i)
    if disp is not None:
        return ("disp", disp, lets, "format!(\"{}\", %s)" % pas[0])
    raw = next((r["def"] for r in c.p.roots if c.p.insts[r["id"]] is inst), None)
    if raw is None:
        raise NoReplay("not a named function")
    m = re.search(r"<impl (.*) for (.*)>::(\w+)$", raw)
    if m:
        f = "<%s as %s>::%s" % (m.group(2), m.group(1), m.group(3))
    else:
        m = re.search(r"::<impl (.*)>::(\w+)$", raw)
        f = "<%s>::%s" % (m.group(1), m.group(2)) if m else raw
    f = rpath(f)
    f = re.sub(r"\b(From|TryFrom)<([A-Z])>", r"\1<_>", f)
    if "{closure" in f or "::_::" in f:
        raise NoReplay("not callable: " + f)
    call = "%s(%s)" % (f, ", ".join(pas))
    if E.ts(b.locals[0]) == "CallToolError":
        # observed through its Display text
        return ("fn", after, lets, call + ".to_string()", "shown")
    if f.endswith(("InputRequests>::iter", "InputRequests>::keys", "InputRequests::iter", "InputRequests::keys")):
        # observed through the items it yields
        return ("fn", after, lets, call + ".collect::<Vec<_>>()", "items")
    return ("fn", after, lets, call)


def ann(c, E, t):
    try:
        return ": " + rty(E, t)
    except NoReplay:
        return ""


def rty(E, t):
    T = E.T[t]
    k = T["k"]
    if k in ("int", "uint", "bool", "char", "str", "float"):
        return E.ts(t)
    if k == "ref":
        return "&" + ("mut " if T["m"] else "") + rty(E, T["e"])
    if k == "slice":
        return "[%s]" % rty(E, T["e"])
    if k == "tuple":
        return "(%s)" % "".join(rty(E, e) + "," for e in T["es"])
    if k == "adt":
        if E.jty(t) == "Map":
            return "serde_json::Map<String, serde_json::Value>"
        n = rpath(T["name"])
        if "<" in n or "::_::" in n:
            raise NoReplay("type " + n)
        a = [rty(E, x) for x in T["args"] if isinstance(x, int) and E.ts(x) != "Global"]
        return n + ("<%s>" % ", ".join(a) if a else "")
    raise NoReplay("type " + E.ts(t))


HEAD = """#![allow(warnings)]
use std::panic::{catch_unwind, AssertUnwindSafe};
#[derive(Debug)] struct DynE(String);
impl std::fmt::Display for DynE { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for DynE {}
fn jd(s: &str) -> serde_json::Value { serde_json::from_str(s).unwrap() }
fn jm(s: &str) -> serde_json::Map<String, serde_json::Value> { serde_json::from_str(s).unwrap() }
fn out(k: usize, kind: &str, v: &str) { println!("{}\\t{}\\t{}", k, kind, v.replace('\\u{1}', "").replace('\\n', "\\u{1}")); }
fn de<T: serde::de::DeserializeOwned + std::fmt::Debug>(k: usize, s: &str) {
    let d = jd(s);
    match catch_unwind(AssertUnwindSafe(|| serde_json::from_value::<T>(d))) {
        Ok(Ok(v)) => out(k, "ok", &format!("{:?}", v)), Ok(Err(e)) => out(k, "err", ""), Err(_) => out(k, "panic", "") }
}
fn ser<T: serde::Serialize>(k: usize, f: impl FnOnce() -> T) {
    let v = f();
    match catch_unwind(AssertUnwindSafe(|| serde_json::to_value(&v))) {
        Ok(Ok(v)) => out(k, "ok", &format!("{:?}", v)), Ok(Err(e)) => out(k, "err", ""), Err(_) => out(k, "panic", "") }
}
"""


def case_text(E, k, call):
    if call[0] == "de":
        return "fn c%d() { de::<%s>(%d, %s); }" % (k, rty(E, call[1]), k, rstr(call[2]))
    if call[0] == "ser":
        return "fn c%d() { ser::<%s>(%d, || %s); }" % (k, rty(E, call[1]), k, call[2])
    if call[0] == "disp":
        return "fn c%d() { %s match catch_unwind(AssertUnwindSafe(|| %s)) { Ok(v) => out(%d, \"ok\", &format!(\"{:?}\", v)), Err(_) => out(%d, \"panic\", \"\") } }" % (k, " ".join(call[2]), call[3], k, k)
    aft = " ".join("out(%d, \"after%d\", &format!(\"{:?}\", a%d));" % (k, i, i) for i in call[1])
    return "fn c%d() { %s let r = catch_unwind(AssertUnwindSafe(|| format!(\"{:?}\", %s))); %s match r { Ok(v) => out(%d, \"ok\", &v), Err(_) => out(%d, \"panic\", \"\") } }" % (
        k, " ".join(call[2]), call[3], aft, k, k)


def widen(src):
    """visibility only: private members, functions and modules become public"""
    out = []
    depth = None
    for l in src.split("\n"):
        l = re.sub(r"\bpub\((?:crate|super)\) ", "pub ", l)
        if depth is None:
            m = re.match(r"^(\s*)pub struct \w+(?:<[^>]*>)? \{\s*$", l)
            if m:
                depth = m.group(1)
        elif l.startswith(depth + "}"):
            depth = None
        elif re.match(r"^\s+(?:r#)?[a-z_]\w*: ", l) and not l.strip().startswith("//"):
            l = re.sub(r"^(\s+)", r"\1pub ", l, count=1)
        if re.match(r"^(fn|mod) ", l):
            l = "pub " + l
        m = re.match(r"^(pub struct \w+)\((?!pub)(.*)\);$", l)
        if m:
            l = "%s(pub %s);" % m.groups()
        out.append(l)
    return "\n".join(out)


def crate_dir(ver):
    """work/replay/<ver>: the widened copy with an empty program"""
    d = os.path.join(build.WORK, "replay", ver)
    os.makedirs(os.path.join(d, "src", "bin"), exist_ok=True)
    src = os.path.join(build.REPO, "src")
    want = {}
    for f in build.files(src):
        want[os.path.relpath(f, src)] = widen(open(f, encoding="utf-8").read())
    for f in build.files(os.path.join(d, "src")):
        r = os.path.relpath(f, os.path.join(d, "src"))
        if r not in want and not r.startswith("bin/"):
            os.remove(f)
    for r, t in want.items():
        p = os.path.join(d, "src", r)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if not os.path.exists(p) or open(p, encoding="utf-8").read() != t:
            open(p, "w", encoding="utf-8").write(t)
    toml = """[package]
name = "rust-mcp-schema"
version = "0.0.0"
edition = "2021"
[workspace]
[lib]
path = "src/rust-mcp-schema.rs"
[[bin]]
name = "cases"
path = "src/bin/cases.rs"
[dependencies]
serde = { version = "1.0", features = ["derive"] }
serde_json = { version = "1.0.143" }
[features]
latest = []
2026_07_28 = ["latest"]
2025_11_25 = []
2025_06_18 = []
2025_03_26 = []
2024_11_05 = []
draft = []
schema_utils = []
[profile.dev]
debug = 0
"""
    p = os.path.join(d, "Cargo.toml")
    if not os.path.exists(p) or open(p).read() != toml:
        open(p, "w").write(toml)
    lock = os.path.join(VERIF, "engine", "vharness", "Cargo.lock")
    return d


def execute(ver, E, calls):
    """runs the calls on the real code; {index: (kind, text, {arg: text})}"""
    with build.Lock("replay_" + ver):
        d = crate_dir(ver)
        live = {}
        for k, call in calls.items():
            try:
                live[k] = case_text(E, k, call)
            except NoReplay:
                pass
        errs = {}
        for attempt in range(5):
            lines = HEAD.split("\n")
            at = {}
            for k, t in live.items():
                lines.append(t)
                at[len(lines)] = k
            lines.append("fn main() { std::panic::set_hook(Box::new(|_| {})); for a in std::env::args() { if let Ok(k) = a.parse::<usize>() { run(k) } } if std::env::args().len() == 1 { for k in 0..%d { run(k) } } }" % (max(live) + 1 if live else 0))
            lines.append("fn run(k: usize) { match k { %s _ => {} } }" % " ".join("%d => c%d()," % (k, k) for k in live))
            open(os.path.join(d, "src", "bin", "cases.rs"), "w", encoding="utf-8").write("\n".join(lines))
            e = build.env(CARGO_TARGET_DIR=os.path.join(build.WORK, "replayt", ver), CARGO_INCREMENTAL="0")
            r = subprocess.run(["cargo", "build", "--offline", "--bin", "cases", "--features", ver + ",schema_utils"], cwd=d, env=e, capture_output=True, text=True, timeout=500)
            if r.returncode == 0:
                break
            bad = {at[int(x)] for x in re.findall(r"src/bin/cases\.rs:(\d+):", r.stderr) if int(x) in at}
            if not bad:
                raise NoReplay("the replay program does not build: " + r.stderr[-1500:])
            for k in bad:
                errs[k] = 1
                live.pop(k)
            if os.environ.get("VTRACE"):
                print(r.stderr[:3000], file=sys.stderr)
        else:
            raise NoReplay("the replay program does not build")
        exe = os.path.join(build.WORK, "replayt", ver, "debug", "cases")
        res = {}
        todo = sorted(live)
        while todo:
            r = subprocess.run([exe] + [str(k) for k in todo[:2000]], capture_output=True, timeout=120)
            last = None
            for l in r.stdout.decode("utf-8", "replace").split("\n"):
                p = l.split("\t", 2)
                if len(p) == 3:
                    k = int(p[0])
                    last = k
                    v = p[2].replace("\x01", "\n")
                    e = res.setdefault(k, [None, None, {}])
                    if p[1].startswith("after"):
                        e[2][int(p[1][5:])] = v
                    else:
                        e[0], e[1] = p[1], v
            done = set(k for k in res if res[k][0])
            if r.returncode != 0:
                # the process died (abort, stack overflow): the case after the last finished one
                k = next((x for x in todo if x not in done), None)
                if k is not None:
                    res[k] = ["panic", "", {}]
                    done.add(k)
            nt = [x for x in todo if x not in done]
            if r.returncode == 0 and len(todo) <= 2000:
                break
            todo = nt
        return res


# ---------------------------------------------------------------------------- judging a unit
class Stop(Exception):
    pass


class Runner:
    """stands for the execution of the function under contract: outcomes observed on the real code"""

    def __init__(self, c, seen, interp=False):
        self.c = c
        self.seen = seen
        self.n = 0
        self.new = []
        self.fails = []
        self.unknown = 0
        self.judged = 0
        self.interp = interp

    def __call__(self, E, inst, args, st):
        c = self.c
        i = self.n
        self.n += 1
        if any(is_f(x) for x in st.pc):
            return []
        E.tops = None
        if self.interp:
            return E.run(inst, args, st)
        if i not in self.seen:
            try:
                self.new.append((i, call_text(c, E, inst, args, st)))
            except NoReplay as e:
                self.new.append((i, str(e)))
            return []
        r = self.seen[i]
        if r is None:
            return []
        call, kind, text, after = r
        if kind == "panic":
            return [X.Out("panic", st, None)]
        if c.prop == "P19":
            self.judged += 1
        rt = inst.body.locals[0]
        s2 = st.copy()
        if call[0] in ("de", "ser"):
            T = E.T[rt]
            if kind == "err":
                val = Agg(rt, 1, (Opq("shown:error"),))
            elif call[0] == "de":
                val = Agg(rt, 0, (P(E, text).val(call[1]),))
            else:
                val = Agg(rt, 0, (P(E, text).json(),))
        elif call[0] == "disp":
            val = Agg(rt, 0, (Agg(E.T[rt]["args"][0], 0, ()),))
            s2.cells[args[call[1]].cell] = mkstr([P(E, text).string()])
        elif len(call) > 4 and call[4] == "items":
            val = P(E, text).items(entry_types(c, E, inst), inst.name.endswith("iter"))
        elif len(call) > 4:
            val = Agg(rt, 0, (BoxV(dyn_err(P(E, text).string())),))
            for k, t in after.items():
                s2.cells[args[k].cell] = P(E, t).val(E.T[inst.body.locals[k + 1]]["e"])
        else:
            val = P(E, text).val(rt)
            for k, t in after.items():
                s2.cells[args[k].cell] = P(E, t).val(E.T[inst.body.locals[k + 1]]["e"])
        return [X.Out("ret", s2, val)]

    def judge(self, name, pc, goal):
        """an obligation on concrete values: broken only when it is definitely false"""
        self.judged += 1
        g = True if is_t(goal) else goal
        if g is True:
            return True
        hyp = And(*pc) if pc else True
        if is_f(hyp):
            return True
        if is_t(hyp) and is_f(g):
            self.fails.append(name)
            return False
        ax = itoas([hyp, g])
        s = z3.Solver()
        s.set("timeout", 3000)
        es = [zb(hyp), z3.Not(zb(g))] + ax
        s.add(*es)
        s.add(*relevant_axioms(es))
        if s.check() == z3.unsat:
            return True
        s = z3.Solver()
        s.set("timeout", 3000)
        es = [z3.Or(z3.Not(zb(hyp)), zb(g))] + ax
        s.add(*es)
        s.add(*relevant_axioms(es))
        if s.check() == z3.unsat:
            self.fails.append(name)
            return False
        self.unknown += 1
        return True


def itoas(es):
    out = []
    seen = set()
    st = [e for e in es if not isinstance(e, bool)]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.num_args() == 1 and x.decl().name() == "itoa":
                a = z3.simplify(x.arg(0))
                if z3.is_int_value(a):
                    out.append(x == lit(str(a.as_long())))
            st.extend(x.children())
    return out


def mined(c, label, inst_names, nums=None):
    """string constants in the code of the unit's function and of what it calls (two levels)"""
    words = set()
    todo = [(i, 0) for i in inst_names]
    seen = set()
    closures = {}
    for x in c.p.insts.values():
        if x.df and "::{closure#" in x.df:
            closures.setdefault(x.df.rsplit("::{closure#", 1)[0], []).append(x)
    while todo:
        i, d = todo.pop()
        if i is None or i.id in seen or not i.has_body or len(seen) > 60:
            continue
        seen.add(i.id)

        def walk(x):
            if isinstance(x, dict):
                if "s" in x and isinstance(x["s"], str) and len(x) == 1:
                    if len(x["s"]) < 40:
                        words.add(x["s"])
                if isinstance(x.get("ch"), int) and len(x) == 1 and not 0xd800 <= x["ch"] < 0xe000:
                    words.add(chr(x["ch"]))
                if isinstance(x.get("i"), str) and len(x) == 1 and nums is not None:
                    nums.add(int(x["i"]))
                f = x.get("inst")
                if isinstance(f, int) and d < 3 and f in c.p.insts and c.p.insts[f].krate in ("rust_mcp_schema", "vharness"):
                    todo.append((c.p.insts[f], d + 1))
                for y in x.values():
                    walk(y)
            elif isinstance(x, list):
                for y in x:
                    walk(y)
        walk(i._raw["blocks"])
        if i.df:
            # its closures
            todo += [(x, d) for x in closures.get(i.df, ()) if x.has_body]
    return words


def all_words(x, out=None):
    out = set() if out is None else out
    if isinstance(x, str):
        out.add(x)
    elif isinstance(x, dict):
        for k, y in x.items():
            out.add(k)
            all_words(y, out)
    elif isinstance(x, (list, tuple)):
        for y in x:
            all_words(y, out)
    return out


class Unit:
    """one guarded unit of one version, rerun on concrete inputs"""

    def __init__(self, c, prop, label, obs, seed):
        self.c, self.prop, self.label, self.obs = c, prop, label, obs
        self.seed = seed
        self.words = set()
        self.cases = []      # [(engine ordinal -> forced values) or None]
        self.state = []      # per case: {call index: (call, kind, text, after) | None}
        self.inputs = []
        for o in obs:
            h = o.get("hint")
            if isinstance(h, dict) and h.get("vals"):
                self.words |= set(h.get("strings", ()))
        self.words |= self.spec_words()
        self.nums = set()    # integer constants of the code
        self.odd = set()     # words of the code that the specification does not have

    def spec_words(self):
        """names and constants of the specified type the unit is about"""
        c = self.c
        out = set()
        for t in set(re.findall(r"\w+", self.label)):
            s = c.spec["structs"].get(t)
            if s:
                for f in s["fields"]:
                    out.add(f["k"]) if f.get("k") else None
                    if isinstance(f.get("const"), str):
                        out.add(f["const"])
            if t in c.spec["strenums"]:
                out |= set(c.spec["strenums"][t].values())
        return {w for w in out if w}

    def run_case(self, k, seen, interp=False):
        """re-executes the unit's contract with the inputs of case k"""
        import props
        c = self.c
        forced = self.cases[k]
        rng = random.Random("%s|%s|%s|%d" % (self.seed, c.ver, self.label, k))
        words = sorted(self.words)
        inputs = []
        counts = {}

        def provider(E, ty, name):
            n = counts.get(E.ordinal, 0)
            counts[E.ordinal] = n + 1
            v = None
            if forced is not None and forced["engine"] == E.ordinal and n < len(forced["vals"]):
                fn, fty, fv = forced["vals"][n]
                if fn == name and fty == ty:
                    v = fv
            if v is None:
                g = Gen(c, E, rng, words + 2 * sorted(self.odd)[:8], "written and read back" in self.label)
                g.nums, g.turn, g.label = sorted(self.nums)[:40], k, self.label
                if ty is not None and E.is_string(E.stripref(ty)):
                    g.heard = sorted({w for _, t2, x in inputs for w in strings_of(E, x)} - {""})[:30]
                if ty is None:
                    v = jv(self.document(E, k, rng, words))
                elif rng.random() < 0.8 and self.read_type() and (E.jty(ty) or E.T[ty]["k"] == "ref" and E.jty(E.T[ty]["e"])):
                    # a library document handed to a function that makes a specified type of it
                    d = self.document(E, k, rng, words)
                    m = "Map" in (E.jty(ty), E.T[ty]["k"] == "ref" and E.jty(E.T[ty]["e"]))
                    v = jv(d if isinstance(d, dict) or not m else {})
                    v = VRef(v) if E.T[ty]["k"] == "ref" else v
                elif E.is_string(ty) and self.text_type() and rng.random() < 0.9:
                    # the text of a document
                    d = self.document(E, k, rng, words)
                    v = mkstr([doc_text(d, rng)])
                else:
                    alike = [x for _, t2, x in inputs if t2 is not None and (t2 == ty or E.stripref(t2) == E.stripref(ty))]
                    v = near(E, rng.choice(alike), rng) if alike and rng.random() < 0.45 else g.val(ty, 0)
            inputs.append((name, ty, v))
            return v
        R = Runner(c, seen, interp)
        c.engine_class, c.provider, c.runner, c.target = CE, provider, R, self.label
        c.shard = None
        n = len(c.obs)
        try:
            props.PROPS[self.prop]["run"](c)
        finally:
            c.engine_class = c.provider = c.runner = c.target = None
            del c.obs[n:]
        return R, inputs

    def read_type(self):
        """the specified type this unit reads from a document"""
        m = re.match(r"^(\w+)::deserialize$", self.label) or re.match(r"^<(\w+) as (?:Try)?From<&?(?:Map|Value)\b", self.label) or re.match(r"^<(\w+) as FromStr>", self.label)
        return m.group(1) if m and m.group(1) in self.c.p.local_adts else None

    def text_type(self):
        return re.match(r"^<(\w+) as FromStr>", self.label) and self.read_type() and self.read_type() not in self.c.spec["strenums"]

    def document(self, E, k, rng, words):
        """the k-th document for a reader: neighbours of specified documents of the type"""
        c = self.c
        tn = self.read_type()
        if not tn:
            return Gen(c, E, rng, words).json()
        if not hasattr(self, "docs"):
            r2 = random.Random("%s|%s|%s" % (self.seed, c.ver, self.label))
            ti = c.p.local_adts[tn]
            CEe = CE(c.p)
            CEe.inv = c.inv
            CEe.tops = None
            bases, out = [], []
            T = c.T[ti]
            for i in range(40):
                try:
                    g = Gen(c, CEe, r2, words)
                    if T["kind"] == "Enum":
                        vi = i % len(T["vs"])
                        v = Agg(ti, vi, [g.val(f[1], 1) for f in T["vs"][vi]["fields"]])
                    else:
                        v = g.val(ti, 0)
                    bases.append(spec_json(c, CEe, ti, v))
                except (NoReplay, Unsupported, IndexError):
                    pass
            if not bases:
                bases = [Gen(c, CEe, r2, words).obj() for _ in range(10)]
            for b in bases:
                out.append(doc_variants(b, words, r2))
            ds = [b for b in bases if isinstance(b, dict)]
            mix = []
            for _ in range(60 if len(ds) > 1 else 0):
                # members of two documents together
                a, b = r2.choice(ds), r2.choice(ds)
                mix.append({**a, **b} if r2.random() < 0.5 else {**a, **{k: b[k] for k in b if r2.random() < 0.4}})
            out.append(mix)
            self.docs = []
            i = 0
            while any(i < len(o) for o in out) and len(self.docs) < 4000:
                for o in out:
                    if i < len(o):
                        self.docs.append(o[i])
                i += 1
            r2.shuffle(self.docs)
            odd = sorted(self.odd)[:8]
            if odd:
                ods = [d for b in bases for d in odd_variants(b, odd)]
                r2.shuffle(ods)
                self.docs = [x for p in zip(self.docs, ods) for x in p] + self.docs[len(ods):] + ods[len(self.docs):]
        return self.docs[k % len(self.docs)] if self.docs else None


def explain(c, E, inputs):
    out = []
    for name, ty, v in inputs:
        try:
            out.append({"argument": name, "value": json.dumps(pj(E, v)) if ty is None else rexpr(E, ty, v)})
        except (NoReplay, Unsupported, AttributeError):
            out.append({"argument": name, "value": repr(v)[:500]})
    return out


def decide_version(c, prop, groups, seed, ncases, budget):
    """groups: {unit label: [failed obligations]}; returns {label: verdict}"""
    t0 = time.time()
    E = CE(c.p)
    E.inv = c.inv
    units = []
    for label, obs in groups.items():
        u = Unit(c, prop, label, obs, seed)
        hints = [o["hint"] for o in obs if isinstance(o.get("hint"), dict) and o["hint"].get("vals")]
        u.cases = [h for h in hints[:10]] + [None] * ncases
        u.nh = len(hints[:10])
        u.state = [dict() for _ in u.cases]
        u.why = ""
        units.append(u)
    verdict = {}
    sw = all_words(c.spec)
    # learn the functions the units call, for their constants
    for u in units:
        try:
            insts = []

            class L(Runner):
                def __call__(self, E, inst, args, st):
                    insts.append(inst)
                    return []
            old = c.runner
            c.target, c.runner = u.label, L(c, {})
            import props
            n = len(c.obs)
            try:
                props.PROPS[prop]["run"](c)
            finally:
                c.target, c.runner = None, None
                del c.obs[n:]
            if len(insts) < 20:
                m = {w for w in mined(c, u.label, insts, u.nums) if w.strip()}
                u.nums = {n for n in u.nums if n > 2 and n < 2 ** 64 or n < -1}
                u.words |= m
                u.odd = {w for w in m if w not in sw and not re.search(r"[A-Z]\w*[A-Z]|\s\w+\s", w)}
        except Exception as e:
            u.why = "%s: %s" % (type(e).__name__, e)
    def clock(what):
        if os.environ.get("VTRACE"):
            print("replay clock %s %s %.1f" % (c.ver, what, time.time() - t0), file=sys.stderr)
    for rnd in range(3):
        clock("round %d" % rnd)
        calls, back = {}, {}
        for ui, u in enumerate(units):
            for k in range(len(u.cases)):
                if time.time() - t0 > budget * 0.6 and k >= u.nh:
                    break
                if u.state[k] is None:
                    continue
                try:
                    R, inp = u.run_case(k, u.state[k])
                except Exception as e:
                    u.state[k] = None
                    u.why = "%s: %s" % (type(e).__name__, e)
                    if os.environ.get("VTRACE"):
                        traceback.print_exc()
                    continue
                for i, call in R.new:
                    if isinstance(call, str):
                        u.why = call
                        u.state[k][i] = None
                    else:
                        n = len(calls)
                        calls[n] = call
                        back[n] = (ui, k, i)
        if not calls:
            break
        clock("execute")
        try:
            res = execute(c.ver, E, calls)
        except (NoReplay, subprocess.TimeoutExpired, build.BuildError) as e:
            for u in units:
                u.why = str(e)[:400]
            break
        for n, (ui, k, i) in back.items():
            r = res.get(n)
            units[ui].state[k][i] = (calls[n], r[0], r[1], r[2]) if r and r[0] else None
    clock("judge")
    for u in units:
        fails, judged, unknown, ran = [], 0, 0, 0
        agree = {}
        for k in range(len(u.cases)):
            if not u.state[k]:
                continue
            if k >= u.nh and time.time() - t0 > budget * 1.2:
                break
            try:
                R, inp = u.run_case(k, u.state[k])
            except Exception as e:
                u.why = "%s: %s" % (type(e).__name__, e)
                if os.environ.get("VTRACE"):
                    traceback.print_exc()
                continue
            ran += 1
            judged += R.judged
            unknown += R.unknown
            if R.fails:
                obsd = [dict(call=list(map(str, s[0][-1:])), outcome=s[1], value=(s[2] or "")[:600]) for s in u.state[k].values() if s]
                fails.append(dict(obligations=sorted(set(R.fails)), inputs=explain(c, E, inp), observed=obsd, from_model=k < u.nh))
                if len(fails) >= 5:
                    break
            elif k < u.nh:
                # does the verifier, on this very input, still see the failure the real code does not show?
                try:
                    R2, _ = u.run_case(k, {}, interp=True)
                    agree[k] = bool(R2.fails)
                except Exception:
                    agree[k] = None
        verdict[u.label] = dict(fails=fails, cases=ran, judged=judged, unknown=unknown, spurious=bool(agree) and all(agree.values()) and len(agree) == u.nh, why=u.why)
    return verdict
