"""Symbolic values.  All values are immutable; z3 terms are shared inside one process."""
import z3

S = z3.DeclareSort("Str")
J = z3.DeclareSort("Json")
U = z3.DeclareSort("Val")
B = z3.BoolSort()
I = z3.IntSort()
sid = z3.Function("sid", S, I)
KIND = z3.Function("kind", J, I)
HAS = z3.Function("has", J, S, B)
GET = z3.Function("get", J, S, J)
JSTR = z3.Function("jstr", J, S)
JBOOL = z3.Function("jbool", J, B)
JINT = z3.Function("jint", J, I)
JNUM = z3.Function("jnum", J, U)
JARR = z3.Function("jarr", J, U)
EMPTYOBJ = z3.Function("emptyobj", J, B)
LEN = z3.Function("len", U, I)
DISC = z3.Function("disc", U, I)
K_NULL, K_BOOL, K_INT, K_FLT, K_STR, K_ARR, K_OBJ = range(7)
KN = ["null", "bool", "int", "float", "str", "arr", "obj"]
VALUE_VARIANTS = [(K_NULL,), (K_BOOL,), (K_INT, K_FLT), (K_STR,), (K_ARR,), (K_OBJ,)]

_lits = {}
CATS = {}      # name of a concatenation -> its literal parts (None: an argument)
axioms = []
_fn = {}
_axid = set()


def axiom(a):
    if a is True:
        return
    i = a.get_id()
    if i not in _axid:
        _axid.add(i)
        axioms.append(a)


def lit(s):
    r = _lits.get(s)
    if r is None:
        r = z3.Const("'" + s + "'", S)
        _lits[s] = r
        _lit_of[r.get_id()] = s
        axiom(sid(r) == len(_lits))
    return r


_lit_of = {}


def lit_of(t):
    return _lit_of.get(t.get_id())


def ufn(name, *sorts):
    k = (name,) + tuple(s.name() for s in sorts)
    r = _fn.get(k)
    if r is None:
        r = z3.Function(name, *sorts)
        _fn[k] = r
    return r


_fresh = [0]


def fresh(prefix, sort):
    _fresh[0] += 1
    return z3.Const("%s!%d" % (prefix, _fresh[0]), sort)


def is_t(x):
    return x is True or (isinstance(x, z3.BoolRef) and z3.is_true(x))


def is_f(x):
    return x is False or (isinstance(x, z3.BoolRef) and z3.is_false(x))


def Not(a):
    if isinstance(a, bool):
        return not a
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def And(*xs):
    out = []
    seen = set()
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = And(*x)
        if is_f(x):
            return False
        if is_t(x):
            continue
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def Or(*xs):
    out = []
    seen = set()
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = Or(*x)
        if is_t(x):
            return True
        if is_f(x):
            continue
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    for x in out:
        if Not(x).get_id() in seen:
            return True
    return z3.Or(*out)


def Implies(a, b):
    return Or(Not(a), b)


def Eqb(a, b):
    """boolean equivalence"""
    if isinstance(a, bool):
        return b if a else Not(b)
    if isinstance(b, bool):
        return a if b else Not(a)
    if a.get_id() == b.get_id():
        return True
    return a == b


def If(c, a, b):
    """if-then-else on z3/py scalars"""
    if is_t(c):
        return a
    if is_f(c):
        return b
    if isinstance(a, bool) and isinstance(b, bool):
        return a if a == b else (c if a else Not(c))
    if isinstance(a, bool):
        return Or(c, b) if a else And(Not(c), b)
    if isinstance(b, bool):
        return Or(Not(c), a) if b else And(c, a)
    if isinstance(a, int) and isinstance(b, int) and a == b:
        return a
    return z3.If(c, a, b)


class Val:
    __slots__ = ()


class Agg(Val):
    __slots__ = ("ty", "var", "fs")

    def __init__(self, ty, var, fs):
        self.ty = ty
        self.var = var
        self.fs = tuple(fs)

    def __repr__(self):
        return "Agg(%s/%s %r)" % (self.ty, self.var, list(self.fs))


class Sym(Val):
    __slots__ = ("ty", "t")

    def __init__(self, ty, t):
        self.ty = ty
        self.t = t

    def __repr__(self):
        return "Sym(%s:%s)" % (self.t, self.ty)


class Ite(Val):
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c = c
        self.a = a
        self.b = b

    def __repr__(self):
        return "Ite(%s, %r, %r)" % (self.c, self.a, self.b)


class Ptr(Val):
    __slots__ = ("cell", "path")

    def __init__(self, cell, path=()):
        self.cell = cell
        self.path = path

    def __repr__(self):
        return "Ptr(%s%s)" % (self.cell, self.path)


class VRef(Val):
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return "&%r" % (self.v,)


class BoxV(Val):
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return "Box(%r)" % (self.v,)


def _leaves(x, limit=65):
    """number of leaves of a conditional string"""
    if z3.is_app_of(x, z3.Z3_OP_ITE):
        n = _leaves(x.arg(1), limit)
        return n if n > limit else n + _leaves(x.arg(2), limit)
    return 1


class Str(Val):
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = parts

    def __repr__(self):
        return "Str(%r)" % (self.parts,)

    @property
    def lit(self):
        if not self.parts:
            return ""
        if len(self.parts) == 1 and isinstance(self.parts[0], str):
            return self.parts[0]
        return None

    def term(self):
        p = self.parts
        if not p:
            return lit("")
        if len(p) == 1:
            return lit(p[0]) if isinstance(p[0], str) else p[0]
        n = 1
        for x in p:
            if not isinstance(x, str):
                n *= _leaves(x)
        if 1 < n <= 64:
            for i, x in enumerate(p):
                if not isinstance(x, str) and _leaves(x) > 1:
                    a, b = x.arg(1), x.arg(2)
                    return z3.If(x.arg(0), mkstr(p[:i] + (a,) + p[i + 1:]).term(), mkstr(p[:i] + (b,) + p[i + 1:]).term())
        name = "cat:" + "|".join(x if isinstance(x, str) else "{}" for x in p)
        args = [x for x in p if not isinstance(x, str)]
        CATS[name] = tuple(x if isinstance(x, str) else None for x in p)
        return ufn(name, *([S] * len(args)), S)(*args)


def mkstr(parts):
    out = []
    for p in parts:
        if isinstance(p, Str):
            ps = p.parts
        else:
            ps = (p,)
        for q in ps:
            if isinstance(q, str):
                if q == "":
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] = out[-1] + q
                    continue
            else:
                l = lit_of(q)
                if l is not None:
                    if l == "":
                        continue
                    if out and isinstance(out[-1], str):
                        out[-1] += l
                        continue
                    q = l
            out.append(q)
    return Str(tuple(out))


class VecV(Val):
    """Vec / slice / array with known elements"""
    __slots__ = ("es",)

    def __init__(self, es):
        self.es = tuple(es)

    def __repr__(self):
        return "Vec%r" % (list(self.es),)


class FnV(Val):
    __slots__ = ("ty",)

    def __init__(self, ty):
        self.ty = ty


class DiscV(Val):
    __slots__ = ("v", "ty")

    def __init__(self, v, ty):
        self.v = v
        self.ty = ty


class Opq(Val):
    """opaque value: uninterpreted constructor `tag` over args"""
    __slots__ = ("tag", "args")

    def __init__(self, tag, args=()):
        self.tag = tag
        self.args = tuple(args)

    def __repr__(self):
        return "Opq(%s %r)" % (self.tag, list(self.args))


class _Bot(Val):
    def __repr__(self):
        return "BOT"


BOT = _Bot()


# ---- JSON
class JV(Val):
    __slots__ = ()


class JSym(JV):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "J(%s)" % self.t


class _JNull(JV):
    __slots__ = ()

    def __repr__(self):
        return "JNull"


JNull = _JNull()


class JB(JV):
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = b


class JI(JV):
    __slots__ = ("i",)

    def __init__(self, i):
        self.i = i


class JF(JV):
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class JS(JV):
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return "JS(%r)" % (self.s,)


class JA(JV):
    """array whose elements are the Rust value v (a Vec<Value>)"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class JO(JV):
    """object built by layered operations, later ones win:
    ('put', keyStr, cond, jv) ('base', cond, jv) ('del', keyStr)"""
    __slots__ = ("ops",)

    def __init__(self, ops):
        self.ops = tuple(ops)

    def __repr__(self):
        return "JO%r" % (list(self.ops),)


class JSer(JV):
    """the JSON that serialising value v of type ty (a tstr) yields"""
    __slots__ = ("ty", "v")

    def __init__(self, ty, v):
        self.ty = ty
        self.v = v

    def __repr__(self):
        return "ser<%s>(%r)" % (self.ty, self.v)


def _jnull():
    return JNull


def _bot():
    return BOT


_JNull.__reduce__ = lambda self: (_jnull, ())
_Bot.__reduce__ = lambda self: (_bot, ())


class Unsupported(Exception):
    pass


def zb(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c


def zi(x):
    return z3.IntVal(x) if isinstance(x, int) else x
