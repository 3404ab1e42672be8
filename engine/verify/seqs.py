"""Contracts of vectors, slices and iterator adaptors over known and unknown sequences.

An iterator is a list of segments: single elements (present under a condition) and generic segments, which stand
for all elements of an unknown sequence; a closure is applied to the generic element, and any/all/count/find
become predicates of the sequence named by what they ask of an element."""
import z3
from sym import *
import contracts
from contracts import TABLE, Out, v_, opt, cellptr, unit, veclen, body_name, mkstr, strv


def C(*names):
    """a contract that goes before the one already there (which is asked when this one does not apply)"""
    def deco(fn):
        for n in names:
            old = TABLE.get(n)

            def both(E, st, f, inst, args, dty, old=old):
                r = fn(E, st, f, inst, args, dty)
                if r is NotImplemented and old is not None:
                    return old(E, st, f, inst, args, dty)
                return r
            TABLE[n] = both
        return fn
    return deco


class One:
    __slots__ = ("cond", "val")

    def __init__(self, cond, val):
        self.cond, self.val = cond, val


class Gen_:
    """every element of an unknown sequence v under a guard; mk(st, element) -> (condition, value)"""
    __slots__ = ("guard", "v", "ety", "mk")

    def __init__(self, guard, v, ety, mk):
        self.guard, self.v, self.ety, self.mk = guard, v, ety, mk


class JGen(Gen_):
    """every member of a JSON object v under a guard; mk(st, (key, value)) -> (condition, value)"""
    __slots__ = ()


class It(Opq):
    """iterator: adaptors over a base; args are only used for comparisons"""
    __slots__ = ("base", "op", "fn", "n")

    def __init__(self, op, base, fn=None, n=None):
        super().__init__("it:" + op, (base,) + ((fn,) if fn is not None else ()) + ((n,) if isinstance(n, int) else ()))
        self.op, self.base, self.fn, self.n = op, base, fn, n


def is_it(x):
    return isinstance(x, Opq) and (x.tag in ("iter", "itermap") or x.tag in MAPS or isinstance(x, It))


MAPS = {"btree_iter": lambda k, v: Agg(None, 0, (VRef(k), VRef(v))), "btree_keys": lambda k, v: VRef(k), "btree_values": lambda k, v: VRef(v)}


def gen_elem(E, x):
    """the generic element of a segment"""
    if isinstance(x, JGen):
        raise Unsupported("iteration over the members of a JSON object")
    if isinstance(x.ety, tuple):
        return Agg(None, 0, (E.mkval_const(x.ety[0], "key"), E.mkval_const(x.ety[1], "elem")))
    return E.mkval_const(x.ety, "elem")


def no_map(x):
    if isinstance(x.ety, tuple):
        raise Unsupported("one entry of an unknown map")


def map_segs(E, m, show, guard=True):
    """the entries of a map, in the order of their keys"""
    es = getattr(m, "entries", None)
    if isinstance(m, Opq) and m.tag == "emptymap" or m is BOT:
        return []
    if es is not None:
        return [One(guard, show(Str((a,)), x)) for a, x in es]
    if isinstance(m, JV):
        return [JGen(guard, m, ("json",), lambda s, e: (True, show(*e)))]
    if isinstance(m, Ite):
        return map_segs(E, m.a, show, And(guard, m.c)) + map_segs(E, m.b, show, And(guard, Not(m.c)))
    if isinstance(m, Sym) and isinstance(m.ty, int):
        d = E.T[m.ty]
        if d["k"] == "adt" and d["name"] in ("std::collections::BTreeMap", "std::collections::HashMap"):
            return [Gen_(guard, m, tuple(d["args"][:2]), lambda s, e: (True, show(*e.fs)))]
    raise Unsupported("entries of %r" % (m,))


def merged(E, st, fn, args, dty):
    """value of a closure, its paths merged (it may not touch memory)"""
    outs = E.apply_fn(st.copy(), fn, args, dty)
    n = len(st.pc)
    r = None
    conds = []
    for o in outs:
        c = And(*o.st.pc[n:])
        if o.kind != "ret":
            raise Unsupported("closure panics")
        for ck, x in st.cells.items():
            y = o.st.cells.get(ck)
            if y is not x and not (y is not None and E.same(x, y)):
                raise Unsupported("closure writes")
        val = o.val
        if isinstance(val, Ptr):
            val = VRef(E.deref_all(o.st, val))
        r = val if r is None else (E.ite(c, val, r) if isinstance(val, Val) or isinstance(r, Val) else If(c, val, r))
    if r is None:
        raise Unsupported("closure has no value")
    return r


def base_segs(E, st, v, byref, guard=True):
    w = (lambda x: VRef(x)) if byref else (lambda x: x)
    if isinstance(v, BoxV):
        v = v.v
    if isinstance(v, VecV):
        return [One(guard, w(x)) for x in v.es]
    if v is BOT:
        return []
    if isinstance(v, Ite):
        return base_segs(E, st, v.a, byref, And(guard, v.c)) + base_segs(E, st, v.b, byref, And(guard, Not(v.c)))
    if isinstance(v, Opq) and v.tag == "push":
        return base_segs(E, st, v.args[0], byref, guard) + [One(guard, w(v.args[1]))]
    if isinstance(v, Sym):
        return [Gen_(guard, v, E.elem_ty(v.ty), lambda s, e: (True, w(e)))]
    raise Unsupported("iteration over %r" % (v,))


def opt_parts(E, x):
    c = E.cv(x, None, 1)
    return c, (E.proj(x, 1, 0, None) if not is_f(c) else BOT)


def segs(E, st, it):
    if it.tag == "iter":
        return base_segs(E, st, it.args[0], it.args[1])
    if it.tag in MAPS:
        return map_segs(E, it.args[0], MAPS[it.tag])
    if it.tag == "itermap":
        it = It("map", it.args[0], it.args[1])
    if not isinstance(it, It):
        raise Unsupported("iteration over %r" % (it,))
    op, fn = it.op, it.fn
    if op == "chain":
        return segs(E, st, it.base) + segs(E, st, fn)
    ss = segs(E, st, it.base)
    if op == "deref":
        f = lambda s, c, x: (c, v_(E, s, x))
    elif op == "map":
        f = lambda s, c, x: (c, merged(E, s, fn, [x], None))
    elif op == "filter":
        f = lambda s, c, x: (And(c, merged(E, s, fn, [VRef(x)], None)), x)
    elif op == "filter_map":
        def f(s, c, x):
            k, y = opt_parts(E, merged(E, s, fn, [x], None))
            return And(c, k), y
    elif op == "rev":
        return [x for x in reversed(ss)] if all(isinstance(x, One) for x in ss) else unsup("reversal")
    elif op == "enumerate":
        if all(isinstance(x, One) and is_t(x.cond) for x in ss):
            return [One(True, Agg(None, 0, (i, x.val))) for i, x in enumerate(ss)]
        # the position of a generic element: nothing that is asked of every element may depend on it
        f = lambda s, c, x: (c, Agg(None, 0, (fresh("seqidx", I), x)))
    elif op in ("take", "skip", "step"):
        if not all(isinstance(x, One) and is_t(x.cond) for x in ss):
            raise Unsupported(op + " of an unknown sequence")
        if not isinstance(it.n, int):
            raise Unsupported(op)
        return ss[:it.n] if op == "take" else ss[it.n:] if op == "skip" else ss[::it.n]
    else:
        raise Unsupported("iterator " + op)
    out = []
    for x in ss:
        if isinstance(x, One):
            out.append(One(*f(st, x.cond, x.val)))
        else:
            out.append(type(x)(x.guard, x.v, x.ety, lambda s, e, m=x.mk: f(s, *m(s, e))))
    return out


def unsup(w):
    raise Unsupported(w)


def exists_(E, st, ss, pred):
    """some element satisfies pred(st, value)"""
    r = []
    for x in ss:
        if isinstance(x, One):
            if not is_f(x.cond):
                r.append(And(x.cond, pred(st, x.val)))
        elif isinstance(x, JGen):
            r.append(And(x.guard, some_member(E, st, x, pred)))
        else:
            e = gen_elem(E, x)
            c, v = x.mk(st, e)
            body = And(c, pred(st, v))
            r.append(And(x.guard, contracts.quant(E, "any", x.v, e, body)))
    return Or(*r)


def str_consts(r):
    """the fixed strings in a term"""
    out, seen, stack = {}, set(), [r] if isinstance(r, z3.ExprRef) else []
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        s = lit_of(x)
        if s is not None:
            out[s] = x
        stack.extend(x.children())
    return out


def some_member(E, st, x, pred):
    """some member of a JSON object satisfies pred: decided where only members of fixed names can"""
    k, j = z3.Const("member:key", S), z3.Const("member:value", J)
    c, v = x.mk(st, (Str((k,)), JSym(j)))
    body = And(c, pred(st, v))
    if is_f(body):
        return False
    if is_t(body):
        return contracts.jnonempty(E, x.v)
    body = zb(body)
    names = str_consts(body)
    if is_f(simp(z3.And(body, *[k != t for t in names.values()]))):
        r = []
        for n in sorted(names):
            key = Str((n,))
            c, v = x.mk(st, (key, E.jget(x.v, key)))
            r.append(And(E.jhas(x.v, key), c, pred(st, v)))
        return Or(*r)
    raise Unsupported("a question about members of any name")


def take_it(E, st, a):
    it = v_(E, st, a)
    if not is_it(it):
        raise Unsupported("iterator %r" % (it,))
    return it


NONE = object()


def used_up(E, st, a):
    """an iterator taken by reference is left where the call stopped: not modelled, so it may not be used again"""
    if isinstance(a, Ptr):
        p = cellptr(E, st, a)
        E.store(st, p, Opq("usediter"))


@C("std::iter::Iterator::map", "std::iter::Iterator::filter", "std::iter::Iterator::filter_map")
def _(E, st, f, inst, args, dty):
    if not is_it(args[0]):
        raise Unsupported("adaptor over %r" % (args[0],))
    n = f["def"].split("::")[-1]
    if n == "map" and args[0].tag == "iter":
        return Opq("itermap", (args[0], args[1]))
    return It(n, args[0], args[1])


@C("std::iter::Iterator::rev", "std::iter::Iterator::fuse", "std::iter::Iterator::peekable")
def _(E, st, f, inst, args, dty):
    if not is_it(args[0]):
        raise Unsupported("adaptor over %r" % (args[0],))
    n = f["def"].split("::")[-1]
    if n == "peekable":
        raise Unsupported("peekable")
    return It("rev", args[0]) if n == "rev" else args[0]


@C("std::iter::Iterator::chain")
def _(E, st, f, inst, args, dty):
    b = args[1]
    if isinstance(b, (VecV, Sym)):
        b = Opq("iter", (b, False))
    if not (is_it(args[0]) and is_it(b)):
        raise Unsupported("chain")
    return It("chain", args[0], b)


@C("std::iter::Iterator::take", "std::iter::Iterator::skip", "std::iter::Iterator::step_by")
def _(E, st, f, inst, args, dty):
    if not is_it(args[0]):
        raise Unsupported("adaptor over %r" % (args[0],))
    n = f["def"].split("::")[-1]
    k = args[1]
    if not isinstance(k, int):
        k = z3.simplify(zi(k))
        k = k.as_long() if z3.is_int_value(k) else None
    return It({"step_by": "step"}.get(n, n), args[0], None, k)


@C("std::iter::Iterator::enumerate")
def _(E, st, f, inst, args, dty):
    if not is_it(args[0]):
        raise Unsupported("adaptor over %r" % (args[0],))
    return It("enumerate", args[0])


@C("serde_json::Map::iter", "serde_json::Map::keys", "serde_json::Map::values", "std::iter::IntoIterator::into_iter")
def _(E, st, f, inst, args, dty):
    n = f["def"].split("::")[-1]
    if n == "into_iter":
        t = E.T[f["args"][0]]
        if not (t["k"] == "ref" and E.jty(t["e"]) == "Map"):
            return NotImplemented
    return Opq("btree_" + ("iter" if n == "into_iter" else n), (contracts.jv(E, st, args[0]),))


def empty_vecs(x, to):
    """x with its empty vectors replaced, and how many there were"""
    if isinstance(x, VecV) and not x.es:
        return to, 1
    if isinstance(x, Agg):
        ps = [empty_vecs(y, to) for y in x.fs]
        return Agg(x.ty, x.var, tuple(p for p, _ in ps)), sum(n for _, n in ps)
    return x, 0


HOLE = Opq("foldhole")


def mentions(x, h):
    if x is h:
        return True
    if isinstance(x, Agg):
        return any(mentions(y, h) for y in x.fs)
    if isinstance(x, VecV):
        return any(mentions(y, h) for y in x.es)
    if isinstance(x, Opq):
        return any(mentions(y, h) for y in x.args)
    if isinstance(x, Ite):
        return mentions(x.a, h) or mentions(x.b, h)
    if isinstance(x, (VRef, BoxV)):
        return mentions(x.v, h)
    return False


def fold_pushes(E, st, x, acc, fn, dty):
    """a fold that appends the image of every element to the one empty vector of the value it starts from"""
    hole, n = empty_vecs(acc, HOLE)
    e = gen_elem(E, x)
    c, y = x.mk(st, e)
    if n != 1 or not is_t(c):
        raise Unsupported("fold")
    r = merged(E, st, fn, [hole, y], dty)

    def split(a, b):
        if a is HOLE:
            if not (isinstance(b, Opq) and b.tag == "push" and b.args[0] is HOLE) or mentions(b.args[1], HOLE):
                raise Unsupported("fold")
            z = v_(E, st, b.args[1])
            return mapped(E, st, x.v, e, z)
        if isinstance(a, Agg) and isinstance(b, Agg) and a.var == b.var and len(a.fs) == len(b.fs):
            return Agg(a.ty, a.var, tuple(split(p, q) for p, q in zip(a.fs, b.fs)))
        if not (a is b or E.same(a, b)):
            raise Unsupported("fold")
        return b
    return split(hole, r)


@C("std::iter::Iterator::fold")
def _(E, st, f, inst, args, dty):
    """a fold of a truth value in which one of the two values is final, or one that appends to a vector"""
    acc, fn = args[1], args[2]
    ss = segs(E, st, take_it(E, st, args[0]))
    used_up(E, st, args[0])
    if len(ss) == 1 and isinstance(ss[0], Gen_) and is_t(ss[0].guard) and isinstance(acc, (Agg, VecV)):
        return fold_pushes(E, st, ss[0], acc, fn, dty)
    for x in ss:
        if isinstance(x, One) and is_t(x.cond):
            acc = merged(E, st, fn, [acc, x.val], dty)
            continue
        if isinstance(x, One) or not isinstance(acc, (bool, z3.BoolRef)) or not is_t(x.guard):
            raise Unsupported("fold")
        e = gen_elem(E, x)
        c, y = x.mk(st, e)
        t, u = [merged(E, st, fn, [b, y], dty) for b in (True, False)]
        t, u = Or(Not(c), t), And(c, u)
        if is_t(simp(t)):
            acc = Or(acc, contracts.quant(E, "any", x.v, e, u))
        elif is_f(simp(u)):
            acc = And(acc, contracts.quant(E, "all", x.v, e, t))
        else:
            raise Unsupported("fold")
    return acc


def simp(x):
    """decided truth, where it is"""
    if isinstance(x, bool):
        return x
    x = z3.simplify(x)
    for r in (True, False):
        s = z3.Solver()
        s.set("timeout", 1000)
        s.add(z3.Not(x) if r else x)
        if s.check() == z3.unsat:
            return r
    return x


@C("std::iter::Iterator::cloned", "std::iter::Iterator::copied")
def _(E, st, f, inst, args, dty):
    it = args[0]
    if not is_it(it):
        return NotImplemented
    if it.tag == "iter" and it.args[1]:
        return Opq("iter", (it.args[0], False))
    return It("deref", it)


@C("std::iter::Iterator::any", "std::iter::Iterator::all", "std::iter::Iterator::count", "std::iter::Iterator::find", "std::iter::Iterator::find_map", "std::iter::Iterator::position", "std::iter::Iterator::last", "std::iter::Iterator::for_each")
def _(E, st, f, inst, args, dty):
    n = f["def"].split("::")[-1]
    it = take_it(E, st, args[0])
    ss = segs(E, st, it)
    used_up(E, st, args[0])
    if n in ("any", "all"):
        p = lambda s, x: zb(merged(E, s, args[1], [x], None)) if n == "any" else Not(merged(E, s, args[1], [x], None))
        r = exists_(E, st, ss, p)
        return r if n == "any" else Not(r)
    if n == "count":
        r = 0
        for x in ss:
            if isinstance(x, One):
                r = r + (1 if is_t(x.cond) else 0 if is_f(x.cond) else z3.If(zb(x.cond), 1, 0))
                continue
            e = gen_elem(E, x)
            c, _ = x.mk(st, e)
            if is_f(c):
                continue
            L = contracts.maplen(E, x.v, st) if isinstance(x.ety, tuple) else veclen(E, x.v)
            if is_t(c):
                k = L
            else:
                q = contracts.quant(E, "any", x.v, e, c)
                k = ufn("count:" + body_name(zb(c)), U, I)(E.term(x.v))
                axiom(z3.And(k >= 0, k <= zi(L), (k > 0) == zb(q)))
            r = r + (k if is_t(x.guard) else z3.If(zb(x.guard), zi(k), 0))
        return r
    if n in ("find", "find_map"):
        def test(s, x):
            if n == "find":
                return merged(E, s, args[1], [VRef(x)], None), x
            return opt_parts(E, merged(E, s, args[1], [x], None))
        r = Agg(dty, 0, ())
        for x in reversed(ss):
            if isinstance(x, One):
                c, y = test(st, x.val)
                c = And(x.cond, c)
            else:
                e = gen_elem(E, x)
                c0, v0 = x.mk(st, e)
                c1, _ = test(st, v0)
                body = And(c0, c1)
                if is_f(body):
                    continue
                q = contracts.quant(E, "any", x.v, e, body)
                no_map(x)
                w = E.mkval(x.ety, E.term(x.v), "first:%s:%s" % (body_name(zb(body)), E.ts(x.ety))) if not is_t(body) else first_of(E, x.v, x.ety)
                cw, vw = x.mk(st, w)
                cc, y = test(st, vw)
                c = And(x.guard, q)
                if not is_f(q):
                    E.assume(st, Implies(c, And(cw, cc)))
            if not is_f(c):
                r = E.ite(c, Agg(dty, 1, (y,)), r)
        return r
    if n == "position":
        if all(isinstance(x, One) and is_t(x.cond) for x in ss):
            r = Agg(dty, 0, ())
            for i, x in reversed(list(enumerate(ss))):
                r = E.ite(merged(E, st, args[1], [x.val], None), Agg(dty, 1, (i,)), r)
            return r
        if len(ss) != 1:
            raise Unsupported("position")
        x = ss[0]
        q = exists_(E, st, ss, lambda s, y: zb(merged(E, s, args[1], [y], None)))
        k = ufn("opq:position", U, B, I)(E.term(x.v), zb(q))
        axiom(k >= 0)
        E.assume(st, Implies(q, k < zi(veclen(E, x.v))))
        return opt(E, dty, q, k)
    if n == "last" and all(isinstance(x, One) and is_t(x.cond) for x in ss):
        return Agg(dty, 1, (ss[-1].val,)) if ss else Agg(dty, 0, ())
    raise Unsupported("iterator " + n)


def first_of(E, v, ety):
    return E.mkval(ety, v.t, "elem0:" + E.ts(v.ty))


@C("std::iter::IntoIterator::into_iter")
def _(E, st, f, inst, args, dty):
    return args[0] if is_it(args[0]) or is_range(E, args[0]) else NotImplemented


def is_range(E, r):
    return isinstance(r, Agg) and r.ty is not None and E.T[r.ty]["k"] == "adt" and E.T[r.ty]["name"].endswith("::Range")


@C("std::iter::Iterator::next")
def _(E, st, f, inst, args, dty):
    p = cellptr(E, st, args[0])
    it = E.deref(st, p)
    if isinstance(p, Ptr) and not p.path and p.cell in st.iters or not is_it(it) or it.tag == "iter" and isinstance(it.args[0], VecV):
        return NotImplemented
    ss = segs(E, st, it)
    if not all(isinstance(x, One) and is_t(x.cond) for x in ss):
        if len(ss) == 1 and isinstance(ss[0], Gen_):
            # only the first element is looked at
            x = ss[0]
            no_map(x)
            e = gen_elem(E, x)
            c, _ = x.mk(st, e)
            if is_t(x.guard) and not is_t(c) and not is_f(c):
                q = contracts.quant(E, "any", x.v, e, c)
                w = E.mkval(x.ety, E.term(x.v), "first:%s:%s" % (body_name(zb(c)), E.ts(x.ety)))
                cw, y = x.mk(st, w)
                E.assume(st, Implies(q, cw))
                E.store(st, p, Opq("usediter"))
                return opt(E, dty, q, y)
            if is_t(c) and is_t(x.guard):
                E.store(st, p, Opq("usediter"))
                _, y = x.mk(st, first_of(E, x.v, x.ety))
                return opt(E, dty, zi(veclen(E, x.v)) > 0, y)
        raise Unsupported("iteration over an unknown sequence")
    E.store(st, p, Opq("iter", (VecV([x.val for x in ss[1:]]), False)))
    return Agg(dty, 1, (ss[0].val,)) if ss else Agg(dty, 0, ())


@C("std::iter::Iterator::collect")
def _(E, st, f, inst, args, dty):
    it = args[0]
    if not is_it(it):
        raise Unsupported("collect of %r" % (it,))
    if E.jty(dty) == "Map":
        ss = segs(E, st, it)
        if not all(isinstance(x, One) and is_t(x.cond) for x in ss):
            raise Unsupported("collect of an unknown sequence into an object")
        r = JO(())
        for k, v in contracts.json_members(E, st, VecV([x.val for x in ss])):
            r = contracts.jput(E, r, k, v)
        return r
    if it.tag == "iter":
        d = E.T[dty]
        return it.args[0] if d["k"] == "adt" and d["name"] == "std::vec::Vec" else unsup("collect into " + E.ts(dty))
    if it.tag == "itermap" and it.args[0].tag == "iter":
        return NotImplemented
    d = E.T[dty]
    if not (d["k"] == "adt" and d["name"] == "std::vec::Vec"):
        raise Unsupported("collect into " + E.ts(dty))
    ss = segs(E, st, it)
    if all(isinstance(x, One) and is_t(x.cond) for x in ss):
        return VecV([x.val for x in ss])
    r = None
    for x in ss:
        if isinstance(x, Gen_):
            if r is not None or not is_t(x.guard):
                raise Unsupported("collect")
            no_map(x)
            e = gen_elem(E, x)
            c, y = x.mk(st, e)
            if not is_t(c):
                raise Unsupported("collect of a selection")
            yy = y
            if E.T[x.ety]["k"] == "ref" or isinstance(y, VRef):
                yy = v_(E, st, y)
            r = mapped(E, st, x.v, e, yy)
        elif r is None:
            raise Unsupported("collect")
        else:
            if not is_t(x.cond):
                raise Unsupported("collect of a selection")
            r = Opq("push", (r, v_(E, st, x.val)))
    return r


# ---------------------------------------------------------------------------- vectors
def mapped(E, st, v, e, y):
    """the sequence of what every element e of v is turned into (a sequence of references is identified with the
    sequence of what they point to)"""
    if E.same(y, e):
        return v
    if isinstance(e, (Ptr, VRef)):
        try:
            if E.same(v_(E, st, y), v_(E, st, e)):
                return v
        except Unsupported:
            pass
    return Opq("vmap", (v, v_(E, st, y) if isinstance(y, (Ptr, VRef)) else y))


def vpush(v, x):
    return VecV(v.es + (x,)) if isinstance(v, VecV) else Opq("push", (v, x))


def pyi(x):
    if isinstance(x, int):
        return x
    if isinstance(x, z3.ExprRef):
        s = z3.simplify(x)
        if z3.is_int_value(s):
            return s.as_long()
    return None


@C("std::vec::Vec::insert")
def _(E, st, f, inst, args, dty):
    p = cellptr(E, st, args[0])
    v = E.deref(st, p)
    i = pyi(args[1])
    if isinstance(v, VecV) and i is not None:
        if i > len(v.es):
            return [Out("panic", st, f["def"])]
        E.store(st, p, VecV(v.es[:i] + (args[2],) + v.es[i:]))
        return unit(E, dty)
    n = veclen(E, v)
    outs = []
    for s, ok in E.fork(st, zi(args[1]) <= n):
        if not ok:
            outs.append(Out("panic", s, f["def"]))
            continue
        e = E.eval3(s, zi(args[1]) == n)
        E.store(s, p, Opq("push", (v, args[2])) if e is True or is_t(z3.simplify(zb(zi(args[1]) == n))) else Opq("insert", (v, zi(args[1]), args[2])))
        outs.append(Out("ret", s, unit(E, dty)))
    return outs


@C("std::vec::Vec::pop")
def _(E, st, f, inst, args, dty):
    p = cellptr(E, st, args[0])
    v = E.deref(st, p)
    if isinstance(v, VecV):
        if not v.es:
            return Agg(dty, 0, ())
        E.store(st, p, VecV(v.es[:-1]))
        return Agg(dty, 1, (v.es[-1],))
    if isinstance(v, Opq) and v.tag == "push":
        E.store(st, p, v.args[0])
        return Agg(dty, 1, (v.args[1],))
    raise Unsupported("pop")


@C("std::vec::Vec::clear")
def _(E, st, f, inst, args, dty):
    E.store(st, cellptr(E, st, args[0]), VecV(()))
    return unit(E, dty)


@C("std::vec::Vec::truncate")
def _(E, st, f, inst, args, dty):
    p = cellptr(E, st, args[0])
    v = E.deref(st, p)
    i = pyi(args[1])
    if isinstance(v, VecV) and i is not None:
        E.store(st, p, VecV(v.es[:i]))
        return unit(E, dty)
    E.store(st, p, E.ite(zi(veclen(E, v)) <= zi(args[1]), v, Opq("truncated", (v, zi(args[1])))))
    return unit(E, dty)


@C("std::vec::Vec::reserve", "std::vec::Vec::shrink_to_fit", "std::vec::Vec::reserve_exact")
def _(E, st, f, inst, args, dty):
    return unit(E, dty)


@C("std::vec::Vec::append", "std::vec::Vec::extend_from_slice", "std::iter::Extend::extend")
def _(E, st, f, inst, args, dty):
    p = cellptr(E, st, args[0])
    v = E.deref(st, p)
    if not isinstance(v, (VecV, Sym)) and not (isinstance(v, Opq) and v.tag in ("push", "vmap")):
        return NotImplemented
    if isinstance(v, Sym) and not (E.T[v.ty]["k"] == "adt" and E.T[v.ty]["name"] == "std::vec::Vec"):
        return NotImplemented
    n = f["def"].split("::")[-1]
    x = args[1]
    if n == "append":
        q = cellptr(E, st, args[1])
        x = E.deref(st, q)
        E.store(st, q, VecV(()))
    if n == "extend" and is_it(x):
        ss = segs(E, st, x)
    else:
        x = v_(E, st, x)
        if isinstance(x, Agg) and E.T[x.ty]["name"] == "std::option::Option":
            ss = [One(True, x.fs[0])] if x.var == 1 else []
        else:
            ss = base_segs(E, st, x, False)
    if len(ss) == 1 and isinstance(ss[0], Gen_) and is_t(ss[0].guard) and isinstance(v, VecV) and not v.es:
        e = gen_elem(E, ss[0])
        c, y = ss[0].mk(st, e)
        if is_t(c):
            E.store(st, p, mapped(E, st, ss[0].v, e, v_(E, st, y)))
            return unit(E, dty)
    for y in ss:
        if not isinstance(y, One) or not is_t(y.cond):
            raise Unsupported("extension by an unknown sequence")
        v = vpush(v, y.val)
    E.store(st, p, v)
    return unit(E, dty)


# ---------------------------------------------------------------------------- loops over a sequence
def positional(E, r):
    """does the term mention a position in a generic sequence?"""
    seen, stack = set(), [r] if isinstance(r, z3.ExprRef) else []
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x):
            if x.decl().name().startswith("seqidx!"):
                return True
        else:
            stack.extend(x.children())
    return False


class Source:
    """where a loop gets its elements: an iterator"""

    def __init__(self, cell, v, ety, mk):
        self.cell, self.v, self.ety, self.mk = cell, v, ety, mk

    def place(self, E, s, e):
        """the next element is e"""
        c, x = self.mk(s, e)
        E.assume(s, c)
        s.iters[self.cell] = ("elem", x)

    def skipped(self, E, st, e):
        c, _ = self.mk(st.copy(), e)
        return Not(c)

    def took(self, E, s):
        return s.iters.get(self.cell) == ("took",)

    def proper(self, E, pc):
        return pc

    def finish(self, E, s):
        s.iters[self.cell] = ("end",)


class Index(Source):
    """a loop variable counting from 0 to the length of a sequence, alone or in a range"""

    def __init__(self, cell, v, ety, wrap, unwrap):
        self.cell, self.v, self.ety, self.wrap, self.unwrap = cell, v, ety, wrap, unwrap

    def place(self, E, s, e):
        i = fresh("seqidx", I)
        self.idx = i
        E.__dict__.setdefault("idx_elems", {})[i.get_id()] = (self.v, e)
        E.__dict__.setdefault("idx_keep", []).append(i)
        n = zi(veclen(E, self.v))
        E.assume(s, i < n)
        s.cells[self.cell] = self.wrap(i)

    def skipped(self, E, st, e):
        return False

    def took(self, E, s):
        i = self.unwrap(s.cells[self.cell])
        return i is not None and isinstance(i, z3.ExprRef) and z3.is_true(z3.simplify(i == self.idx + 1))

    def proper(self, E, pc):
        n = zi(veclen(E, self.v))
        out = []
        for x in pc:
            if positional(E, x):
                s = z3.Solver()
                s.set("timeout", 2000)
                for ax in AXIOMS_OF(x):
                    s.add(ax)
                s.add(self.idx >= 0, self.idx < n, z3.Not(x))
                if s.check() != z3.unsat:
                    raise Unsupported("iteration depends on its position")
                continue
            out.append(x)
        return out

    def finish(self, E, s):
        s.cells[self.cell] = self.wrap(zi(veclen(E, self.v)))


def AXIOMS_OF(x):
    return []


def iter_source(E, st, cell, it):
    try:
        ss = segs(E, st.copy(), it)
    except Unsupported:
        return None
    if len(ss) != 1 or not isinstance(ss[0], Gen_) or not is_t(ss[0].guard):
        return None
    return Source(cell, ss[0].v, ss[0].ety, ss[0].mk)


def index_sources(E, inst, b, fr, h, st0, holes, body):
    """loop variables that may count through a sequence: 0 at first, used as an index of one unknown sequence"""
    for l in holes:
        v0 = st0.cells[(fr, l)]
        if isinstance(v0, int) and not isinstance(v0, bool) and v0 == 0:
            wrap, unwrap = (lambda i: i), (lambda x: x)
        elif is_range(E, v0) and pyi(v0.fs[0]) == 0:
            wrap = lambda i, v0=v0: Agg(v0.ty, 0, (i, v0.fs[1]))
            unwrap = lambda x: x.fs[0] if isinstance(x, Agg) else None
        else:
            continue
        i = fresh("seqidx", I)
        E.__dict__.setdefault("idx_keep", []).append(i)
        seen = []
        E.__dict__.setdefault("idx_elems", {})[i.get_id()] = seen
        s = st0.copy()
        for m in holes:
            if m != l:
                s.cells[(fr, m)] = E.hole(b.locals[m], s.cells[(fr, m)], m)
        s.cells[(fr, l)] = wrap(i)
        try:
            E.explore(inst, b, fr, [(h, s)], (body, FIRST(h)))
        except Unsupported:
            pass
        finally:
            del E.idx_elems[i.get_id()]
        if seen and all(E.same(x, seen[0]) for x in seen):
            yield Index((fr, l), seen[0], E.elem_ty(seen[0].ty), wrap, unwrap)


def FIRST(h):
    import exec as X
    return X._First(h)


@C("std::iter::Iterator::next")
def _(E, st, f, inst, args, dty):
    """a range of numbers"""
    p = cellptr(E, st, args[0])
    r = E.deref(st, p)
    if not is_range(E, r):
        return NotImplemented
    lo, hi = r.fs
    outs = []
    for s, ok in E.fork(st, E.binop(st, "Lt", lo, hi)):
        if ok:
            E.store(s, p, Agg(r.ty, 0, (lo + 1, hi)))
        outs.append(Out("ret", s, Agg(dty, 1, (lo,)) if ok else Agg(dty, 0, ())))
    return outs


def element(E, st, v, i):
    """(in range?, element i)"""
    k = pyi(i)
    hit = E.__dict__.get("idx_elems", {}).get(i.get_id()) if isinstance(i, z3.ExprRef) else None
    if isinstance(hit, list):
        hit.append(v)
    elif hit is not None and E.same(hit[0], v):
        return True, hit[1]
    if isinstance(v, VecV):
        if k is not None:
            return (True, v.es[k]) if 0 <= k < len(v.es) else (False, BOT)
        r = BOT
        for j, x in enumerate(v.es):
            r = E.ite(zi(i) == j, x, r) if isinstance(x, Val) or isinstance(r, Val) else If(zi(i) == j, x, r)
        return And(zi(i) >= 0, zi(i) < len(v.es)), r
    if isinstance(v, Ite):
        a, x = element(E, st, v.a, i)
        b, y = element(E, st, v.b, i)
        return If(v.c, a, b), E.ite(v.c, x, y) if isinstance(x, Val) or isinstance(y, Val) else If(v.c, x, y)
    if isinstance(v, Sym):
        ety = E.elem_ty(v.ty)
        if k is not None:
            return zi(veclen(E, v)) > k, E.mkval(ety, v.t, "elem%d:%s" % (k, E.ts(v.ty)))
        t = ufn("opq:elemat", U, I, U)(v.t, zi(i))
        return zi(i) < zi(veclen(E, v)), E.mkval(ety, t, "id:" + E.ts(ety))
    if isinstance(v, Opq) and v.tag == "push":
        n = veclen(E, v.args[0])
        a, x = element(E, st, v.args[0], i)
        y = v.args[1]
        last = zi(i) == n if not (k is not None and isinstance(n, int)) else k == n
        return Or(a, last), E.ite(last, y, x) if isinstance(x, Val) or isinstance(y, Val) else If(last, y, x)
    raise Unsupported("element of %r" % (v,))


@C("std::slice::<impl [T]>::get")
def _(E, st, f, inst, args, dty):
    v = v_(E, st, args[0])
    if not isinstance(args[1], (int, z3.ArithRef)):
        raise Unsupported("get by range")
    c, x = element(E, st, v, args[1])
    return opt(E, dty, c, VRef(x))


@C("std::slice::<impl [T]>::last")
def _(E, st, f, inst, args, dty):
    v = v_(E, st, args[0])
    if isinstance(v, VecV):
        return Agg(dty, 1, (VRef(v.es[-1]),)) if v.es else Agg(dty, 0, ())
    n = veclen(E, v)
    if isinstance(v, Opq) and v.tag == "push":
        return Agg(dty, 1, (VRef(v.args[1]),))
    c, x = element(E, st, v, zi(n) - 1)
    return opt(E, dty, zi(n) > 0, VRef(x))


@C("std::ops::Index::index")
def _(E, st, f, inst, args, dty):
    v = v_(E, st, args[0])
    if inst is not None and inst.krate == "rust_mcp_schema" or not isinstance(args[1], (int, z3.ArithRef)):
        return NotImplemented
    if not (isinstance(v, VecV) or isinstance(v, Sym) and E.T[v.ty]["k"] in ("adt", "slice") or isinstance(v, Opq) and v.tag == "push"):
        return NotImplemented
    c, x = element(E, st, v, args[1])
    outs = []
    for s, ok in E.fork(st, c):
        outs.append(Out("ret", s, VRef(x)) if ok else Out("panic", s, f["def"]))
    return outs


# ---------------------------------------------------------------------------- hashers
@C(*["std::hash::Hasher::write_" + t for t in ("u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize")])
def _(E, st, f, inst, args, dty):
    p = cellptr(E, st, args[0])
    x = ufn("hashed_" + f["def"].split("write_")[-1], I, S)(zi(v_(E, st, args[1])))
    E.store(st, p, mkstr([E.deref(st, p), Str((x,))]))
    return unit(E, dty)


# ---------------------------------------------------------------------------- memory
@C("std::mem::drop", "std::mem::forget")
def _(E, st, f, inst, args, dty):
    return unit(E, dty)


@C("std::mem::swap")
def _(E, st, f, inst, args, dty):
    p, q = cellptr(E, st, args[0]), cellptr(E, st, args[1])
    a, b = E.deref(st, p), E.deref(st, q)
    E.store(st, p, b)
    E.store(st, q, a)
    return unit(E, dty)


@C("std::vec::Vec::remove", "std::vec::Vec::swap_remove")
def _(E, st, f, inst, args, dty):
    p = cellptr(E, st, args[0])
    v = E.deref(st, p)
    k = pyi(args[1])
    swap = f["def"].endswith("swap_remove")
    if isinstance(v, VecV) and k is not None:
        if not 0 <= k < len(v.es):
            return [Out("panic", st, f["def"])]
        es = list(v.es)
        x = es[k]
        if swap:
            es[k] = es[-1]
            es.pop()
        else:
            del es[k]
        E.store(st, p, VecV(es))
        return x
    if k is None:
        raise Unsupported("removal at an unknown position")
    # of an unknown sequence: only the element taken is known
    c, x = element(E, st, v, k)
    outs = []
    for s, ok in E.fork(st, c):
        if ok:
            E.store(s, p, Opq("usedvec"))
            outs.append(Out("ret", s, x))
        else:
            outs.append(Out("panic", s, f["def"]))
    return outs


@C("std::mem::take")
def _(E, st, f, inst, args, dty):
    d = E.T[dty]
    if d["k"] == "adt" and d["name"] == "std::vec::Vec":
        p = cellptr(E, st, args[0])
        v = E.deref(st, p)
        E.store(st, p, VecV(()))
        return v
    return NotImplemented


# ---------------------------------------------------------------------------- JSON numbers
def u64cond(E, j):
    i = E.jint(j)
    if i is BOT:
        return False, BOT
    return And(E.jkind_is(j, contracts.K_INT), (0 <= i < 2 ** 64) if isinstance(i, int) else z3.And(i >= 0, i < 2 ** 64)), i


@C("serde_json::Number::as_u64", "serde_json::Value::as_u64")
def _(E, st, f, inst, args, dty):
    c, i = u64cond(E, contracts.numj(E, st, args[0]))
    return opt(E, dty, c, i)


@C("serde_json::Number::is_u64", "serde_json::Value::is_u64", "serde_json::Number::is_i64", "serde_json::Value::is_i64", "serde_json::Number::is_f64", "serde_json::Value::is_f64")
def _(E, st, f, inst, args, dty):
    j = contracts.numj(E, st, args[0])
    n = f["def"]
    if n.endswith("f64"):
        return E.jkind_is(j, contracts.K_FLT)
    return (u64cond if n.endswith("u64") else contracts.i64cond)(E, j)[0]
