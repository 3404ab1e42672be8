"""Symbolic executor / VC generator over the MIR dump.

Every function is executed on symbolic arguments along all paths (no unrolling bound: the only
loops, those that consume an abstract JSON map, are replaced by an inductive summary that is
checked against an arbitrary iteration).  Calls to functions with a contract use the contract;
functions without one are inlined from their MIR.  Anything the executor does not understand
raises Unsupported - it never guesses."""
import z3
from sym import *
import contracts

INLINE_LIMIT = 60
PATH_LIMIT = 20000


class St:
    __slots__ = ("cells", "pc", "known", "eqc", "neq", "iters", "own")

    def __init__(self):
        self.cells = {}
        self.pc = []
        self.known = {}
        self.eqc = {}
        self.neq = {}
        self.iters = {}

    def copy(self):
        s = St.__new__(St)
        s.cells = dict(self.cells)
        s.pc = list(self.pc)
        s.known = dict(self.known)
        s.eqc = dict(self.eqc)
        s.neq = dict(self.neq)
        s.iters = dict(self.iters)
        return s


class Out:
    __slots__ = ("kind", "st", "val")

    def __init__(self, kind, st, val):
        self.kind = kind
        self.st = st
        self.val = val


class Engine:
    def __init__(self, prog):
        self.p = prog
        self.T = prog.types
        self.fid = 0
        self.heap = 0
        self.depth = 0
        self.inv = {}
        self.steps = 0
        self.max_steps = 400000
        self.used_contracts = {}
        self.inlined = {}
        self._ser_cache = {}
        self._de_cache = {}
        self.expanding = []
        self.hyp_de = True
        self._tcache = {}
        self.deadline = None
        self.tops = []          # values made for the arguments of the function under contract
        self.provider = None    # replay: concrete values in place of arbitrary ones
        self.topdepth = 0

    # ------------------------------------------------------------------ types
    def ts(self, ty):
        return self.p.tstr(ty)

    def is_json_ty(self, ty):
        d = self.T[ty]
        return d["k"] == "adt" and d["name"] in ("serde_json::Value", "serde_json::Map", "serde_json::value::Value", "serde_json::map::Map", "serde_core::private::Content", "serde_core::private::content::Content", "serde::__private228::de::Content") or (d["k"] == "adt" and d["name"].endswith("::Content") and d["krate"] != "rust_mcp_schema") or (d["k"] == "adt" and d["name"] == "vharness::Json")

    def jty(self, ty):
        d = self.T[ty]
        if d["k"] != "adt":
            return None
        n = d["name"].split("::")[-1]
        if d["krate"] in ("serde_json",) and n in ("Value", "Map"):
            return n
        if d["krate"] in ("serde", "serde_core") and n == "Content":
            return "Content"
        if d["name"] == "vharness::Json":
            return "Json"
        return None

    def stripref(self, ty):
        while self.T[ty]["k"] == "ref":
            ty = self.T[ty]["e"]
        return ty

    def parse_text(self, s):
        """(is a JSON text, its document)"""
        return contracts.PARSEOK(s.term()), JSym(contracts.PARSE(s.term()))

    def is_text_of(self, txt, j):
        """txt is the compact JSON text of j"""
        return self.streq(txt, contracts.json_text(self, j))

    def is_string(self, ty):
        d = self.T[ty]
        return d["k"] == "str" or (d["k"] == "adt" and d["name"] in ("std::string::String",))

    def adt(self, ty):
        d = self.T[ty]
        return d if d["k"] == "adt" else None

    def opt_inner(self, ty):
        d = self.T[ty]
        if d["k"] == "adt" and d["name"] == "std::option::Option":
            return d["args"][0]
        return None

    def mkval(self, ty, base, fname):
        """value of type ty denoted by base (a z3 term) under selector fname; fname None: fresh const"""
        if fname is None and self.tops is not None and not self.topdepth:
            self.topdepth += 1
            try:
                v = self.provider(ty, base) if self.provider is not None else self._mkval(ty, base, fname)
            finally:
                self.topdepth -= 1
            self.tops.append((base, ty, v))
            return v
        return self._mkval(ty, base, fname)

    def _mkval(self, ty, base, fname):
        d = self.T[ty]
        k = d["k"]

        def app(sort):
            if fname is None:
                return fresh(base, sort)
            return ufn(fname, base.sort(), sort)(base)

        if k == "bool":
            return app(B)
        if k in ("int", "uint", "char"):
            t = app(I)
            if k == "uint":
                axiom(t >= 0)
            if k in ("int", "uint"):
                n = 8 * d["b"]
                lo, hi = (0, 2 ** n - 1) if k == "uint" else (-2 ** (n - 1), 2 ** (n - 1) - 1)
                axiom(z3.And(t >= lo, t <= hi))
            return t
        if self.is_string(ty):
            return Str((app(S),))
        j = self.jty(ty)
        if j:
            t = app(J)
            axiom(z3.And(KIND(t) >= 0, KIND(t) <= 6))
            if j == "Map":
                axiom(KIND(t) == K_OBJ)
            return JSym(t)
        if k == "ref" or k == "ptr":
            return VRef(self.mkval(d["e"], base, fname))
        if k == "adt" and d.get("box"):
            return BoxV(self.mkval(d["args"][0], base, fname))
        if k == "tuple" and not d["es"]:
            return Agg(ty, 0, ())
        if k == "adt" and d["kind"] == "Struct" and d["deep"] and len(d["vs"]) == 1 and not d["vs"][0]["fields"]:
            return Agg(ty, 0, ())
        if k == "tuple" and fname is None:
            return Agg(ty, 0, [self.mkval(e, base + str(i), None) for i, e in enumerate(d["es"])])
        return Sym(ty, app(U))

    def mkval_const(self, ty, name):
        """a fixed constant (same term every time) of type ty"""
        b = z3.Const(name + ":" + self.ts(ty), U)
        return self.mkval(ty, b, "id:" + self.ts(ty)) if not (self.T[ty]["k"] == "adt" and not self.is_string(ty) and not self.jty(ty) and not self.T[ty].get("box")) else Sym(ty, b)

    def sym_arg(self, st, ty, name):
        d = self.T[ty]
        if d["k"] == "ref":
            if d["m"] or True:
                c = self.new_cell(st, self.sym_arg(st, d["e"], name))
                return Ptr(c)
        if d["k"] == "adt" and d["name"] in ("vharness::AbsDe", "vharness::AbsMap", "vharness::AbsObj", "vharness::AbsArr", "vharness::AbsEnum"):
            j = fresh(name, J)
            axiom(z3.And(KIND(j) >= 0, KIND(j) <= 6))
            return Agg(ty, 0, (JSym(j),))
        return self.mkval(ty, name, None)

    def new_cell(self, st, v):
        self.heap += 1
        c = ("h", self.heap)
        st.cells[c] = v
        return c

    # ------------------------------------------------------------------ values
    def nvariants(self, ty):
        return len(self.T[ty]["vs"])

    def cv(self, v, ty, idx):
        """condition: v (of enum type ty) is variant idx"""
        if isinstance(v, Agg):
            return v.var == idx
        if isinstance(v, Sym):
            vt = v.ty
            if self.T[vt]["k"] == "adt" and self.T[vt]["deep"]:
                n = self.nvariants(vt)
                axiom(z3.And(DISC(v.t) >= 0, DISC(v.t) < n))
                if n == 1:
                    return idx == 0
            return DISC(v.t) == idx
        if isinstance(v, Ite):
            return Or(And(v.c, self.cv(v.a, ty, idx)), And(Not(v.c), self.cv(v.b, ty, idx)))
        if v is BOT:
            return False
        if isinstance(v, JV):
            return Or(*[self.jkind_is(v, k) for k in VALUE_VARIANTS[idx]])
        if isinstance(v, BoxV):
            return self.cv(v.v, ty, idx)
        if isinstance(v, Opq):
            if v.tag == "zstcmp":
                raise Unsupported("cmp")
            return DISC(self.term(v)) == idx
        raise Unsupported("variant test on %r" % (v,))

    def disc_val(self, ty, i):
        """declared discriminant of variant i"""
        d = self.T[ty]
        if d["k"] == "adt" and d["deep"] and i < len(d["vs"]):
            n = int(d["vs"][i]["d"])
            return n - 2 ** 64 if n >= 2 ** 63 else n
        return i

    def disc_int(self, v, ty):
        if isinstance(v, Agg):
            return self.disc_val(v.ty, v.var)
        if isinstance(v, Sym):
            self.cv(v, ty, 0)
            d = self.T[v.ty]
            if d["k"] == "adt" and d["deep"] and any(self.disc_val(v.ty, i) != i for i in range(len(d["vs"]))):
                r = zi(self.disc_val(v.ty, 0))
                for i in range(1, len(d["vs"])):
                    r = z3.If(DISC(v.t) == i, zi(self.disc_val(v.ty, i)), r)
                return r
            return DISC(v.t)
        if isinstance(v, Ite):
            return z3.If(v.c, zi(self.disc_int(v.a, ty)), zi(self.disc_int(v.b, ty)))
        raise Unsupported("discriminant of %r" % (v,))

    def ite(self, c, a, b):
        if is_t(c):
            return a
        if is_f(c):
            return b
        if a is b or b is BOT:
            return a
        if a is BOT:
            return b
        if not isinstance(a, Val) or not isinstance(b, Val):
            if isinstance(a, Val) or isinstance(b, Val):
                raise Unsupported("ite of mixed values")
            return If(c, a, b)
        if isinstance(a, Str) and isinstance(b, Str):
            if self.same(a, b):
                return a
            return Str((z3.If(c, a.term(), b.term()),))
        if isinstance(a, Agg) and isinstance(b, Agg) and a.var == b.var and len(a.fs) == len(b.fs):
            return Agg(a.ty, a.var, [self.ite(c, x, y) for x, y in zip(a.fs, b.fs)])
        if isinstance(a, BoxV) and isinstance(b, BoxV):
            return BoxV(self.ite(c, a.v, b.v))
        if isinstance(a, VRef) and isinstance(b, VRef):
            return VRef(self.ite(c, a.v, b.v))
        if isinstance(a, JO) and isinstance(b, JO):
            m = self.merge_jo(c, a, b)
            if m is not None:
                return m
        if self.same(a, b):
            return a
        return Ite(c, a, b)

    def merge_jo(self, c, a, b):
        n = 0
        while n < len(a.ops) and n < len(b.ops) and self.same_op(a.ops[n], b.ops[n]):
            n += 1
        ra, rb = a.ops[n:], b.ops[n:]
        if any(o[0] == "del" for o in ra + rb):
            return None
        # puts under a condition: sound because keys put on one side only are absent on the other
        keys_b = {o[1].lit for o in rb if o[0] == "put"}
        ops = list(a.ops[:n])
        na = [self.cond_op(o, c) for o in ra]
        nb = [self.cond_op(o, Not(c)) for o in rb]
        if len(ra) == len(rb) == 1 and ra[0][0] == rb[0][0] == "put" and ra[0][1].lit is not None and ra[0][1].lit == rb[0][1].lit:
            o1, o2 = ra[0], rb[0]
            ops.append(("put", o1[1], If(c, o1[2], o2[2]), self.ite(c, o1[3], o2[3])))
            return JO(ops)
        return JO(ops + na + nb)

    def cond_op(self, o, c):
        if o[0] == "put":
            return ("put", o[1], And(o[2], c), o[3])
        return ("base", And(o[1], c), o[2])

    def same_op(self, a, b):
        if a is b:
            return True
        if a[0] != b[0] or len(a) != len(b):
            return False
        return all((x is y) or (self.same(x, y)) for x, y in zip(a[1:], b[1:]))

    def same(self, a, b):
        """syntactic identity"""
        if a is b:
            return True
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            return a.get_id() == b.get_id()
        if type(a) is not type(b):
            return False
        if isinstance(a, (bool, int, str)):
            return a == b
        if isinstance(a, Agg):
            return a.var == b.var and a.ty == b.ty and len(a.fs) == len(b.fs) and all(self.same(x, y) for x, y in zip(a.fs, b.fs))
        if isinstance(a, Sym):
            return a.t.get_id() == b.t.get_id()
        if isinstance(a, Str):
            return len(a.parts) == len(b.parts) and all(self.same(x, y) for x, y in zip(a.parts, b.parts))
        if isinstance(a, JSym):
            return a.t.get_id() == b.t.get_id()
        if isinstance(a, Ptr):
            return a.cell == b.cell and a.path == b.path
        if isinstance(a, (VRef, BoxV)):
            return self.same(a.v, b.v)
        if isinstance(a, Ite):
            return self.same(a.c, b.c) and self.same(a.a, b.a) and self.same(a.b, b.b)
        if isinstance(a, JS):
            return self.same(a.s, b.s)
        if isinstance(a, JB):
            return self.same(a.b, b.b)
        if isinstance(a, JI):
            return self.same(a.i, b.i)
        if isinstance(a, (JF, JA)):
            return self.same(a.v, b.v)
        if isinstance(a, JSer):
            return a.ty == b.ty and self.same(a.v, b.v)
        if isinstance(a, JO):
            return len(a.ops) == len(b.ops) and all(self.same_op(x, y) for x, y in zip(a.ops, b.ops))
        if isinstance(a, VecV):
            return len(a.es) == len(b.es) and all(self.same(x, y) for x, y in zip(a.es, b.es))
        if isinstance(a, FnV):
            return a.ty == b.ty
        if isinstance(a, Opq):
            return a.tag == b.tag and len(a.args) == len(b.args) and all(self.same(x, y) for x, y in zip(a.args, b.args))
        if isinstance(a, tuple):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        return False

    def proj(self, v, var, i, fty):
        if isinstance(v, Agg):
            if var is not None and v.var != var:
                return BOT
            if i >= len(v.fs):
                raise Unsupported("field %d of %r" % (i, v))
            return v.fs[i]
        if isinstance(v, Sym):
            vv = var or 0
            iv = self.inv.get(self.ts(v.ty))
            if iv and (vv, i) in iv:
                c = iv[(vv, i)]
                if isinstance(c, str):
                    return Str((c,))
                fty = self.T[v.ty]["vs"][vv]["fields"][i][1]
                r = self.mkval(fty, v.t, "%s.%s.%d" % (self.ts(v.ty), vv, i))
                axiom(z3.Implies(DISC(r.t) == 1, self.proj(r, 1, 0, None).term() == lit(c[1])))
                return r
            d = self.T[v.ty]
            if d["k"] == "adt" and d["deep"]:
                try:
                    fty = d["vs"][vv]["fields"][i][1]
                except IndexError:
                    return BOT
            elif d["k"] == "tuple":
                fty = d["es"][i]
            elif d["k"] == "closure":
                fty = d["ups"][i]
            return self.mkval(fty, v.t, "%s.%s.%d" % (self.ts(v.ty), vv, i))
        if isinstance(v, Ite):
            return self.ite(v.c, self.proj(v.a, var, i, fty), self.proj(v.b, var, i, fty))
        if v is BOT:
            return BOT
        if isinstance(v, BoxV):
            return v
        if isinstance(v, JV):
            if var is None:
                raise Unsupported("field of json without variant")
            return self.jpayload(v, var)
        if isinstance(v, (VRef, Ptr)) and i == 0:
            return v  # NonNull / Unique style wrappers of a raw pointer
        raise Unsupported("projection of %r" % (v,))

    def jpayload(self, v, var):
        if isinstance(v, Ite):
            return self.ite(v.c, self.jpayload(v.a, var), self.jpayload(v.b, var))
        if var == 1:
            return self.jbool(v)
        if var == 2:
            return Opq("Number", (v,))
        if var == 3:
            return self.jstr(v)
        if var == 4:
            return self.jarr(v)
        if var == 5:
            return v
        return BOT

    def get_path(self, v, path):
        for e in path:
            if e[0] == "f":
                v = self.proj(v, e[2], e[1], e[3])
            elif e[0] == "b":
                v = self.unbox(v)
            elif e[0] == "i":
                v = self.elem(v, e[1])
            elif e[0] == "j":
                v = self.jget(v, e[1])
            elif e[0] == "m":
                import contracts
                v = contracts.btget(self, None, v, e[1], e[2])[1]
            else:
                raise Unsupported("path")
        return v

    def elem(self, v, i):
        if isinstance(v, VecV) and isinstance(i, int):
            return v.es[i]
        raise Unsupported("element of %r" % (v,))

    def unbox(self, v):
        if isinstance(v, BoxV):
            return v.v
        if isinstance(v, Ite):
            return self.ite(v.c, self.unbox(v.a), self.unbox(v.b))
        if v is BOT:
            return v
        raise Unsupported("unbox %r" % (v,))

    def set_path(self, v, path, new):
        if not path:
            return new
        if isinstance(v, Opq) and v.tag == "uninit":
            return new
        e = path[0]
        if e[0] == "f":
            if v is None or v is BOT:
                raise Unsupported("partial init")
            if isinstance(v, Sym):
                v = self.materialize(v, e[2])
            if isinstance(v, Ite):
                v = Ite(v.c, self.set_path(v.a, path, new) if self.cvq(v.a, e[2]) else v.a, self.set_path(v.b, path, new) if self.cvq(v.b, e[2]) else v.b)
                return self.ite(v.c, v.a, v.b)
            if isinstance(v, Agg):
                if e[2] is not None and v.var != e[2]:
                    return v
                fs = list(v.fs)
                fs[e[1]] = self.set_path(fs[e[1]], path[1:], new)
                return Agg(v.ty, v.var, fs)
            if isinstance(v, JV) and e[2] == 5:
                return self.set_path(v, path[1:], new)
            if isinstance(v, BoxV):
                return self.set_path(v, path[1:], new)
        if e[0] == "j":
            import contracts
            return contracts.jput(self, v, e[1], self.set_path(self.jget(v, e[1]), path[1:], new))
        if e[0] == "m":
            import contracts
            return Opq("mapput", (v, e[1], self.set_path(contracts.btget(self, None, v, e[1], e[2])[1], path[1:], new)))
        if e[0] == "b" and isinstance(v, BoxV):
            return BoxV(self.set_path(v.v, path[1:], new))
        if e[0] == "i" and isinstance(v, VecV):
            es = list(v.es)
            es[e[1]] = self.set_path(es[e[1]], path[1:], new)
            return VecV(es)
        raise Unsupported("write into %r" % (v,))

    def cvq(self, v, var):
        if isinstance(v, Agg):
            return var is None or v.var == var
        return True

    def materialize(self, v, var):
        """Sym struct -> Agg with projected fields"""
        d = self.T[v.ty]
        if d["k"] == "adt" and d["deep"]:
            vv = var or 0
            return Agg(v.ty, vv, [self.proj(v, vv, i, f[1]) for i, f in enumerate(d["vs"][vv]["fields"])])
        if d["k"] == "tuple":
            return Agg(v.ty, 0, [self.proj(v, None, i, t) for i, t in enumerate(d["es"])])
        raise Unsupported("materialize %s" % self.ts(v.ty))

    # ------------------------------------------------------------------ memory
    def deref(self, st, v):
        if isinstance(v, Ptr):
            if v.cell not in st.cells:
                raise Unsupported("dangling cell %s" % (v.cell,))
            return self.get_path(st.cells[v.cell], v.path)
        if isinstance(v, VRef):
            return v.v
        if isinstance(v, BoxV):
            return v.v
        if isinstance(v, Ite):
            return self.ite(v.c, self.deref(st, v.a), self.deref(st, v.b))
        if v is BOT:
            return BOT
        raise Unsupported("deref of %r" % (v,))

    def deref_all(self, st, v):
        while isinstance(v, (Ptr, VRef)) or (isinstance(v, Ite) and isinstance(v.a, (Ptr, VRef))):
            v = self.deref(st, v)
        return v

    def place_ptr(self, st, fr, p, keep=False):
        """pointer for a place; returns Ptr or VRef (keep: a choice of pointers stays one, so that it can be written through)"""
        return self.place_from(st, fr, Ptr((fr, p[0]), ()), p[1], keep)

    def place_from(self, st, fr, cur, path, keep):
        dc = None
        for k, e in enumerate(path):
            if e == "*":
                v = self.deref(st, cur)
                if isinstance(v, BoxV):
                    if isinstance(cur, Ptr):
                        cur = Ptr(cur.cell, cur.path + (("b",),))
                    else:
                        cur = VRef(v.v)
                elif isinstance(v, (Ptr, VRef)):
                    cur = v
                elif isinstance(v, Ite):
                    if keep and self.ptr_choice(v):
                        return self.over_ptrs(v, lambda q: self.place_from(st, fr, q, path[k + 1:], keep))
                    cur = VRef(self.deref(st, v))
                elif v is BOT:
                    cur = VRef(BOT)
                else:
                    raise Unsupported("deref place %r" % (v,))
                dc = None
            elif isinstance(e, list):
                if isinstance(cur, Ptr):
                    base = self.deref_noerr(st, cur)
                    if isinstance(base, BoxV) or (isinstance(base, (VRef, Ptr)) and e[0] == 0):
                        pass  # Box.0.0 / NonNull.0: stay on the box
                    else:
                        cur = Ptr(cur.cell, cur.path + (("f", e[0], dc, e[1]),))
                else:
                    cur = VRef(self.proj(cur.v, dc, e[0], e[1]))
                dc = None
            elif "d" in e:
                dc = e["d"]
            elif "ix" in e:
                i = st.cells.get((fr, e["ix"]))
                if isinstance(cur, Ptr):
                    cur = Ptr(cur.cell, cur.path + (("i", i),))
                else:
                    cur = VRef(self.elem(cur.v, i))
            elif "ci" in e:
                off, _, fe = e["ci"]
                v = self.deref(st, cur)
                if not isinstance(v, VecV):
                    raise Unsupported("constant index into %r" % (v,))
                off = len(v.es) - off if fe else off
                cur = VRef(v.es[off])
            elif "oc" in e:
                pass
            else:
                raise Unsupported("projection %r" % (e,))
        return cur

    def ptr_choice(self, v):
        return isinstance(v, Ptr) or v is BOT or (isinstance(v, Ite) and self.ptr_choice(v.a) and self.ptr_choice(v.b))

    def over_ptrs(self, v, f):
        if isinstance(v, Ite):
            return Ite(v.c, self.over_ptrs(v.a, f), self.over_ptrs(v.b, f))
        return v if v is BOT else f(v)

    def deref_noerr(self, st, cur):
        try:
            return self.deref(st, cur)
        except Unsupported:
            return None

    def read(self, st, fr, p):
        if not p[1]:
            k = (fr, p[0])
            if k not in st.cells:
                return self.zst_or_fail(fr, p[0])
            return st.cells[k]
        return self.deref(st, self.place_ptr(st, fr, p))

    def zst_or_fail(self, fr, l):
        ty = self.frame_ty[fr][l]
        z = self.zst(ty)
        if z is not None:
            return z
        raise Unsupported("read of uninitialised local _%d" % l)

    def zst(self, ty):
        d = self.T[ty]
        if d["k"] == "fndef":
            return FnV(ty)
        if d["k"] == "tuple" and not d["es"]:
            return Agg(ty, 0, ())
        if d["k"] == "closure" and not d["ups"]:
            return Agg(ty, 0, ())
        if d["k"] == "adt" and d["kind"] == "Struct" and (not d["deep"] or all(self.zst(f[1]) is not None for f in d["vs"][0]["fields"])):
            if not d["deep"]:
                return Opq("zst:" + self.ts(ty)) if not self.jty(ty) else None
            return Agg(ty, 0, [self.zst(f[1]) for f in d["vs"][0]["fields"]])
        return None

    def write(self, st, fr, p, v):
        if not p[1]:
            st.cells[(fr, p[0])] = v
            return
        # partially initialised aggregate
        ptr = self.place_ptr(st, fr, p, True) if (fr, p[0]) in st.cells else None
        if ptr is None:
            ty = self.frame_ty[fr][p[0]]
            d = self.T[ty]
            if len(p[1]) == 1 and isinstance(p[1][0], list):
                n = len(d["es"]) if d["k"] == "tuple" else len(d["vs"][0]["fields"])
                fs = [BOT] * n
                fs[p[1][0][0]] = v
                st.cells[(fr, p[0])] = Agg(ty, 0, fs)
                return
            raise Unsupported("write to uninitialised place")
        self.store(st, ptr, v)

    def store(self, st, ptr, v):
        if isinstance(ptr, Ptr):
            if not ptr.path:
                st.cells[ptr.cell] = v
            else:
                st.cells[ptr.cell] = self.set_path(st.cells[ptr.cell], ptr.path, v)
            return
        if isinstance(ptr, Ite) and self.ptr_choice(ptr):
            before = dict(st.cells)
            if ptr.a is not BOT:
                self.store(st, ptr.a, v)
            one, st.cells = st.cells, dict(before)
            if ptr.b is not BOT:
                self.store(st, ptr.b, v)
            for k, x in one.items():
                y = st.cells.get(k, x)
                if x is not y:
                    st.cells[k] = self.ite(ptr.c, x, y)
            return
        raise Unsupported("store through %r" % (ptr,))

    # ------------------------------------------------------------------ terms and equality
    def term(self, v, st=None):
        if isinstance(v, bool):
            return ufn("ofbool", B, U)(z3.BoolVal(v))
        if isinstance(v, int):
            return ufn("ofint", I, U)(z3.IntVal(v))
        if isinstance(v, z3.ExprRef):
            s = v.sort()
            if s == B:
                return ufn("ofbool", B, U)(v)
            if s == I:
                return ufn("ofint", I, U)(v)
            if s == S:
                return ufn("ofstr", S, U)(v)
            if s == J:
                return ufn("ofjson", J, U)(v)
            return v
        if isinstance(v, Str):
            return ufn("ofstr", S, U)(v.term())
        if isinstance(v, Sym):
            return v.t
        if isinstance(v, Ite):
            return z3.If(v.c, self.term(v.a, st), self.term(v.b, st))
        if isinstance(v, (BoxV, VRef)):
            return self.term(v.v, st)
        if isinstance(v, Ptr):
            if st is None:
                raise Unsupported("term of pointer")
            return self.term(self.deref(st, v), st)
        if isinstance(v, Agg):
            ts = [self.term(f, st) for f in v.fs]
            return ufn("mk:%s:%d" % (self.ts(v.ty), v.var), *([U] * len(ts)), U)(*ts) if ts else z3.Const("mk:%s:%d" % (self.ts(v.ty), v.var), U)
        if isinstance(v, JV):
            return ufn("ofjson", J, U)(self.jterm(v, st))
        if isinstance(v, VecV):
            ts = [self.term(f, st) for f in v.es]
            return ufn("vec%d" % len(ts), *([U] * len(ts)), U)(*ts) if ts else z3.Const("vec0", U)
        if isinstance(v, FnV):
            return z3.Const("fn:" + self.ts(v.ty), U)
        if isinstance(v, Opq):
            ts = [self.term(f, st) for f in v.args]
            return ufn("opq:" + v.tag, *([U] * len(ts)), U)(*ts) if ts else z3.Const("opq:" + v.tag, U)
        raise Unsupported("term of %r" % (v,))

    def jterm(self, v, st=None):
        if isinstance(v, JSym):
            return v.t
        if isinstance(v, Ite):
            return z3.If(v.c, self.jterm(v.a, st), self.jterm(v.b, st))
        if v is JNull:
            t = z3.Const("jnull", J)
            axiom(KIND(t) == K_NULL)
            return t
        if isinstance(v, JSer):
            t = ufn("ser:" + v.ty, U, J)(self.term(v.v, st))
            return t
        if isinstance(v, JS):
            t = ufn("jofstr", S, J)(v.s.term())
            axiom(z3.And(KIND(t) == K_STR, JSTR(t) == v.s.term()))
            return t
        if isinstance(v, JB):
            t = ufn("jofbool", B, J)(zb(v.b))
            axiom(z3.And(KIND(t) == K_BOOL, JBOOL(t) == zb(v.b)))
            return t
        if isinstance(v, JI):
            t = ufn("jofint", I, J)(zi(v.i))
            axiom(z3.And(KIND(t) == K_INT, JINT(t) == zi(v.i)))
            return t
        if isinstance(v, JF):
            t = ufn("jofflt", U, J)(self.term(v.v, st))
            axiom(KIND(t) == K_FLT)
            return t
        if isinstance(v, JA):
            t = ufn("jofarr", U, J)(self.term(v.v, st))
            axiom(KIND(t) == K_ARR)
            return t
        if isinstance(v, JO):
            name = ["jo"]
            args = []
            for o in v.ops:
                if o[0] == "put":
                    c, val = o[2], self.jterm(o[3], st)
                    name.append("p:%s" % (o[1].lit if o[1].lit is not None else "?"))
                    if o[1].lit is None:
                        args.append(ufn("jofstr", S, J)(o[1].term()))
                    args.append(val if is_t(c) else z3.If(zb(c), val, z3.Const("jabsent", J)))
                elif o[0] == "base":
                    name.append("b")
                    args.append(self.jterm(o[2], st) if is_t(o[1]) else z3.If(zb(o[1]), self.jterm(o[2], st), z3.Const("jabsent", J)))
                else:
                    name.append("d:%s" % o[1].lit)
            t = ufn(",".join(name), *([J] * len(args)), J)(*args) if args else z3.Const(",".join(name), J)
            axiom(KIND(t) == K_OBJ)
            return t
        raise Unsupported("json term of %r" % (v,))

    def streq(self, a, b):
        if a is BOT or b is BOT:
            return False
        if not isinstance(a, Str) or not isinstance(b, Str):
            raise Unsupported("string equality of %r / %r" % (a, b))
        if a.lit is not None and b.lit is not None:
            return a.lit == b.lit
        if self.same(a, b):
            return True
        ta, tb = a.term(), b.term()
        return ta == tb

    def eq(self, a, b, st=None):
        if a is b:
            return True
        if isinstance(a, (Ptr, VRef)):
            a = self.deref_all(st, a)
        if isinstance(b, (Ptr, VRef)):
            b = self.deref_all(st, b)
        if isinstance(a, DiscV):
            a = self.disc_int(a.v, a.ty)
        if isinstance(b, DiscV):
            b = self.disc_int(b.v, b.ty)
        if a is b:
            return True
        if a is BOT or b is BOT:
            return False
        if isinstance(a, BoxV) and isinstance(b, BoxV):
            return self.eq(a.v, b.v, st)
        if isinstance(a, BoxV):
            a = a.v
        if isinstance(b, BoxV):
            b = b.v
        if not isinstance(a, Val) and not isinstance(b, Val):
            if isinstance(a, bool) or isinstance(b, bool) or (isinstance(a, z3.BoolRef)):
                return Eqb(a, b)
            if isinstance(a, int) and isinstance(b, int):
                return a == b
            return zi(a) == zi(b)
        if isinstance(a, Str) and isinstance(b, Str):
            return self.streq(a, b)
        if isinstance(a, Ite) and isinstance(b, Ite) and self.same(a.c, b.c):
            return And(Implies(a.c, self.eq(a.a, b.a, st)), Implies(Not(a.c), self.eq(a.b, b.b, st)))
        if isinstance(a, Ite):
            return And(Implies(a.c, self.eq(a.a, b, st)), Implies(Not(a.c), self.eq(a.b, b, st)))
        if isinstance(b, Ite):
            return self.eq(b, a, st)
        if isinstance(a, JV) and isinstance(b, JV):
            return self.jeq(a, b, st)
        if isinstance(a, Agg) and isinstance(b, Agg):
            if a.var != b.var or len(a.fs) != len(b.fs):
                return False
            return And(*[self.eq(x, y, st) for x, y in zip(a.fs, b.fs)])
        if isinstance(a, Sym) and isinstance(b, Agg):
            return self.eq(b, a, st)
        if isinstance(a, Agg) and isinstance(b, Sym):
            cs = [self.cv(b, b.ty, a.var)] if self.T[b.ty]["k"] == "adt" else []
            for i, x in enumerate(a.fs):
                cs.append(self.eq(x, self.proj(b, a.var if self.T[b.ty]["k"] == "adt" else None, i, None), st))
            return And(*cs)
        if isinstance(a, VecV) and isinstance(b, VecV):
            if len(a.es) != len(b.es):
                return False
            return And(*[self.eq(x, y, st) for x, y in zip(a.es, b.es)])
        if isinstance(b, VecV):
            a, b = b, a
        if isinstance(a, VecV) and isinstance(b, Sym):
            if not a.es:
                return LEN(b.t) == 0
            et = self.elem_ty(b.ty)
            return And(LEN(b.t) == len(a.es), *[self.eq(x, self.mkval(et, b.t, "elem%d:%s" % (i, self.ts(b.ty))), st) for i, x in enumerate(a.es)])
        if isinstance(a, Sym) and isinstance(b, Sym):
            if a.t.get_id() == b.t.get_id():
                return True
            return a.t == b.t
        if isinstance(a, Opq) and isinstance(b, Opq) and a.tag == b.tag and len(a.args) == len(b.args):
            if all(self.same(x, y) for x, y in zip(a.args, b.args)):
                return True
            if a.tag == "vmap" and self.same(a.args[0], b.args[0]):
                # the same sequence, mapped by two bodies that agree on the generic element
                import contracts
                n = contracts.veclen(self, a.args[0])
                return Or(n == 0, self.eq(a.args[1], b.args[1], st))
        return self.term(a, st) == self.term(b, st)

    def elem_ty(self, ty):
        d = self.T[ty]
        if d["k"] in ("slice", "array"):
            return d["e"]
        if d["k"] == "adt" and d["args"]:
            return d["args"][0]
        raise Unsupported("element type of " + self.ts(ty))

    # ------------------------------------------------------------------ json
    def jforce(self, j):
        """expand a JSer to structured JSON when its serializer can be executed"""
        if isinstance(j, JSer) and not j.ty.startswith(("Vec<", "[", "BTreeMap<", "HashMap<")):
            return self.ser_expand(j)
        return j

    def jkind_is(self, j, k):
        if isinstance(j, Ite):
            return Or(And(j.c, self.jkind_is(j.a, k)), And(Not(j.c), self.jkind_is(j.b, k)))
        if j is BOT:
            return False
        if isinstance(j, JSym):
            return KIND(j.t) == k
        if isinstance(j, JSer):
            if j.ty.startswith("Vec<") or j.ty.startswith("["):
                return k == K_ARR
            if j.ty.startswith("BTreeMap<") or j.ty.startswith("HashMap<"):
                return k == K_OBJ
            return self.jkind_is(self.ser_expand(j), k)
        if j is JNull:
            return k == K_NULL
        return k == {JS: K_STR, JB: K_BOOL, JI: K_INT, JF: K_FLT, JA: K_ARR, JO: K_OBJ}[type(j)]

    def jhas(self, j, key):
        """j is known to be an object"""
        if isinstance(j, Ite):
            return Or(And(j.c, self.jhas(j.a, key)), And(Not(j.c), self.jhas(j.b, key)))
        if isinstance(j, JSym):
            return HAS(j.t, key.term())
        if isinstance(j, JSer):
            if j.ty.startswith("BTreeMap<"):
                return HAS(self.jterm(j), key.term())
            if self.static_kind(j) is not None:
                return False
            return self.jhas(self.ser_expand(j), key)
        if isinstance(j, JO):
            r = False
            for o in j.ops:
                if o[0] == "put":
                    r = Or(r, And(self.streq(o[1], key), o[2]))
                elif o[0] == "del":
                    r = And(r, Not(self.streq(o[1], key)))
                else:
                    r = Or(r, And(o[1], self.jhas(o[2], key)))
            return r
        return False

    def jget(self, j, key):
        if isinstance(j, Ite):
            return self.ite(j.c, self.jget(j.a, key), self.jget(j.b, key))
        if isinstance(j, JSym):
            t = GET(j.t, key.term())
            axiom(z3.And(KIND(t) >= 0, KIND(t) <= 6))
            return JSym(t)
        if isinstance(j, JSer):
            if j.ty.startswith("BTreeMap<"):
                return JSym(GET(self.jterm(j), key.term()))
            if self.static_kind(j) is not None:
                return BOT
            return self.jget(self.ser_expand(j), key)
        if isinstance(j, JO):
            r = BOT
            for o in j.ops:
                if o[0] == "put":
                    r = self.ite(And(self.streq(o[1], key), o[2]), o[3], r)
                elif o[0] == "base":
                    h = And(o[1], self.jhas(o[2], key))
                    if not is_f(h):
                        r = self.ite(h, self.jget(o[2], key), r)
            return r
        return BOT

    def jother(self, j, lits):
        """object j has a key outside the literal set"""
        if isinstance(j, Ite):
            return Or(And(j.c, self.jother(j.a, lits)), And(Not(j.c), self.jother(j.b, lits)))
        if isinstance(j, JSym):
            return ufn("hasother:" + ",".join(sorted(lits)), J, B)(j.t)
        if isinstance(j, JSer):
            if j.ty.startswith("BTreeMap<"):
                return ufn("hasother:" + ",".join(sorted(lits)), J, B)(self.jterm(j))
            return self.jother(self.ser_expand(j), lits)
        if isinstance(j, JO):
            r = []
            dels = set()
            for o in reversed(j.ops):
                if o[0] == "del":
                    if o[1].lit is None:
                        raise Unsupported("symbolic delete")
                    dels.add(o[1].lit)
                elif o[0] == "put":
                    if o[1].lit is None:
                        r.append(And(o[2], *[Not(self.streq(o[1], Str((l,)))) for l in sorted(set(lits) | dels)]))
                    elif o[1].lit not in lits and o[1].lit not in dels:
                        r.append(o[2])
                else:
                    r.append(And(o[1], self.jother(o[2], set(lits) | dels)))
            return Or(*r)
        return False

    def jrest(self, j, lits):
        """object j without the keys in lits"""
        if isinstance(j, Ite):
            return self.ite(j.c, self.jrest(j.a, lits), self.jrest(j.b, lits))
        if isinstance(j, JSer) and not j.ty.startswith("BTreeMap<"):
            return self.jrest(self.ser_expand(j), lits)
        if isinstance(j, JO):
            ops = []
            for o in j.ops:
                if o[0] == "put" and o[1].lit is not None and o[1].lit in lits:
                    continue
                if o[0] == "base":
                    ops.append(("base", o[1], self.jrest(o[2], lits)))
                else:
                    ops.append(o)
            return JO(ops)
        if isinstance(j, (JSym, JSer)):
            if not lits:
                return j
            return JO([("base", True, j)] + [("del", Str((l,))) for l in sorted(lits)])
        return j

    def opaque_ser(self, j):
        return j.ty.startswith("BTreeMap<") or j.ty.startswith("HashMap<") or j.ty.startswith("Vec<")

    def jlits(self, j, acc):
        if isinstance(j, JSer) and not self.opaque_ser(j):
            j = self.ser_expand(j)
        if isinstance(j, Ite):
            self.jlits(j.a, acc)
            self.jlits(j.b, acc)
        if isinstance(j, JO):
            for o in j.ops:
                if o[0] in ("put", "del"):
                    if o[1].lit is None:
                        acc.add(None)
                    else:
                        acc.add(o[1].lit)
                else:
                    self.jlits(o[2], acc)
        return acc

    def jbases(self, j):
        """(cond, opaque base, deleted keys) list of an object"""
        if isinstance(j, JSer) and not self.opaque_ser(j):
            j = self.ser_expand(j)
        if isinstance(j, Ite):
            return [(And(j.c, c), b, d) for c, b, d in self.jbases(j.a)] + [(And(Not(j.c), c), b, d) for c, b, d in self.jbases(j.b)]
        if isinstance(j, JO):
            r = []
            for idx, o in enumerate(j.ops):
                if o[0] == "base":
                    dels = {p[1].lit for p in j.ops[idx + 1:] if p[0] == "del"}
                    for c, b, d in self.jbases(o[2]):
                        r.append((And(o[1], c), b, d | dels))
            return r
        return [(True, j, frozenset())]

    def jeq(self, a, b, st=None):
        if self.same(a, b):
            return True
        if isinstance(a, Ite):
            return And(Implies(a.c, self.eq(a.a, b, st)), Implies(Not(a.c), self.eq(a.b, b, st)))
        if isinstance(b, Ite):
            return self.jeq(b, a, st)
        if isinstance(a, JSer) and isinstance(b, JSer) and a.ty == b.ty:
            return self.eq(a.v, b.v, st)
        if isinstance(a, JSer) and not (a.ty.startswith("Vec<") or a.ty.startswith("BTreeMap<")):
            return self.eq(self.ser_expand(a), b, st)
        if isinstance(b, JSer) and not (b.ty.startswith("Vec<") or b.ty.startswith("BTreeMap<")):
            return self.eq(a, self.ser_expand(b), st)
        if isinstance(a, JSym) and isinstance(b, JSym):
            return a.t == b.t
        if isinstance(a, JO) and isinstance(b, JO) or (isinstance(a, JO) and isinstance(b, (JSym, JSer))) or (isinstance(b, JO) and isinstance(a, (JSym, JSer))):
            lits = self.jlits(a, set()) | self.jlits(b, set())
            if None in lits:
                return self.jterm(a, st) == self.jterm(b, st)
            cs = []
            for x in (a, b):
                if isinstance(x, JSym):
                    cs.append(KIND(x.t) == K_OBJ)
            for l in sorted(lits):
                k = Str((l,))
                ha, hb = self.jhas(a, k), self.jhas(b, k)
                cs.append(Eqb(ha, hb))
                both = And(ha, hb)
                if not is_f(both):
                    cs.append(Implies(both, self.eq(self.jget(a, k), self.jget(b, k), st)))
            ba = [x for x in self.jbases(a) if not is_f(x[0])]
            bb = [x for x in self.jbases(b) if not is_f(x[0])]
            # drop bases restricted to nothing
            def grouped(bs):
                # the same members underneath more than once are there once
                r = []
                for c, o, d in bs:
                    t = self.jterm(o, st)
                    for i, (c2, t2) in enumerate(r):
                        if t2.get_id() == t.get_id():
                            r[i] = (Or(c2, c), t)
                            break
                    else:
                        r.append((c, t))
                return r
            rest_a, rest_b = grouped(ba), grouped(bb)
            if len(rest_a) == 0 and len(rest_b) == 0:
                return And(*cs)
            if len(rest_a) <= 1 and len(rest_b) <= 1:
                ca, ta = rest_a[0] if rest_a else (False, None)
                cb, tb = rest_b[0] if rest_b else (False, None)
                if ta is not None and tb is not None:
                    oa = ufn("hasother:" + ",".join(sorted(lits)), J, B)(ta)
                    ob = ufn("hasother:" + ",".join(sorted(lits)), J, B)(tb)
                    cs.append(Or(And(ca, cb, ta == tb), And(Or(Not(ca), Not(oa)), Or(Not(cb), Not(ob)))))
                elif ta is not None:
                    cs.append(Or(Not(ca), Not(ufn("hasother:" + ",".join(sorted(lits)), J, B)(ta))))
                else:
                    cs.append(Or(Not(cb), Not(ufn("hasother:" + ",".join(sorted(lits)), J, B)(tb))))
                return And(*cs)
            return self.jterm(a, st) == self.jterm(b, st)
        ka, kb = self.static_kind(a), self.static_kind(b)
        if ka is not None and kb is not None and ka != kb:
            return False
        if isinstance(a, JS) and isinstance(b, JS):
            return self.streq(a.s, b.s)
        if isinstance(a, JB) and isinstance(b, JB):
            return Eqb(a.b, b.b)
        if isinstance(a, JI) and isinstance(b, JI):
            return self.eq(a.i, b.i)
        if isinstance(a, (JF, JA)) and type(a) is type(b):
            return self.eq(a.v, b.v, st)
        if isinstance(b, JSym):
            a, b = b, a
        if isinstance(a, JSym):
            if isinstance(b, JS):
                return And(KIND(a.t) == K_STR, JSTR(a.t) == b.s.term())
            if isinstance(b, JB):
                return And(KIND(a.t) == K_BOOL, Eqb(JBOOL(a.t), b.b))
            if isinstance(b, JI):
                return And(KIND(a.t) == K_INT, JINT(a.t) == zi(b.i))
            if b is JNull:
                return KIND(a.t) == K_NULL
        return self.jterm(a, st) == self.jterm(b, st)

    def static_kind(self, j):
        if isinstance(j, JSer):
            if j.ty.startswith("Vec<"):
                return K_ARR
            if j.ty.startswith("BTreeMap<"):
                return K_OBJ
            return None
        if j is JNull:
            return K_NULL
        return {JS: K_STR, JB: K_BOOL, JI: K_INT, JF: K_FLT, JA: K_ARR, JO: K_OBJ}.get(type(j))

    def jstr(self, j):
        if isinstance(j, Ite):
            return self.ite(j.c, self.jstr(j.a), self.jstr(j.b))
        if isinstance(j, JSym):
            return Str((JSTR(j.t),))
        if isinstance(j, JS):
            return j.s
        if isinstance(j, JSer) and self.static_kind(j) is None:
            return self.jstr(self.ser_expand(j))
        return BOT

    def jbool(self, j):
        if isinstance(j, Ite):
            return self.ite(j.c, self.jbool(j.a), self.jbool(j.b))
        if isinstance(j, JSym):
            return JBOOL(j.t)
        if isinstance(j, JB):
            return j.b
        return BOT

    def jint(self, j):
        if isinstance(j, Ite):
            return self.ite(j.c, self.jint(j.a), self.jint(j.b))
        if isinstance(j, JSym):
            return JINT(j.t)
        if isinstance(j, JI):
            return j.i
        if isinstance(j, JSer) and self.static_kind(j) is None:
            return self.jint(self.ser_expand(j))
        return BOT

    def jarr(self, j):
        if isinstance(j, JA):
            return j.v
        vt = self.p.by_tstr.get("Vec<Value>")
        if isinstance(j, JSym) and vt is not None:
            return Sym(vt, JARR(j.t))
        if isinstance(j, JSer) and vt is not None:
            return Sym(vt, JARR(self.jterm(j)))
        if vt is None:
            raise Unsupported("array payload")
        return BOT

    # ------------------------------------------------------------------ serde contracts
    def ser(self, ty, v, st):
        """JSON of value v : ty  (serialisation of these types never fails: see DESIGN)"""
        v = self.closed(st, self.deref_all(st, v)) if st is not None else v
        d = self.T[ty]
        k = d["k"]
        if k == "ref":
            return self.ser(d["e"], v, st)
        if v is BOT:
            return BOT
        if isinstance(v, Ite) and not (k == "adt" and d["krate"] == "rust_mcp_schema"):
            return self.ite(v.c, self.ser(ty, v.a, st), self.ser(ty, v.b, st))
        if self.is_string(ty):
            return JS(v)
        if k == "bool":
            return JB(v)
        if k in ("int", "uint"):
            return JI(v)
        if k == "float":
            return JF(v)
        if k == "tuple" and not d["es"]:
            return JNull
        if self.jty(ty):
            return v
        if k == "adt":
            if d.get("box"):
                return self.ser(d["args"][0], v.v if isinstance(v, BoxV) else v, st)
            inner = self.opt_inner(ty)
            if inner is not None:
                c = self.cv(v, ty, 1)
                return self.ite(c, self.ser(inner, self.proj(v, 1, 0, inner), st), JNull)
            if d["name"] in ("std::vec::Vec", "std::collections::BTreeMap"):
                if self.ts(ty) == "Vec<Value>":
                    return JA(v)
                return JSer(self.ts(ty), v)
            if d["krate"] == "rust_mcp_schema":
                return JSer(self.ts(ty), v)
            if d["name"] == "serde_json::Number":
                if isinstance(v, Opq) and v.tag == "Number":
                    return v.args[0]
        if k == "slice":
            return JSer(self.ts(ty), v)
        raise Unsupported("serialize " + self.ts(ty))

    def closed(self, st, v):
        """v with the references it holds into st replaced by the values referred to"""
        if isinstance(v, Ptr):
            return VRef(self.closed(st, self.deref(st, v)))
        if isinstance(v, VRef):
            n = self.closed(st, v.v)
            return v if n is v.v else VRef(n)
        if isinstance(v, BoxV):
            n = self.closed(st, v.v)
            return v if n is v.v else BoxV(n)
        if isinstance(v, Ite):
            a, b = self.closed(st, v.a), self.closed(st, v.b)
            return v if a is v.a and b is v.b else Ite(v.c, a, b)
        if isinstance(v, Agg):
            fs = [self.closed(st, x) for x in v.fs]
            return v if all(x is y for x, y in zip(fs, v.fs)) else Agg(v.ty, v.var, fs)
        if isinstance(v, VecV):
            es = [self.closed(st, x) for x in v.es]
            return v if all(x is y for x, y in zip(es, v.es)) else VecV(tuple(es))
        return v

    def ser_expand(self, j):
        key = (j.ty, self._vkey(j.v))
        r = self._ser_cache.get(key)
        if r is not None:
            return r[1]
        inst = self.p.seri.get(j.ty)
        if inst is None or not inst.has_body:
            raise Unsupported("no serializer body for " + j.ty)
        if len(self.expanding) > 12:
            raise Unsupported("serialization nesting")
        self.expanding.append(j.ty)
        try:
            st = St()
            c = self.new_cell(st, j.v)
            outs = self.run(inst, [Ptr(c), Agg(inst.body.locals[2], 0, (0,))], st)
            r = BOT
            for o in outs:
                if o.kind == "panic":
                    raise Unsupported("serializer can panic")
                v = o.val
                # Ok(j)
                c = And(*o.st.pc)
                okc = self.cv(v, None, 0)
                if not is_t(okc):
                    # contract: serializing never fails; an Err path is reported as unsupported
                    if is_f(okc):
                        raise Unsupported("serializer of %s can fail" % j.ty)
                    raise Unsupported("serializer of %s may fail" % j.ty)
                r = self.ite(c, self.proj(v, 0, 0, None), r)
        finally:
            self.expanding.pop()
        self._ser_cache[key] = (j, r)
        return r

    def _vkey(self, v):
        """hashable syntactic key"""
        if isinstance(v, z3.ExprRef):
            self._tcache[v.get_id()] = v
            return ("z", v.get_id())
        if isinstance(v, (bool, int, str)) or v is None:
            return v
        if isinstance(v, Agg):
            return ("A", v.ty, v.var) + tuple(self._vkey(x) for x in v.fs)
        if isinstance(v, Sym):
            return ("S",) + self._vkey(v.t)
        if isinstance(v, Str):
            return ("s",) + tuple(self._vkey(x) for x in v.parts)
        if isinstance(v, Ite):
            return ("I", self._vkey(v.c), self._vkey(v.a), self._vkey(v.b))
        if isinstance(v, (BoxV, VRef)):
            return (type(v).__name__, self._vkey(v.v))
        if isinstance(v, JSym):
            return ("J",) + self._vkey(v.t)
        if isinstance(v, JSer):
            return ("JSer", v.ty, self._vkey(v.v))
        if isinstance(v, JO):
            return ("JO",) + tuple(tuple(self._vkey(x) for x in o) for o in v.ops)
        if isinstance(v, JS):
            return ("JS", self._vkey(v.s))
        if isinstance(v, JB):
            return ("JB", self._vkey(v.b))
        if isinstance(v, JI):
            return ("JI", self._vkey(v.i))
        if isinstance(v, (JF, JA)):
            return (type(v).__name__, self._vkey(v.v))
        if isinstance(v, VecV):
            return ("V",) + tuple(self._vkey(x) for x in v.es)
        if isinstance(v, Opq):
            return ("O", v.tag) + tuple(self._vkey(x) for x in v.args)
        return ("id", id(v), v if not isinstance(v, Ptr) else (v.cell, v.path))

    def de(self, ty, j, st=None):
        """deserialising JSON j as ty: (ok condition, value)"""
        d = self.T[ty]
        k = d["k"]
        if isinstance(j, Ite):
            c1, v1 = self.de(ty, j.a, st)
            c2, v2 = self.de(ty, j.b, st)
            return If(j.c, c1, c2), self.ite(And(j.c), v1, v2)
        if j is BOT:
            return False, BOT
        if isinstance(j, JSer) and j.ty == self.ts(ty):
            return True, j.v
        if self.is_string(ty):
            return self.jkind_is(j, K_STR), self.jstr(j)
        if k == "bool":
            return self.jkind_is(j, K_BOOL), self.jbool(j)
        if k in ("int", "uint"):
            i = self.jint(j)
            if i is BOT:
                return False, BOT
            n = 8 * d["b"]
            lo, hi = (0, 2 ** n - 1) if k == "uint" else (-2 ** (n - 1), 2 ** (n - 1) - 1)
            rng = (lo <= i <= hi) if isinstance(i, int) else z3.And(i >= lo, i <= hi)
            return And(self.jkind_is(j, K_INT), rng), i
        if k == "float":
            fv = j.v if isinstance(j, JF) else Opq("f64of", (j,))
            return Or(self.jkind_is(j, K_INT), self.jkind_is(j, K_FLT)), fv
        if k == "tuple" and not d["es"]:
            return self.jkind_is(j, K_NULL), Agg(ty, 0, ())
        jt = self.jty(ty)
        if jt in ("Value", "Content"):
            return True, j
        if jt == "Map":
            return self.jkind_is(j, K_OBJ), j
        if k == "adt":
            if d["name"].endswith("IgnoredAny"):
                return True, Agg(ty, 0, ())
            if d.get("box"):
                c, v = self.de(d["args"][0], j, st)
                return c, BoxV(v)
            inner = self.opt_inner(ty)
            if inner is not None:
                if isinstance(j, JSer) and not j.ty.startswith("Option<"):
                    nul = self.jkind_is(j, K_NULL) if j.ty not in self.p.local_adts else (False if j.ty == self.ts(inner) else self.jkind_is(j, K_NULL))
                else:
                    nul = self.jkind_is(j, K_NULL)
                c, v = self.de(inner, j, st)
                return Or(nul, c), self.ite(nul, Agg(ty, 0, ()), Agg(ty, 1, (v,)))
            if d["name"] == "std::marker::PhantomData":
                return True, Agg(ty, 0, ())
            if d["name"] == "std::vec::Vec":
                if isinstance(j, JSer) and j.ty.startswith("Vec<"):
                    pass
                kk = self.jkind_is(j, K_ARR)
                if is_f(kk):
                    return False, BOT
                if self.ts(ty) == "Vec<Value>":
                    return kk, self.jarr(j)
                t = self.jterm(j)
                okf = ufn("ok:" + self.ts(ty), J, B)(t)
                vf = ufn("val:" + self.ts(ty), J, U)(t)
                return And(kk, okf), Sym(ty, vf)
            if d["name"] in ("std::collections::BTreeMap", "std::collections::HashMap"):
                kk = self.jkind_is(j, K_OBJ)
                if is_f(kk):
                    return False, BOT
                t = self.jterm(j)
                return And(kk, ufn("ok:" + self.ts(ty), J, B)(t)), Sym(ty, ufn("val:" + self.ts(ty), J, U)(t))
            if d["krate"] == "rust_mcp_schema":
                if isinstance(j, JSym):
                    return ufn("ok:" + self.ts(ty), J, B)(j.t), self.mkval(ty, j.t, "val:" + self.ts(ty))
                return self.de_expand(ty, j)
        raise Unsupported("deserialize " + self.ts(ty))

    def de_expand(self, ty, j):
        key = (ty, self._vkey(j))
        r = self._de_cache.get(key)
        if r is not None:
            return r[1], r[2]
        inst = self.p.deser.get(self.ts(ty))
        if inst is None or not inst.has_body:
            raise Unsupported("no deserializer body for " + self.ts(ty))
        if len(self.expanding) > 12:
            raise Unsupported("deserialization nesting")
        self.expanding.append("de:" + self.ts(ty))
        try:
            st = St()
            outs = self.run(inst, [Agg(inst.body.locals[1], 0, (j,))], st)
            okc = []
            val = BOT
            for o in outs:
                if o.kind == "panic":
                    raise Unsupported("deserializer can panic")
                c = And(*o.st.pc)
                oc = And(c, self.cv(o.val, None, 0))
                if is_f(oc):
                    continue
                okc.append(oc)
                val = self.ite(oc, self.proj(o.val, 0, 0, None), val)
        finally:
            self.expanding.pop()
        r = (j, Or(*okc), val)
        self._de_cache[key] = r
        return r[1], r[2]

    # ------------------------------------------------------------------ path conditions
    def assume(self, st, c):
        """extends st (in place); False if syntactically contradictory"""
        if self._assume(st, c):
            return True
        st.pc.append(z3.BoolVal(False))
        return False

    def _assume(self, st, c):
        if c is True:
            return True
        if c is False:
            return False
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if z3.is_and(c):
            for x in c.children():
                if not self.assume(st, x):
                    return False
            return True
        neg = z3.is_not(c)
        a = c.arg(0) if neg else c
        i = a.get_id()
        kn = st.known.get(i)
        if kn is not None:
            return kn == (not neg)
        if neg and z3.is_or(a):
            for x in a.children():
                if not self.assume(st, Not(x)):
                    return False
            st.known[i] = False
            self._tcache[i] = a
            return True
        if z3.is_eq(a) and not z3.is_bool(a.arg(0)):
            l, r = a.arg(0), a.arg(1)
            cst = self._cst(r)
            if cst is None:
                cst = self._cst(l)
                l, r = r, l
            if cst is not None:
                li = l.get_id()
                cur = st.eqc.get(li)
                if cur is not None:
                    return (cur == cst) != neg
                ne = st.neq.get(li, frozenset())
                if not neg:
                    if cst in ne:
                        return False
                    st.eqc[li] = cst
                    if ne:
                        st.pc = [x for x in st.pc if not (z3.is_not(x) and z3.is_eq(x.arg(0)) and x.arg(0).arg(0).get_id() == li and self._cst(x.arg(0).arg(1)) in ne)]
                else:
                    if cst in ne:
                        return True
                    st.neq[li] = ne | {cst}
                self._tcache[li] = l
        elif not neg and z3.is_or(a):
            # unit simplification
            live = []
            for x in a.children():
                v = self.eval3(st, x)
                if v is True:
                    return True
                if v is None:
                    live.append(x)
            if not live:
                return False
            if len(live) == 1:
                return self.assume(st, live[0])
        st.known[i] = not neg
        self._tcache[i] = a
        st.pc.append(c)
        return True

    def _cst(self, t):
        if z3.is_int_value(t):
            return t.as_long()
        l = lit_of(t) if t.sort() == S else None
        return ("s", l) if l is not None else None

    def eval3(self, st, c):
        """syntactic three-valued evaluation under the path condition"""
        if isinstance(c, bool):
            return c
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        kn = st.known.get(c.get_id())
        if kn is not None:
            return kn
        if z3.is_not(c):
            r = self.eval3(st, c.arg(0))
            return None if r is None else not r
        if z3.is_and(c):
            r = True
            for x in c.children():
                v = self.eval3(st, x)
                if v is False:
                    return False
                if v is None:
                    r = None
            return r
        if z3.is_or(c):
            r = False
            for x in c.children():
                v = self.eval3(st, x)
                if v is True:
                    return True
                if v is None:
                    r = None
            return r
        if z3.is_eq(c) and not z3.is_bool(c.arg(0)):
            l, r = c.arg(0), c.arg(1)
            cst = self._cst(r)
            if cst is None:
                cst = self._cst(l)
                l = r
            if cst is not None:
                cur = st.eqc.get(l.get_id())
                if cur is not None:
                    return cur == cst
                if cst in st.neq.get(l.get_id(), ()):
                    return False
        return None

    def fork(self, st, cond):
        """[(state, bool)] for the two outcomes of cond"""
        v = self.eval3(st, cond)
        if v is True:
            return [(st, True)]
        if v is False:
            return [(st, False)]
        r = []
        s1 = st.copy()
        if self.assume(s1, cond):
            r.append((s1, True))
        s2 = st
        if self.assume(s2, Not(cond)):
            r.append((s2, False))
        return r

    # ------------------------------------------------------------------ constants and operands
    def const(self, c):
        ty = c["ty"]
        if c.get("zst"):
            z = self.zst(ty)
            if z is None:
                d = self.T[ty]
                if d["k"] == "adt" and d["deep"] and d["kind"] == "Enum":
                    return Agg(ty, 0, ())
                raise Unsupported("zst const " + self.ts(ty))
            return z
        return self.decode(ty, c["v"])

    def decode(self, ty, v):
        d = self.T[ty]
        if "b" in v:
            return v["b"]
        if "i" in v:
            return int(v["i"])
        if "ch" in v:
            return v["ch"]
        if "s" in v:
            return VRef(Str((v["s"],)))
        if "f" in v:
            return Opq("f64:" + str(v["f"]))
        if "ref" in v:
            return VRef(self.decode(d["e"], v["ref"]))
        if "slice" in v:
            return VRef(VecV([self.decode(v["e"], x) for x in v["slice"]]))
        if "arr" in v:
            return VecV([self.decode(d["e"], x) for x in v["arr"]])
        if "bytes" in v:
            return Opq("bytes:" + bytes(v["bytes"]).hex())
        if "agg" in v:
            if d["k"] == "tuple":
                tys = d["es"]
            elif d["deep"]:
                tys = [f[1] for f in d["vs"][v["v"]]["fields"]]
            else:
                return Opq("const:" + self.ts(ty) + repr(v))
            if self.is_string(ty) or self.jty(ty):
                raise Unsupported("const of " + self.ts(ty))
            return Agg(ty, v["v"], [self.decode(t, x) for t, x in zip(tys, v["agg"])])
        if "static" in v:
            return Opq("static:" + v["static"])
        return Opq("const:" + self.ts(ty) + repr(v))

    def op(self, st, fr, o):
        k = o["k"]
        if k == "const":
            return self.const(o)
        if k == "rtc":
            return False
        v = self.read(st, fr, o["p"])
        if k == "move" and not o["p"][1] and isinstance(v, Agg) and self.T[v.ty].get("name") == "vharness::AbsMap":
            st.cells.pop((fr, o["p"][0]), None)
        return v

    def num(self, v):
        if isinstance(v, DiscV):
            return self.disc_int(v.v, v.ty)
        return v

    def binop(self, st, op, a, b):
        a, b = self.num(a), self.num(b)
        if isinstance(a, Val) or isinstance(b, Val):
            if op in ("Eq", "Ne") and isinstance(a, Val) and isinstance(b, Val):
                e = self.eq(a, b, st)
                return e if op == "Eq" else Not(e)
            raise Unsupported("binop %s on %r %r" % (op, a, b))
        isb = isinstance(a, (bool, z3.BoolRef))
        if op == "Eq":
            return Eqb(a, b) if isb else (a == b)
        if op == "Ne":
            return Not(Eqb(a, b)) if isb else (a != b)
        if isb:
            if op == "BitAnd":
                return And(a, b)
            if op == "BitOr":
                return Or(a, b)
            if op == "BitXor":
                return Not(Eqb(a, b))
            raise Unsupported("bool op %s %r %r" % (op, a, b))
        if op in ("Lt", "Le", "Gt", "Ge") and isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.eq(b):
            return op in ("Le", "Ge")
        if op == "Lt":
            return a < b
        if op == "Le":
            return a <= b
        if op == "Gt":
            return a > b
        if op == "Ge":
            return a >= b
        if op.startswith("Add"):
            return a + b
        if op.startswith("Sub"):
            return a - b
        if op.startswith("Mul"):
            return a * b
        raise Unsupported("binop " + op)

    def rvalue(self, st, fr, r, dty):
        k = r[0]
        if k == "use":
            return self.op(st, fr, r[1])
        if k == "ref":
            return self.place_ptr(st, fr, r[1], bool(r[2]))
        if k == "disc":
            ty = None
            v = self.read(st, fr, r[1])
            return DiscV(v, ty)
        if k == "agg":
            ak = r[1]
            vals = [self.op(st, fr, o) for o in r[2]]
            if ak[0] == "adt":
                ty = ak[1]
                if self.jty(ty) in ("Value", "Content"):
                    return self.mk_value(ty, ak[2], vals)
                d = self.T[ty]
                return Agg(ty, ak[2], vals)
            if ak[0] == "tuple":
                return Agg(dty, 0, vals)
            if ak[0] == "closure":
                return Agg(ak[1], 0, vals)
            if ak[0] == "array":
                return VecV(vals)
            if ak[0] == "rawptr":
                return vals[0]
            raise Unsupported("aggregate " + ak[0])
        if k == "bin" and r[1] == "Cmp":
            a, b = zi(self.num(self.op(st, fr, r[2]))), zi(self.num(self.op(st, fr, r[3])))
            return self.ite(z3.simplify(a == b), Agg(dty, 1, ()), self.ite(z3.simplify(a < b), Agg(dty, 0, ()), Agg(dty, 2, ())))
        if k == "bin":
            return self.binop(st, r[1], self.op(st, fr, r[2]), self.op(st, fr, r[3]))
        if k == "cbin":
            v = self.binop(st, r[1], self.op(st, fr, r[2]), self.op(st, fr, r[3]))
            ity = self.T[dty]["es"][0] if dty is not None else None
            ov = False
            if ity is not None and self.T[ity]["k"] in ("int", "uint"):
                n = 8 * self.T[ity]["b"]
                lo, hi = (0, 2 ** n - 1) if self.T[ity]["k"] == "uint" else (-2 ** (n - 1), 2 ** (n - 1) - 1)
                bd = self.bounds(v)
                ov = False if bd is not None and lo <= bd[0] and bd[1] <= hi else (not lo <= v <= hi) if isinstance(v, int) else z3.Or(v < lo, v > hi)
            return Agg(dty, 0, (v, ov))
        if k == "un":
            v = self.op(st, fr, r[2])
            if r[1] == "Not":
                if isinstance(v, (bool, z3.BoolRef)):
                    return Not(v)
                raise Unsupported("bitwise not")
            if r[1] == "Neg":
                return -v
            if r[1] == "PtrMetadata":
                x = self.deref_all(st, v)
                if isinstance(x, VecV):
                    return len(x.es)
                raise Unsupported("ptr metadata")
        if k == "cast":
            v = self.op(st, fr, r[2])
            if isinstance(v, DiscV):
                return self.disc_int(v.v, v.ty)
            if isinstance(v, bool):
                return int(v)
            if isinstance(v, z3.BoolRef):
                return z3.If(v, z3.IntVal(1), z3.IntVal(0))
            return v
        if k == "len":
            v = self.read(st, fr, r[1])
            if isinstance(v, VecV):
                return len(v.es)
            if isinstance(v, Sym):
                axiom(LEN(v.t) >= 0)
                return LEN(v.t)
        if k == "repeat":
            if isinstance(r[2], int) and r[2] <= 64:
                return VecV([self.op(st, fr, r[1])] * r[2])
        raise Unsupported("rvalue " + str(k))

    def bounds(self, v):
        """syntactic integer range"""
        if isinstance(v, int):
            return (v, v)
        if z3.is_int_value(v):
            return (v.as_long(), v.as_long())
        if z3.is_const(v) and v.decl().name().startswith("seqidx!"):
            return (0, 2 ** 63 - 2)
        if z3.is_app_of(v, z3.Z3_OP_ITE):
            a, b = self.bounds(v.arg(1)), self.bounds(v.arg(2))
            return None if a is None or b is None else (min(a[0], b[0]), max(a[1], b[1]))
        if z3.is_add(v):
            r = [self.bounds(x) for x in v.children()]
            return None if any(x is None for x in r) else (sum(x[0] for x in r), sum(x[1] for x in r))
        return None

    def mk_value(self, ty, var, vals):
        if self.jty(ty) == "Content":
            n = self.T[ty]["vs"][var]["name"].split("::")[-1]
            if n in ("String", "Str"):
                x = self.deref_all(None, vals[0]) if isinstance(vals[0], VRef) else vals[0]
                if isinstance(x, Str):
                    return JS(x)
            if n == "Bool":
                return JB(vals[0])
            if n in ("None", "Unit"):
                return JNull
            if n[0] in "UI" and n[1:].isdigit():
                return JI(vals[0])
            raise Unsupported("Content construction")
        if var == 0:
            return JNull
        if var == 1:
            return JB(vals[0])
        if var == 2:
            v = vals[0]
            if isinstance(v, Opq) and v.tag == "Number":
                return v.args[0]
            return JF(v)
        if var == 3:
            return JS(vals[0])
        if var == 4:
            return JA(vals[0])
        return vals[0]

    # ------------------------------------------------------------------ function execution
    frame_ty = {}

    def run(self, inst, args, st):
        """all outcomes of calling inst with args"""
        b = inst.body
        if b is None:
            raise Unsupported("no body for " + inst.name)
        self.depth += 1
        if self.depth > INLINE_LIMIT:
            self.depth -= 1
            raise Unsupported("inline depth")
        self.fid += 1
        fr = self.fid
        self.frame_ty[fr] = b.locals
        try:
            if b.spread is not None and len(args) != b.argc:
                raise Unsupported("spread")
            if len(args) != b.argc:
                raise Unsupported("arity %s: %d/%d" % (inst.name, len(args), b.argc))
            for i, a in enumerate(args):
                st.cells[(fr, i + 1)] = a
            outs = self.explore(inst, b, fr, [(0, st)], None)[0]
            for o in outs:
                for l in range(len(b.locals)):
                    if o.kind == "ret" and (fr, l) in o.st.cells:
                        if not self._escapes(o.val, fr, l):
                            del o.st.cells[(fr, l)]
            return outs
        finally:
            self.depth -= 1

    def _escapes(self, v, fr, l):
        if isinstance(v, Ptr):
            return v.cell == (fr, l)
        if isinstance(v, Agg):
            return any(self._escapes(f, fr, l) for f in v.fs)
        if isinstance(v, Ite):
            return self._escapes(v.a, fr, l) or self._escapes(v.b, fr, l)
        return False

    def explore(self, inst, b, fr, entries, region):
        """region: None for the whole body, else a set of blocks; leaving it yields exits.
        returns (outcomes, exits) with exits = [(from, to, state)]"""
        outs = []
        exits = []
        work = {}
        for bb, s in entries:
            work.setdefault(bb, []).append(s)
        merge_ok = self.mergeable(inst)
        rpo = b.rpo
        npaths = 0
        while work:
            bb = min(work, key=lambda x: rpo[x])
            states = work.pop(bb)
            if merge_ok and len(states) > 1:
                states = self.merge_states(states, b, fr, bb)
            for s in states:
                self.steps += 1
                npaths += 1
                if self.steps > self.max_steps or npaths > PATH_LIMIT:
                    raise Unsupported("path limit")
                if bb in b.loops and (region is None or bb not in region[1]):
                    lo, le = self.loop(inst, b, fr, bb, s)
                    outs.extend(lo)
                    for (f, t, s2) in le:
                        if region is not None and (t not in region[0]):
                            exits.append((f, t, s2))
                        else:
                            work.setdefault(t, []).append(s2)
                    continue
                for kind, tgt, s2, val in self.block(inst, b, fr, bb, s):
                    if kind == "goto":
                        if region is not None and (tgt not in region[0] or tgt in region[1]):
                            exits.append((bb, tgt, s2))
                        else:
                            work.setdefault(tgt, []).append(s2)
                    else:
                        outs.append(Out(kind, s2, val))
        return outs, exits

    def mergeable(self, inst):
        n = inst.name
        return "visit_map" in n or "erialize" in n or "vharness" in n

    def merge_states(self, states, b, fr, bb):
        cur = [states[0]]
        for s in states[1:]:
            for i, t in enumerate(cur):
                m = self.merge2(t, s, b, fr, bb)
                if m is not None:
                    cur[i] = m
                    break
            else:
                cur.append(s)
        return cur

    def merge2(self, s1, s2, b, fr, bb):
        n = 0
        while n < len(s1.pc) and n < len(s2.pc) and s1.pc[n].get_id() == s2.pc[n].get_id():
            n += 1
        c1 = And(*s1.pc[n:])
        c2 = And(*s2.pc[n:])
        live = b.live[bb]
        r = s1.copy()
        keys = set(s1.cells) | set(s2.cells)
        for k in keys:
            if k[0] == fr and k[1] not in live and k[1] not in b.borrowed:
                r.cells.pop(k, None)
                continue
            v1, v2 = s1.cells.get(k), s2.cells.get(k)
            if v1 is v2:
                continue
            if v1 is None or v2 is None:
                if k[0] == fr or k[0] == "h":
                    # a borrowed temporary that exists on one side only
                    r.cells[k] = v1 if v1 is not None else v2
                    continue
                return None
            if self.same(v1, v2):
                continue
            if not self.can_merge(v1, v2):
                if k[0] == fr and k[1] not in live:
                    r.cells.pop(k, None)
                    continue
                return None
            try:
                r.cells[k] = self.ite(c1, v1, v2)
            except Unsupported:
                return None
        for ik in set(s1.iters) | set(s2.iters):
            if not self.same_iter(s1.iters.get(ik), s2.iters.get(ik)):
                return None
        r.pc = s1.pc[:n]
        r.known = {k: v for k, v in s1.known.items() if s2.known.get(k) == v}
        r.eqc = {k: v for k, v in s1.eqc.items() if s2.eqc.get(k) == v}
        r.neq = {k: v & s2.neq[k] for k, v in s1.neq.items() if k in s2.neq}
        d = Or(c1, c2)
        if not is_t(d) and not (isinstance(c1, z3.ExprRef) and isinstance(c2, z3.ExprRef) and Not(c1).get_id() == c2.get_id()):
            i = d.get_id()
            r.known[i] = True
            self._tcache[i] = d
            r.pc.append(d)
        return r

    def same_iter(self, a, b):
        return a == b

    def can_merge(self, a, b):
        if not isinstance(a, Val) and not isinstance(b, Val):
            return True
        if not isinstance(a, Val) or not isinstance(b, Val):
            return False
        if isinstance(a, Str) and isinstance(b, Str):
            return True
        if isinstance(a, Agg) and isinstance(b, Agg):
            if a.ty != b.ty:
                return False
            if a.var == b.var and len(a.fs) == len(b.fs):
                return all(self.same(x, y) or self.can_merge(x, y) for x, y in zip(a.fs, b.fs))
            return self.opt_inner(a.ty) is not None
        if isinstance(a, JV) and isinstance(b, JV):
            return True
        if isinstance(a, (Agg, Sym, Ite)) and isinstance(b, (Agg, Sym, Ite)):
            return True
        if isinstance(a, BoxV) and isinstance(b, BoxV):
            return self.can_merge(a.v, b.v)
        if isinstance(a, VRef) and isinstance(b, VRef):
            return self.can_merge(a.v, b.v)
        return False

    def block(self, inst, b, fr, bb, st):
        ss, t = b.blocks[bb]
        for s in ss:
            k = s[0]
            if k == "=":
                p = s[1]
                r = s[2]
                dty = b.locals[p[0]] if not p[1] else None
                if dty is None and r[0] in ("agg", "cbin") and p[1]:
                    last = p[1][-1]
                    dty = last[1] if isinstance(last, list) else None
                v = self.rvalue(st, fr, r, dty)
                self.write(st, fr, p, v)
            elif k == "sd":
                raise Unsupported("set discriminant")
            elif k == "assume":
                pass
            elif k == "intr":
                raise Unsupported("copy_nonoverlapping")
        k = t["t"]
        if k == "goto" or k == "drop":
            return [("goto", t["to"], st, None)]
        if k == "ret":
            v = st.cells.get((fr, 0))
            if v is None:
                v = self.zst(b.locals[0])
                if v is None:
                    raise Unsupported("return of uninitialised value")
            return [("ret", None, st, v)]
        if k == "unreach":
            return []
        if k == "abort":
            return []
        if k == "assert":
            c = self.op(st, fr, t["c"])
            good = c if t["e"] else Not(c)
            r = []
            for s2, ok in self.fork(st, good):
                if ok:
                    r.append(("goto", t["to"], s2, None))
                else:
                    r.append(("panic", None, s2, t["msg"]))
            return r
        if k == "switch":
            return self.switch(st, fr, t)
        if k == "call":
            return self.call(inst, b, st, fr, t)
        raise Unsupported("terminator " + k)

    def switch(self, st, fr, t):
        v = self.op(st, fr, t["d"])
        r = []
        if isinstance(v, DiscV):
            conds = []
            d = None
            for val, tgt in t["br"]:
                conds.append((self.disc_cond(v, int(val)), tgt))
        elif isinstance(v, (bool, z3.BoolRef)):
            conds = [((Not(v) if val == "0" else v), tgt) for val, tgt in t["br"]]
        elif isinstance(v, (int, z3.ArithRef)):
            conds = [((v == int(val)), tgt) for val, tgt in t["br"]]
        else:
            raise Unsupported("switch on %r" % (v,))
        cur = st
        for c, tgt in conds:
            fs = self.fork(cur, c)
            cur = None
            for s2, tv in fs:
                if tv:
                    r.append(("goto", tgt, s2, None))
                else:
                    cur = s2
            if cur is None:
                break
        if cur is not None:
            # the otherwise arm: unreachable arms are dropped by `unreach`
            r.append(("goto", t["else"], cur, None))
        return r

    def disc_cond(self, v, val):
        """discriminant value -> variant index"""
        x = v.v
        ty = self._val_ty(x)
        if ty is not None and self.T[ty]["k"] == "adt" and self.T[ty]["deep"]:
            for i, vv in enumerate(self.T[ty]["vs"]):
                if int(vv["d"]) == val or (int(vv["d"]) & 0xFF) == val or (int(vv["d"]) % 2 ** 64) == val:
                    return self.cv(x, ty, i)
            return False
        return self.cv(x, None, val)

    def _val_ty(self, x):
        if isinstance(x, (Agg, Sym)):
            return x.ty
        if isinstance(x, Ite):
            return self._val_ty(x.a) if self._val_ty(x.a) is not None else self._val_ty(x.b)
        if isinstance(x, BoxV):
            return self._val_ty(x.v)
        return None

    # ------------------------------------------------------------------ calls
    def call(self, inst, b, st, fr, t):
        f = t["f"]
        args = [self.op(st, fr, a) for a in t["args"]]
        dest = t["dest"]
        dty = b.locals[dest[0]] if not dest[1] else (dest[1][-1][1] if isinstance(dest[1][-1], list) else None)
        if "dynf" in f:
            fv = self.op(st, fr, f["dynf"])
            outs = self.apply_fn(st, fv, args, dty)
        else:
            outs = self.invoke(st, f, args, dty, inst)
        r = []
        for o in outs:
            if o.kind == "ret":
                if t["to"] is None:
                    continue
                if o.val is None:
                    raise Unsupported("no value from " + f["def"])
                self.write(o.st, fr, dest, o.val)
                r.append(("goto", t["to"], o.st, None))
            else:
                r.append((o.kind, None, o.st, o.val))
        return r

    def retag(self, outs, dty):
        """Result<T, AbsErr> outcomes of an abstract run, seen at type dty"""
        r = []
        for o in outs:
            if o.kind == "ret":
                o = Out("ret", o.st, self._retag(o.val, dty))
            r.append(o)
        return r

    def _retag(self, v, dty):
        if isinstance(v, Agg):
            return Agg(dty, v.var, v.fs)
        if isinstance(v, Ite):
            return Ite(v.c, self._retag(v.a, dty), self._retag(v.b, dty))
        return v

    def invoke(self, st, f, args, dty, caller=None):
        inst = self.p.insts.get(f["inst"]) if f["inst"] is not None else None
        res = contracts.lookup(self, f, inst)
        if res is not None:
            name, fn = res
            r = fn(self, st, f, inst, args, dty)
            if r is not NotImplemented:
                self.used_contracts[name] = self.used_contracts.get(name, 0) + 1
                if isinstance(r, list):
                    return r
                return [Out("ret", st, r)]
        if inst is None:
            raise Unsupported("unresolved call " + f["def"])
        if not inst.has_body:
            c = self.ctor(inst, args, dty, f.get("args"))
            if c is not None:
                return [Out("ret", st, c)]
            raise Unsupported("no contract and no body: " + inst.name)
        if inst.krate == "rust_mcp_schema":
            self.inlined[inst.name] = self.inlined.get(inst.name, 0) + 1
        if inst.kind == "shim" and inst.body.argc != len(args):
            # FnOnce shim over closures: (closure, (args,))
            return self.apply_fn(st, args[0], list(args[1].fs), dty)
        return self.run(inst, args, st)

    def ctor(self, inst, args, dty, fargs=None):
        if inst.krate != "rust_mcp_schema" and "std::option::Option" not in inst.df and "std::result::Result" not in inst.df and not inst.df.startswith("std::prelude::v1::"):
            return None
        nm = inst.key.split("::")[-1]
        if dty is not None:
            d = self.T[dty]
            if d["k"] == "adt" and d["deep"]:
                for i, v in enumerate(d["vs"]):
                    if v["name"].split("::")[-1] == nm and len(v["fields"]) == len(args):
                        if self.jty(dty):
                            return self.mk_value(dty, i, args)
                        return Agg(dty, i, args)
        if nm in ("Some", "Ok", "Err") and fargs is not None:
            for ti, d in self.T.items():
                if d["k"] == "adt" and d["name"] in ("std::option::Option", "std::result::Result") and d["args"] == fargs:
                    for i, v in enumerate(d["vs"]):
                        if v["name"].split("::")[-1] == nm:
                            return Agg(ti, i, args)
        # find by path
        for ti, d in self.T.items():
            if d["k"] == "adt" and d["deep"] and d["krate"] == inst.krate:
                for i, v in enumerate(d["vs"]):
                    if (d["name"] + "::" + v["name"] == inst.key or d["name"] == inst.key) and len(v["fields"]) == len(args):
                        return Agg(ti, i, args)
        return None

    def apply_fn(self, st, fv, args, dty):
        """call a closure / fn item value"""
        while isinstance(fv, (Ptr, VRef)):
            inner = self.deref(st, fv)
            if isinstance(inner, Agg) and self.T[inner.ty]["k"] == "closure":
                break
            fv = inner
        target = self.deref(st, fv) if isinstance(fv, (Ptr, VRef)) else fv
        if isinstance(target, FnV):
            d = self.T[target.ty]
            if d["inst"] is None:
                raise Unsupported("unresolved fn item")
            if dty is None and d["name"] in ("std::convert::From::from", "std::convert::Into::into"):
                dty = d["args"][0 if d["name"].endswith("from") else 1]
            return self.invoke(st, {"def": d["name"], "args": d["args"], "inst": d["inst"], "virt": False}, args, dty)
        if isinstance(target, Agg) and self.T[target.ty]["k"] == "closure":
            d = self.T[target.ty]
            inst = self.p.insts[d["inst"]]
            if inst.kind == "shim":
                cands = [i for i in self.p.insts.values() if i.kind == "item" and i.df == d["name"] and i.has_body and self._closure_self(i) == target.ty]
                if not cands:
                    raise Unsupported("closure body " + d["name"])
                inst = cands[0]
            if not inst.has_body:
                raise Unsupported("closure body " + d["name"])
            selfty = self.T[inst.body.locals[1]]
            if selfty["k"] == "ref":
                if isinstance(fv, Ptr):
                    sa = fv
                else:
                    sa = Ptr(self.new_cell(st, target))
            else:
                sa = target
            if inst.body.argc == len(args) + 1:
                return self.run(inst, [sa] + list(args), st)
            raise Unsupported("closure arity")
        raise Unsupported("call of %r" % (target,))

    def _closure_self(self, i):
        t = i.body.locals[1]
        d = self.T[t]
        return d["e"] if d["k"] == "ref" else t

    # ------------------------------------------------------------------ loops over an abstract JSON map
    def loop(self, inst, b, fr, h, st0):
        body = b.loops[h]
        # locals written in the loop (assigned, or mutably borrowed)
        written = set()
        calls_map = False
        for bb in body:
            ss, t = b.blocks[bb]
            for s in ss:
                if s[0] == "=":
                    written.add(s[1][0])
                    r = s[2]
                    if r[0] == "ref" and r[2]:
                        written.add(r[1][0])
            if t["t"] == "call":
                written.add(t["dest"][0])
        live = b.live[h] | b.borrowed
        mapcells = {}

        def note(ck, v):
            if isinstance(v, Agg) and self.T[v.ty]["k"] == "adt" and self.T[v.ty]["name"] == "vharness::AbsMap":
                mapcells[ck] = v.fs[0]
            elif isinstance(v, Ptr) and not v.path and v.cell in st0.cells and v.cell != ck:
                note(v.cell, st0.cells[v.cell])

        for l in range(len(b.locals)):
            v = st0.cells.get((fr, l))
            if v is not None and l in (live | self._used_in(b, body)):
                note((fr, l), v)
        if len(mapcells) != 1:
            its = {}
            for l in range(len(b.locals)):
                v = st0.cells.get((fr, l))
                if isinstance(v, Opq) and l in (live | self._used_in(b, body)):
                    if v.tag == "iter" and not isinstance(v.args[0], VecV) or v.tag == "itermap" or v.tag.startswith("it:"):
                        its[(fr, l)] = v
            hl = [l for l in sorted(written) if (fr, l) in st0.cells and l in live]
            if len(its) == 1 and next(iter(its)) not in st0.iters:
                import seqs
                src = seqs.iter_source(self, st0, *next(iter(its.items())))
                if src is not None:
                    return self.seq_loop(inst, b, fr, h, st0, src, hl)
            if not its:
                import seqs
                for src in seqs.index_sources(self, inst, b, fr, h, st0, hl, body):
                    return self.seq_loop(inst, b, fr, h, st0, src, hl)
            return self.concrete_loop(inst, b, fr, h, st0)
        mcell, jv = next(iter(mapcells.items()))
        if st0.iters.get(mcell) is not None:
            raise Unsupported("nested use of one map")
        hole_locals = [l for l in sorted(written) if (fr, l) in st0.cells and (fr, l) != mcell and l in live]
        nb = len(st0.pc)

        def one(key, own, probe=False):
            """one arbitrary iteration; key: None (map exhausted), literal, or a fresh Str"""
            s = st0.copy()
            if probe:
                # which variables a key sets does not depend on the document
                s.cells[mcell] = Agg(s.cells[mcell].ty, 0, (JSym(fresh("probe", J)),))
            holes = {}
            for l in hole_locals:
                if l in own:
                    continue
                v0 = s.cells[(fr, l)]
                hv = self.hole(b.locals[l], v0, l)
                holes[l] = hv
                s.cells[(fr, l)] = hv
            s.iters[mcell] = ("key", key)
            if isinstance(key, Str) and key.lit is None:
                for lt in lits:
                    self.assume(s, Not(self.streq(key, Str((lt,)))))
            outs, ex = self.explore(inst, b, fr, [(h, s)], (body, _First(h)))
            return outs, ex, holes

        # pass 1: which literals does the body compare the key with?
        K = Str((fresh("key", S),))
        lits = []
        self._keyprobe = (K.parts[0].get_id(), set())
        one(K, (), True)
        lits = sorted(self._collect_key_lits(K))
        # pass 2: per key class
        classes = list(lits) + [None]
        changed_by = {}
        per = {}
        for c in classes:
            key = Str((c,)) if c is not None else K
            outs, ex, holes = one(key, (), True)
            ch = set()
            for f, t, s in ex:
                if t == h:
                    for l in hole_locals:
                        nv = s.cells.get((fr, l))
                        if nv is not holes[l] and not self.same(nv, holes[l]):
                            ch.add(l)
            for l in ch:
                changed_by.setdefault(l, []).append(c)
            per[c] = ch
        for l, cs in changed_by.items():
            if len(cs) > 1:
                raise Unsupported("loop variable changed by several keys")
        summary = {}
        assumptions = []
        early = []
        outs_all = []
        for c in classes:
            own = per[c] if c is not None else set()
            key = Str((c,)) if c is not None else K
            outs, ex, holes = one(key, own)
            pres = self.jhas(jv, key) if c is not None else self.jother(jv, set(lits))
            if is_f(pres):
                continue
            hole_ids = {self._hole_id(hv) for hv in holes.values()}
            backs = []
            for f, t, s in ex:
                cond = And(*s.pc[nb:]) if c is not None else And(*[x for x in s.pc[nb:] if not self._mentions(x, K.parts[0])])
                if t == h:
                    if s.iters.get(mcell) != ("used",):
                        raise Unsupported("iteration does not consume the value")
                    if self._mentions_any(cond, hole_ids):
                        raise Unsupported("iteration depends on another key's variable")
                    backs.append((cond, s))
                else:
                    if self._mentions_any(cond, hole_ids):
                        raise Unsupported("exit depends on another key's variable: %s %s" % (str(cond)[:700], hole_ids))
                    e = s
                    ok = True
                    e2 = st0.copy()
                    e2.cells = dict(s.cells)
                    e2.iters = dict(st0.iters)
                    ok = self.assume(e2, pres)
                    for x in s.pc[nb:]:
                        ok = ok and self.assume(e2, x)
                    if ok:
                        early.append((f, t, e2))
            for o in outs:
                e2 = st0.copy()
                e2.cells = dict(o.st.cells)
                ok = self.assume(e2, pres)
                for x in o.st.pc[nb:]:
                    ok = ok and self.assume(e2, x)
                if ok:
                    outs_all.append(Out(o.kind, e2, o.val))
            if c is not None:
                okc = Or(*[x[0] for x in backs])
                assumptions.append(Implies(pres, okc))
                for l in own:
                    v = st0.cells[(fr, l)]
                    for cond, s in backs:
                        v2 = s.cells[(fr, l)]
                        v = self.ite(cond, v2, v) if len(backs) > 1 else v2
                    summary[l] = self.ite(pres, v, st0.cells[(fr, l)])
            else:
                if not backs:
                    assumptions.append(Not(pres))
                for l in per[None]:
                    # the only accumulation understood: pushing (key, value) pairs onto an empty vector
                    v0 = st0.cells[(fr, l)]
                    for cond, s in backs:
                        nv = s.cells[(fr, l)]
                        if not (isinstance(nv, Opq) and nv.tag == "push" and self.same(nv.args[0], holes[l]) and self._is_pair(nv.args[1], K, jv)):
                            raise Unsupported("accumulation pattern")
                        if not is_t(cond):
                            raise Unsupported("conditional accumulation")
                    if not (isinstance(v0, VecV) and not v0.es):
                        raise Unsupported("accumulation onto a non-empty value")
                    summary[l] = Opq("collected", (self.jrest(jv, set(lits)),))
        # exhausted
        outs, ex, holes = one(None, ())
        exits = list(early)
        for o in outs:
            raise Unsupported("return inside the loop region")
        for f, t, s in ex:
            if t == h:
                raise Unsupported("loop continues after exhaustion")
            e = st0.copy()
            e.cells = dict(s.cells)
            e.iters = dict(st0.iters)
            e.iters[mcell] = ("done",)
            for l in hole_locals:
                if l in holes and s.cells.get((fr, l)) is holes[l]:
                    e.cells[(fr, l)] = summary.get(l, st0.cells[(fr, l)])
                elif (fr, l) in s.cells and l in holes:
                    raise Unsupported("exhaustion changes a loop variable")
            ok = True
            for a in assumptions:
                ok = ok and self.assume(e, a)
            for x in s.pc[nb:]:
                ok = ok and self.assume(e, x)
            if ok:
                exits.append((f, t, e))
        self.loops_done = getattr(self, "loops_done", 0) + 1
        return outs_all, exits

    def _used_in(self, b, body):
        u = set()
        for bb in body:
            ss, t = b.blocks[bb]
            for x in ss:
                if x[0] == "=" and x[2][0] == "ref":
                    u.add(x[2][1][0])
            if t["t"] == "call":
                for a in t["args"]:
                    if a["k"] in ("copy", "move"):
                        u.add(a["p"][0])
        return u

    def _is_pair(self, v, K, jv):
        # Some((key, value)) or (key, value)
        if isinstance(v, Agg) and len(v.fs) == 1:
            v = v.fs[0]
        if isinstance(v, Agg) and len(v.fs) == 2:
            k, w = v.fs
            kk = k.s if isinstance(k, JS) else k
            return isinstance(kk, Str) and self.same(kk, K) and isinstance(w, (JV, Ite)) and self.same(w, self.jget(jv, K))
        return False

    def _hole_id(self, v):
        if isinstance(v, Sym):
            return v.t.get_id()
        if isinstance(v, Str):
            return v.parts[0].get_id()
        if isinstance(v, JSym):
            return v.t.get_id()
        if isinstance(v, z3.ExprRef):
            return v.get_id()
        return None

    def hole(self, ty, v0, l):
        return self.mkval(ty, "hole%d" % l, None)

    def _mentions(self, e, t):
        return self._mentions_any(e, {t.get_id()})

    def _mentions_any(self, e, ids):
        if not isinstance(e, z3.ExprRef):
            return False
        seen = set()
        stack = [e]
        while stack:
            x = stack.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if i in ids:
                return True
            stack.extend(x.children())
        return False

    def _collect_key_lits(self, K):
        return set(self._keyprobe[1])

    def note_streq(self, a, b):
        kp = getattr(self, "_keyprobe", None)
        if kp is None:
            return
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Str) and len(x.parts) == 1 and not isinstance(x.parts[0], str) and x.parts[0].get_id() == kp[0] and y.lit is not None:
                kp[1].add(y.lit)

    def _exprs(self, v):
        """the terms a value consists of"""
        if isinstance(v, z3.ExprRef):
            return [v]
        if isinstance(v, (list, tuple)):
            return [y for x in v for y in self._exprs(x)]
        if isinstance(v, Val):
            out = []
            for c in type(v).__mro__:
                for a in getattr(c, "__slots__", ()):
                    out += self._exprs(getattr(v, a, None))
            return out
        return []

    def seq_loop(self, inst, b, fr, h, st0, src, hole_locals):
        """loop over an arbitrary sequence, replaced by an inductive summary: what one iteration does to the
        loop's variables on an arbitrary element, with arbitrary values of these variables"""
        import contracts
        v, ety, icell = src.v, src.ety, src.cell
        body = b.loops[h]
        nb = len(st0.pc)
        holes = [l for l in hole_locals if (fr, l) != icell]

        def one(e):
            s = st0.copy()
            hv = {}
            for l in holes:
                hv[l] = self.hole(b.locals[l], s.cells[(fr, l)], l)
                s.cells[(fr, l)] = hv[l]
            src.place(self, s, e)
            outs, ex = self.explore(inst, b, fr, [(h, s)], (body, _First(h)))
            return outs, ex, hv
        # one iteration on the canonical element: which elements does the loop go on after, what is accumulated
        e = self.mkval_const(ety, "elem")
        outs, ex, hv = one(e)
        ids = {y.get_id() for x in hv.values() for y in self._exprs(x)}
        dirty = lambda x: any(self._mentions_any(y, ids) for y in self._exprs(x))
        backs = []
        for f, t, s in ex:
            if t != h:
                continue
            if not src.took(self, s):
                raise Unsupported("iteration without an element")
            cond = And(*src.proper(self, s.pc[nb:]))
            if dirty(cond):
                raise Unsupported("iteration depends on an earlier one")
            for ck, x in s.cells.items():
                if ck in st0.cells and ck != icell and x is not st0.cells[ck] and not (ck[0] == fr if isinstance(ck, tuple) else False):
                    if not self.same(x, st0.cells[ck]):
                        raise Unsupported("iteration changes memory outside the loop")
            backs.append((cond, s))
        okc = Or(*[c for c, _ in backs], src.skipped(self, st0, e))
        summary = {}
        for l in holes:
            v0 = st0.cells[(fr, l)]
            nvs = [(c, s.cells.get((fr, l))) for c, s in backs]
            ch = [(c, x) for c, x in nvs if x is not hv[l] and not (x is not None and self.same(x, hv[l]))]
            if not ch:
                continue
            if any(x is None for c, x in ch):
                raise Unsupported("loop variable is given up")
            import seqs
            if any(seqs.positional(self, y) for c, x in ch for y in self._exprs(x)):
                raise Unsupported("accumulation by position")
            if all(isinstance(x, Opq) and x.tag == "push" and self.same(x.args[0], hv[l]) and not dirty(x.args[1]) for c, x in ch) and len(ch) == len(nvs) and is_f(src.skipped(self, st0, e)):
                if not (isinstance(v0, VecV) and not v0.es):
                    raise Unsupported("accumulation onto a non-empty value")
                r = ch[-1][1].args[1]
                for c, x in reversed(ch[:-1]):
                    x = x.args[1]
                    r = self.ite(c, x, r) if isinstance(x, Val) or isinstance(r, Val) else If(c, x, r)
                summary[l] = seqs.mapped(self, st0, v, e, r)
                continue
            if isinstance(hv[l], z3.BoolRef) and all(isinstance(x, (bool, z3.BoolRef)) for c, x in nvs):
                # a truth value, one of whose values is final
                at = lambda b: Or(src.skipped(self, st0, e) if b else False, *[And(c, x if isinstance(x, bool) else z3.substitute(x, (hv[l], z3.BoolVal(b)))) for c, x in nvs])
                t, u = at(True), at(False)
                if any(dirty(y) for y in self._exprs([t, u])):
                    raise Unsupported("accumulation pattern")
                if is_t(seqs.simp(Or(Not(okc), t))):
                    summary[l] = Or(v0, contracts.quant(self, "any", v, e, u))
                    continue
                if is_f(seqs.simp(u)):
                    summary[l] = And(v0, contracts.quant(self, "all", v, e, Or(Not(okc), t)))
                    continue
            x0 = ch[0][1]
            em = {y.get_id() for y in self._exprs(e)}
            if any(dirty(x) or any(self._mentions_any(y, em) for y in self._exprs(x)) or not self.same(x, x0) for c, x in ch):
                raise Unsupported("accumulation pattern")
            some_ = contracts.quant(self, "any", v, e, Or(*[c for c, x in ch]))
            summary[l] = self.ite(some_, x0, v0) if isinstance(x0, Val) or isinstance(v0, Val) else If(some_, x0, v0)
        # leaving early: on some element, after any number of iterations
        w = self.mkval(ety, "elem", None)
        outs2, ex2, _ = one(w)
        stop = Not(okc)
        stops = contracts.quant(self, "any", v, e, stop) if not is_f(stop) else False
        outs_all, exits = [], []
        for o in outs2:
            e2 = o.st
            e2.iters = dict(st0.iters)
            if self.assume(e2, stops):
                outs_all.append(Out(o.kind, e2, o.val))
        for f, t, s in ex2:
            if t == h:
                continue
            s.iters = dict(st0.iters)
            if self.assume(s, stops):
                exits.append((f, t, s))
        # exhausted: no element stops the loop
        s = st0.copy()
        for l, x in summary.items():
            s.cells[(fr, l)] = x
        src.finish(self, s)
        if not is_t(okc):
            # the generic element of the accumulated sequences is one the loop went on after
            facts = self.__dict__.setdefault("seq_facts", {})
            if self.same(facts.setdefault(ety, v), v):
                self.assume(s, Or(contracts.veclen(self, v) == 0, okc))
        if self.assume(s, Not(stops)):
            outs3, ex3 = self.explore(inst, b, fr, [(h, s)], (body, _First(h)))
            for o in outs3:
                o.st.iters = dict(st0.iters)
                outs_all.append(o)
            for f, t, s in ex3:
                if t == h:
                    raise Unsupported("loop continues after exhaustion")
                s.iters = dict(st0.iters)
                exits.append((f, t, s))
        self.loops_done = getattr(self, "loops_done", 0) + 1
        return outs_all, exits

    def concrete_loop(self, inst, b, fr, h, st0):
        """loop over a concretely known sequence: executed to completion (bounded by its length)"""
        body = b.loops[h]
        outs_all, exits = [], []
        cur = [st0]
        for n in range(300):
            nxt = []
            for s in cur:
                outs, ex = self.explore(inst, b, fr, [(h, s)], (body, _First(h)))
                outs_all += outs
                for f, t, s2 in ex:
                    if t == h:
                        nxt.append(s2)
                    else:
                        exits.append((f, t, s2))
            if not nxt:
                return outs_all, exits
            if len(nxt) > 64:
                raise Unsupported("loop path explosion")
            cur = nxt
        raise Unsupported("unsupported loop")


class _First:
    """treats the header as a region exit, except for the initial entry"""

    def __init__(self, h):
        self.h = h

    def __contains__(self, x):
        return x == self.h
