"""Obligations: a contract is checked function by function against the MIR of /repo's current tree."""
import json, os, re, sys, time, traceback, zlib
import z3
sys.setrecursionlimit(30000)
import sym
from sym import *
from prog import Prog, strip_generics
import exec as X
import contracts

VERIF = os.path.abspath(os.path.join(os.path.dirname(__file__), "..", ".."))
SPEC = os.path.join(VERIF, "spec")
TIMEOUT_MS = 20000


def norm_root(n):
    """<impl Tr for T>::f / <T as Tr>::f / <impl T>::f  ->  T as Tr::f / T::f"""
    m = re.match(r"<impl (.*) for (.*)>::(\w+)$", n)
    if m:
        return "<%s as %s>::%s" % (m.group(2), m.group(1), m.group(3))
    m = re.match(r"<impl (.*)>::(\w+)$", n)
    if m:
        return "%s::%s" % (m.group(1), m.group(2))
    return n


class Ob:
    """one proof obligation and its verdict"""
    __slots__ = ("prop", "ver", "func", "name", "status", "detail", "backend", "ms", "hint")

    def __init__(self, prop, ver, func, name, status, detail="", backend="", ms=0.0, hint=None):
        self.prop, self.ver, self.func, self.name = prop, ver, func, name
        self.status, self.detail, self.backend, self.ms, self.hint = status, detail, backend, ms, hint

    def js(self):
        return {k: getattr(self, k) for k in self.__slots__}


class Missing(Unsupported):
    pass


class Skip(Exception):
    """this unit belongs to another worker (or was already done for this property)"""


class Ctx:
    def __init__(self, ver, dump):
        self.ver = ver
        self.p = Prog(dump, ver)
        self.T = self.p.types
        self.spec = json.load(open(os.path.join(SPEC, ver + ".json")))
        self.roots = {}
        for n, i in self.p.root_defs.items():
            self.roots.setdefault(norm_root(n), i)
        self.obs = []
        self.prop = "?"
        self.func = "?"
        self.used = {}
        self.functions = set()
        self.inlined = set()
        self.solver_ms = 0.0
        self.inv = {}
        self.shard = None
        self.skip = False
        self.only = None        # names of the obligations that are wanted, None: all
        self.done = set()
        self.engine_class = None
        self.engines = 0        # engines made in this unit
        self.target = None      # replay: the one unit that is wanted
        self.picked = ()
        self.hit = False
        self.pick = None        # units of another property that belong to this one too
        self.provider = None    # replay: concrete inputs
        self.runner = None      # replay: observed outcomes
        self.cur = None
        self._inv()

    # ------------------------------------------------------------- invariants
    def _inv(self):
        """type invariants of private constant members (established by every constructor: P01/P02)"""
        for t, s in self.spec["structs"].items():
            ti = self.p.local_adts.get(t)
            if ti is None:
                continue
            fs = self.T[ti]["vs"][0]["fields"]
            for f in s["fields"]:
                if "const" in f and isinstance(f["const"], str) and not f["pub"]:
                    for i, (n, ft) in enumerate(fs):
                        if n == f["f"]:
                            self.inv.setdefault(t, {})[(0, i)] = ("opt", f["const"]) if f["t"].startswith("Option") else f["const"]

    def engine(self):
        if self.skip:
            raise Skip()
        E = (self.engine_class or X.Engine)(self.p)
        E.inv = self.inv
        E.deadline = time.time() + 120
        E.ordinal = self.engines
        self.engines += 1
        self.cur = E
        if self.provider is not None:
            E.provider = lambda ty, name: self.provider(E, ty, name)
        sym.CUR = self
        return E

    def doc(self, name):
        """an arbitrary JSON document"""
        E = self.cur
        if self.provider is not None:
            v = self.provider(E, None, name)
        else:
            j = fresh(name, J)
            axiom(z3.And(KIND(j) >= 0, KIND(j) <= 6))
            v = JSym(j)
        E.tops.append((name, None, v))
        return v

    # ------------------------------------------------------------- lookups
    def ty(self, tstr):
        i = self.p.by_tstr.get(tstr)
        if i is None:
            raise Missing("type %s not found" % tstr)
        return i

    def work(self):
        """first statement of a unit: leaves it when it belongs to another worker"""
        if self.skip:
            raise Skip()

    def fn(self, name):
        if self.skip:
            raise Skip()
        i = self.roots.get(name)
        if i is None or not i.has_body:
            raise Missing("function %s not found" % name)
        return i

    def has(self, name):
        return name in self.roots

    def fidx(self, ti, name, var=0):
        for i, f in enumerate(self.T[ti]["vs"][var]["fields"]):
            if f[0] == name:
                return i, f[1]
        raise Missing("member %s of %s not found" % (name, self.p.tstr(ti)))

    def vidx(self, ti, name):
        for i, v in enumerate(self.T[ti]["vs"]):
            if v["name"].split("::")[-1] == name:
                return i
        raise Missing("variant %s of %s not found" % (name, self.p.tstr(ti)))

    # ------------------------------------------------------------- recording
    def rec(self, name, status, detail="", backend="", ms=0.0, hint=None):
        if self.only is not None and name not in self.only:
            return
        if self.runner is not None:
            return
        self.obs.append(Ob(self.prop, self.ver, self.func, name, status, detail[:4000], backend, ms, hint))

    def prove(self, name, pc, goal, E=None, show=None, hint=None):
        """records the obligation And(pc) => goal"""
        t0 = time.time()
        if self.only is not None and name not in self.only:
            return True
        if self.runner is not None:
            return self.runner.judge(name, pc, goal)
        if is_t(goal):
            self.rec(name, "proved", backend="simplifier")
            return True
        hyp = And(*pc) if pc else True
        if is_f(hyp):
            self.rec(name, "proved", backend="simplifier")
            return True
        extra = []
        st, model, how = solve(hyp, goal, lambda es: self.unfold(es, extra))
        ms = (time.time() - t0) * 1000
        self.solver_ms += ms
        if st == "unsat":
            self.rec(name, "proved", backend="z3 " + how if how else "z3", ms=ms)
            return True
        if st == "sat":
            d = ""
            if show is not None:
                try:
                    d = show(model) + "\n"
                except Exception as e:
                    d = "(%s)\n" % e
            d += "path condition: %s\ngoal: %s\ncounterexample: %s" % (short(hyp), short(goal), model_str(model, hyp, goal))
            h = self.witness(model, And(hyp, *extra), goal)
            import strlogic
            w = strlogic.weak_names([hyp, goal])
            if w:
                d += "\npartly specified: " + ", ".join(sorted(w))
                h["weak"] = True
            self.rec(name, "refuted", d, "z3", ms, h)
            return False
        self.rec(name, "unknown", "solver: %s" % how, "z3", ms, hint)
        return False

    def unfold(self, es, out, rounds=3):
        """the contracts of the readers the formula mentions ("this document reads as T"), as equations"""
        import wire
        E = self.cur
        done = set()
        todo = list(es)
        t0 = time.time()
        for rnd in range(rounds):
            apps = {}
            for e in todo:
                reads(e, apps)
            todo = []
            for k in apps:
                a = apps[k]
                if k in done or len(out) > 120 or time.time() - t0 > 20:
                    continue
                done.add(k)
                n = a.decl().name()[3:]
                t = a.arg(0)
                ti = self.p.local_adts.get(n)
                j = JSym(t)
                if ti is None or self.func == n + "::deserialize":
                    continue
                try:
                    if n in self.spec["structs"] and self.spec["structs"][n]["serde"]:
                        ok, val = wire.expect_de(self, E, ti, wire.field_spec(self, n), j)
                        eqs = None
                    elif n in self.spec["strenums"]:
                        ok, val = False, BOT
                        for v, w in self.spec["strenums"][n].items():
                            q = And(E.jkind_is(j, K_STR), E.streq(E.jstr(j), Str((w,))))
                            ok = Or(ok, q)
                            val = E.ite(q, Agg(ti, self.vidx(ti, v), ()), val)
                    elif n in self.spec["untagged"]:
                        ok, val = wire.expect_untagged(self, E, ti, n, j)
                    elif n in self.spec["transparent"]:
                        ft = self.T[ti]["vs"][0]["fields"][0][1]
                        ok, v = E.de(ft, j)
                        val = Agg(ti, 0, (v,))
                    else:
                        continue
                    new = [a == zb(ok)]
                    try:
                        q = Implies(a, E.eq(E.mkval(ti, t, "val:" + n), val))
                        if not is_t(q):
                            new.append(zb(q))
                    except (Unsupported, RecursionError, z3.Z3Exception, AttributeError, TypeError):
                        pass
                except (Missing, Unsupported, KeyError, IndexError, AttributeError, TypeError, z3.Z3Exception):
                    if os.environ.get("VTRACE"):
                        traceback.print_exc()
                    continue
                out += new
                todo += new
        return out

    def witness(self, model, hyp, goal):
        """concrete arguments under the solver's counterexample (for the replay against the real code)"""
        try:
            import replay
            return replay.witness(self, model, hyp, goal)
        except Exception as e:
            if os.environ.get("VTRACE"):
                traceback.print_exc()
            return dict(error="%s: %s" % (type(e).__name__, e))

    def fail(self, name, detail, hint=None):
        self.rec(name, "refuted", detail, "executor", hint=hint)

    def guard(self, func):
        return Guard(self, func)

    # ------------------------------------------------------------- running
    def run(self, E, inst, args, st=None):
        st = st or X.St()
        if self.runner is not None:
            return self.runner(E, inst, args, st)
        self.functions.add(inst.name)
        if E.tops is not None:
            E.toplist, E.tops = E.tops, None
        outs = E.run(inst, args, st)
        for n, k in E.used_contracts.items():
            self.used[n] = self.used.get(n, 0) + k
        self.inlined.update(E.inlined)
        return outs

    def no_panic(self, outs, hint=None):
        """obligation: no path panics; returns the returning outcomes"""
        rets = [o for o in outs if o.kind != "panic"]
        bad = [o for o in outs if o.kind == "panic"]
        for o in bad:
            self.prove("never panics", o.st.pc, False, hint=hint)
        if not bad:
            self.rec("never panics", "proved", backend="executor")
        return rets

    def reachable(self, outs):
        """vacuity guard: at least one returning path has a satisfiable path condition"""
        for o in outs:
            if o.kind == "ret":
                st, m, how = solve(And(*o.st.pc) if o.st.pc else True, False)
                if st != "unsat":
                    return True
        return False


class Guard:
    def __init__(self, ctx, func):
        self.c, self.f = ctx, func

    def __enter__(self):
        self.old = self.c.func
        c = self.c
        c.func = self.f
        self.n = len(c.obs)
        self.t = time.time()
        c.engines = 0
        if c.target is not None:
            c.skip = self.f != c.target
            c.hit = c.hit or not c.skip
        elif c.shard is not None:
            c.skip = zlib.crc32(self.f.encode()) % c.shard[1] != c.shard[0]
        if c.pick is not None and not c.skip:
            c.skip = not c.pick(self.f)
        return self

    def __exit__(self, et, ev, tb):
        c = self.c
        if c.skip:
            c.skip = False
            if et is not None and issubclass(et, Skip):
                c.func = self.old
                return True
            if et is None and len(c.obs) == self.n:
                c.func = self.old
                return True
        if et is not None:
            if issubclass(et, Missing):
                c.rec("in reach of the verifier", "unsupported", "lost anchor: %s" % ev)
            elif issubclass(et, Unsupported):
                if os.environ.get("VTRACE"):
                    traceback.print_exception(et, ev, tb)
                c.rec("in reach of the verifier", "unsupported", str(ev))
            elif issubclass(et, (RecursionError, z3.Z3Exception, KeyError, AttributeError, IndexError, TypeError, AssertionError, NotImplementedError, ValueError)):
                if os.environ.get("VTRACE"):
                    traceback.print_exception(et, ev, tb)
                c.rec("in reach of the verifier", "unsupported", "%s: %s" % (et.__name__, ev))
            else:
                c.func = self.old
                return False
        elif len(c.obs) == self.n:
            c.rec("non-vacuous", "unsupported", "no obligation was generated")
        c.func = self.old
        return True


# ------------------------------------------------------------------------------ solver
def _vars(e, acc, seen):
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x):
            if x.num_args() == 0:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    acc.add(i)
            else:
                st.extend(x.children())
    return acc


_axvars = {}


def relevant_axioms(es):
    """axioms transitively sharing an uninterpreted constant with es (literals link only to themselves)"""
    cur = set()
    seen = set()
    for e in es:
        _vars(e, cur, seen)
    cur2 = set(cur)
    out = []
    for a in sym.axioms:
        v = _axvars.get(a.get_id())
        if v is None:
            v = frozenset(_vars(a, set(), set()))
            _axvars[a.get_id()] = v
        if not v or v <= cur2:
            out.append(a)
    return out


def reads(e, acc):
    """applications of "document t reads as T" in a formula"""
    if isinstance(e, bool):
        return
    st, seen = [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() == 1 and x.decl().name().startswith("ok:"):
            acc.setdefault(x.get_id(), x)
        st.extend(x.children())


def solve(hyp, goal, unfold=None):
    if is_f(hyp):
        return "unsat", None, ""
    es = [zb(hyp)]
    if not is_f(goal):
        es.append(z3.Not(zb(goal)))
    for stage in (0, 1):
        s = z3.Solver()
        s.set("timeout", TIMEOUT_MS)
        for e in es:
            s.add(e)
        ax = []
        if stage:
            ax = relevant_axioms(es)
            s.add(*ax)
        r = s.check()
        if r == z3.unsat:
            return "unsat", None, ""
    if r == z3.sat:
        m = s.model()
        import strlogic
        if unfold is not None:
            try:
                more = unfold(es)
            except RecursionError:
                more = []
            if more:
                s = z3.Solver()
                s.set("timeout", TIMEOUT_MS)
                ax = relevant_axioms(es + more)
                s.add(*es)
                s.add(*more)
                s.add(*ax)
                r = s.check()
                if r == z3.unsat:
                    return "unsat", None, "with reader contracts"
                if r == z3.sat:
                    m = s.model()
                    es = es + more
        ns = strlogic.names_in(es)
        if strlogic.strings_in(ns):
            how, m2 = strlogic.solve(es, ax)
            if how == "unsat":
                return "unsat", None, "strings"
            if how == "sat":
                m = m2
        return "sat", m, ""
    return "unknown", None, s.reason_unknown()


def short(e, n=1500):
    s = str(e).replace("\n", " ")
    s = re.sub(r"\s+", " ", s)
    return s if len(s) <= n else s[:n] + "..."


def model_str(m, hyp, goal):
    if m is None:
        return ""
    out = []
    for e in (hyp, goal):
        if isinstance(e, bool):
            continue
        st, seen = [e], set()
        while st and len(out) < 60:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_bool(x) and z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_EQ):
                v = m.eval(x, model_completion=True)
                if z3.is_true(v) or z3.is_false(v):
                    out.append("%s%s" % ("" if z3.is_true(v) else "not ", short(x, 120)))
                    continue
            if z3.is_app(x):
                st.extend(x.children())
    return "; ".join(out)
