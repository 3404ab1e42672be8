"""Second look at an obligation that depends on string functions: the same formula over z3's theory of strings,
where concatenation, prefixes, containment, trimming and decimal text are interpreted instead of left open."""
import z3, re
import sym
from sym import *

ZS = z3.StringSort()
# characters with the Unicode White_Space property (what str::trim removes)
WS = [0x9, 0xA, 0xB, 0xC, 0xD, 0x20, 0x85, 0xA0, 0x1680] + list(range(0x2000, 0x200B)) + [0x2028, 0x2029, 0x202F, 0x205F, 0x3000]
CASE = ("to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase")
WEAK = re.compile(r"^(cat:|trim|strip_|starts_with$|ends_with$|contains$|eq_ignore_ascii_case$|to_lowercase$|to_uppercase$|to_ascii_|strlt$|strlen$|slice$|char_boundary$|replace$|parse_|split_|elem0:|elemat:|elemlast:|count:|opq:(insert|removed|truncated|appended|seqcat|taken|skipped|reversed|retained|drained|position|elemat)$|first:|exists:|chars_)")


def names_in(es):
    out = set()
    seen = set()
    st = [e for e in es if not isinstance(e, bool)]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            st.extend(x.children())
    return out


def weak_names(es):
    return {n for n in names_in(es) if WEAK.match(n)}


def strings_in(ns):
    return any(re.match(r"^(cat:|trim|strip_|starts_with$|ends_with$|contains$|eq_ignore|to_lower|to_upper|to_ascii|strlt$|strlen$|replace$)", n) for n in ns)


def pylower(n, s):
    if n == "to_lowercase":
        return s.lower()
    if n == "to_uppercase":
        return s.upper()
    f = (lambda c: c.lower()) if n.endswith("lowercase") else (lambda c: c.upper())
    return "".join(f(c) if c.isascii() else c for c in s)


def ws_re():
    return z3.Union(*[z3.Re(z3.StringVal(chr(c))) for c in WS])


class Tr:
    def __init__(self):
        self.memo = {}
        self.side = []
        self.lits = {}
        self.cases = []
        self.wsr = None

    def sort(self, s):
        return ZS if s == S else s

    def tr(self, e):
        if isinstance(e, bool):
            return z3.BoolVal(e)
        i = e.get_id()
        r = self.memo.get(i)
        if r is None:
            r = self.go(e)
            self.memo[i] = r
        return r

    def ws(self):
        if self.wsr is None:
            self.wsr = ws_re()
        return self.wsr

    def go(self, e):
        if not z3.is_app(e):
            return e
        cs = [self.tr(c) for c in e.children()]
        d = e.decl()
        if d.kind() != z3.Z3_OP_UNINTERPRETED:
            if not cs:
                return e
            k = d.kind()
            if k == z3.Z3_OP_EQ:
                return cs[0] == cs[1]
            if k == z3.Z3_OP_ITE:
                return z3.If(*cs)
            if k == z3.Z3_OP_DISTINCT:
                return z3.Distinct(*cs)
            return d(*cs)
        n = d.name()
        if e.sort() == S and not cs:
            l = lit_of(e)
            if l is not None:
                v = z3.StringVal(l)
                self.lits[l] = v
                return v
        if n.startswith("cat:"):
            it = iter(cs)
            xs = [next(it) if p is None else z3.StringVal(p) for p in CATS[n]]
            return z3.Concat(*xs) if len(xs) > 1 else xs[0]
        if n in ("starts_with", "ends_with", "contains") and len(cs) == 2:
            a, b = cs
            return z3.PrefixOf(b, a) if n == "starts_with" else z3.SuffixOf(b, a) if n == "ends_with" else z3.Contains(a, b)
        if n == "strlt":
            return cs[0] < cs[1]
        if n == "itoa":
            i = cs[0]
            return z3.If(i >= 0, z3.IntToStr(i), z3.Concat(z3.StringVal("-"), z3.IntToStr(-i)))
        if n == "strip_prefix":
            return z3.SubString(cs[0], z3.Length(cs[1]), z3.Length(cs[0]) - z3.Length(cs[1]))
        if n == "strip_suffix":
            return z3.SubString(cs[0], 0, z3.Length(cs[0]) - z3.Length(cs[1]))
        nd = z3.Function(n + "$s", *[self.sort(d.domain(k)) for k in range(d.arity())], self.sort(d.range())) if cs else z3.Const(n + "$s", self.sort(e.sort())) if e.sort() == S else None
        if nd is None:
            return e
        r = nd(*cs) if cs else nd
        if n in ("trim", "trim_start", "trim_end"):
            a = cs[0]
            k = len(self.side)
            w1, w2 = z3.String("ws1!%d" % k), z3.String("ws2!%d" % k)
            R = self.ws()
            self.side.append(a == z3.Concat(w1, r, w2))
            self.side.append(z3.InRe(w1, z3.Star(R)) if n != "trim_end" else w1 == "")
            self.side.append(z3.InRe(w2, z3.Star(R)) if n != "trim_start" else w2 == "")
            ln = z3.Length(r)
            if n != "trim_end":
                self.side.append(z3.Or(ln == 0, z3.Not(z3.InRe(z3.SubString(r, 0, 1), R))))
            if n != "trim_start":
                self.side.append(z3.Or(ln == 0, z3.Not(z3.InRe(z3.SubString(r, ln - 1, 1), R))))
        elif n in CASE:
            self.cases.append((n, cs[0], r))
        elif n == "eq_ignore_ascii_case":
            lo = z3.Function("to_ascii_lowercase$s", ZS, ZS)
            for x in cs:
                self.cases.append(("to_ascii_lowercase", x, lo(x)))
            return lo(cs[0]) == lo(cs[1])
        elif n == "strlen":
            self.side.append(r >= z3.Length(cs[0]))
            self.side.append((r == 0) == (cs[0] == ""))
        return r

    def finish(self):
        for n, a, r in self.cases:
            ls = set(self.lits)
            more = set()
            for l in ls:
                # values that map onto a known string, so that a counterexample has one to take
                for x in (l, l.upper(), l.lower(), l.capitalize()):
                    more.add(x)
            for l in more:
                self.side.append(z3.Or(a != z3.StringVal(l), r == z3.StringVal(pylower(n, l))))
            self.side.append((z3.Length(a) == 0) == (z3.Length(r) == 0))


class TModel:
    """a model of the translated formula, asked about terms of the original one"""

    def __init__(self, m, tr):
        self.m, self.t = m, tr

    def eval(self, e, model_completion=True):
        return self.m.eval(self.t.tr(e), model_completion=model_completion)


def solve(es, ax, timeout=15000):
    """('unsat'|'sat'|'unknown', model)"""
    try:
        t = Tr()
        fs = [t.tr(e) for e in es]
        fa = []
        for a in ax:
            if "sid" in names_in([a]):
                continue
            fa.append(t.tr(a))
        t.finish()
        s = z3.Solver()
        s.set("timeout", timeout)
        s.add(*fs)
        s.add(*fa)
        s.add(*t.side)
        r = s.check()
        if r == z3.unsat:
            return "unsat", None
        if r == z3.sat:
            return "sat", TModel(s.model(), t)
        return "unknown", None
    except z3.Z3Exception as e:
        import os
        if os.environ.get("VTRACE"):
            import traceback
            traceback.print_exc()
        return "unknown", None
