"""Runs the contracts of a property on the real code with generated inputs (all units, also the proved ones):
a cross-check of the verifier, the library contracts and the replay itself.  Not part of any check.

usage: crosscheck.py <property> <version> [cases] [unit regex]"""
import re, sys, os, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, replay
from core import Ctx

prop, ver = sys.argv[1], sys.argv[2]
n = int(sys.argv[3]) if len(sys.argv) > 3 else 10
pat = sys.argv[4] if len(sys.argv) > 4 else ""
import props, core
c = Ctx(ver, build.dump(ver))
c.prop = prop
labels = []


class G(core.Guard):
    def __enter__(self):
        if self.f not in labels:
            labels.append(self.f)
        self.c.skip = True
        return super().__enter__() if False else self._e()

    def _e(self):
        self.old = self.c.func
        self.c.func = self.f
        self.n = len(self.c.obs)
        self.c.skip = True
        return self


old = core.Ctx.guard
core.Ctx.guard = lambda self, f: G(self, f)
props.PROPS[prop]["run"] = props.union(*props.PROPS[prop]["own"])
props.PROPS[prop]["run"](c)
core.Ctx.guard = old
c.obs = []
labels = [l for l in labels if re.search(pat, l)]
print(len(labels), "units")
t = time.time()
tot = [0, 0, 0, 0]
for i in range(0, len(labels), 40):
    v = replay.decide_version(c, prop, {l: [] for l in labels[i:i + 40]}, 1, n, 600)
    for l, x in v.items():
        tot[0] += 1
        tot[1] += x["judged"]
        tot[2] += x["unknown"]
        if x["fails"] or not x["judged"]:
            tot[3] += 1
            print("FAIL" if x["fails"] else "none", l, "cases", x["cases"], "judged", x["judged"], "open", x["unknown"], x["why"][:200])
            for f in x["fails"][:1]:
                print("      ", f["obligations"][:4], str(f["inputs"])[:int(os.environ.get("W","500"))], "\n       ->", str(f["observed"])[:int(os.environ.get("W","400"))])
print("units %d, judged %d, open %d, to look at %d; %.0f s" % (*tot, time.time() - t))
