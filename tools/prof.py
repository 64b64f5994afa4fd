"""developer aid: where does one job fork?  prof.py PROP SUBSTR [max_paths]"""
import sys, os, json, collections, traceback, time
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from sx import loader
loader.install()
import importlib
from sx import engine, cx as cxm, ir, solve
raw = json.loads(sys.stdin.read())
mod = importlib.import_module("props." + sys.argv[1].lower())
jobs = [j for j in raw if sys.argv[2] in j["harness"] + " " + json.dumps(j["params"])]
j = jobs[0]
print(j)
sites = collections.Counter()
times = collections.Counter()
orig = engine.Path.branch
def br(self, t, *a):
    n = len(self.ex.work)
    t0 = time.time()
    r = orig(self, t, *a)
    fr = [f for f in traceback.extract_stack()[:-1] if "/sx/" not in f.filename and "tools/prof" not in f.filename]
    fx = traceback.extract_stack()[:-1]
    s = "%s:%d %s" % (fr[-1].filename, fr[-1].lineno, "<".join(f.name for f in fx[::-1][:5]))
    times[s] += time.time() - t0
    if len(self.ex.work) > n:
        sites[s, ir.show(t, 5)[:150] if not isinstance(t, bool) else t] += 1
    return r
engine.Path.branch = br
ex = engine.Explorer(max_paths=int(sys.argv[3]) if len(sys.argv) > 3 else 200, seconds=60)
oc = solve.Solver.check
def chk(self, terms, extra=None, **k):
    t0 = time.time()
    a0 = dict(solve.STATS)
    r = oc(self, terms, extra, **k)
    if time.time() - t0 > 1 or r[0] == "unknown":
        print("SLOW %.1fs" % (time.time() - t0), r[0], k, {x: solve.STATS[x] - a0.get(x, 0) for x in solve.STATS})
        if "-q" in sys.argv:
            for t in terms:
                print("     ", ir.show(t, 8)[:600])
        print("   +", ir.show(extra, 8)[:1500] if extra is not None else None)
    return r
solve.Solver.check = chk
fn = getattr(mod, j["harness"])
def h(c):
    try:
        fn(c, **j["params"])
    finally:
        c.stubs.undo()
t0 = time.time()
ex.run(h, lambda p: cxm.SymCx(p, ex))
print("paths", ex.n_paths, "complete", ex.complete, "cex", [(c["label"], c["detail"]) for c in ex.cexs], "unsup", set(ex.unsupported), "incon", ex.inconclusive[:5], time.time() - t0)
for s, n in sites.most_common(25):
    print(n, s)
print(solve.STATS)
for s, n in times.most_common(8):
    print("%.2fs" % n, s)
