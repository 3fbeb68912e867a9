"""P10: no job handed to the workers is lost, duplicated or stranded in any schedule. Specs: WorkQueue, WorkQueueFutex, WorkQueueProgram."""
from vf.core import *
from concurrent.futures import ThreadPoolExecutor

def ws(n): return "{%s}" % ", ".join('"w%d"' % i for i in range(n))
def js(n): return "{%s}" % ", ".join(map(str, range(1, n + 1)))

def model(c):
    """The algorithm, in all interleavings of its steps."""
    def one(a):
        w, j, i, d = a
        return tlc("WorkQueueFutex", "SPECIFICATION Fair\nINVARIANTS OnePlace NobodyStranded\nPROPERTIES AbsSpec Ending Fetched\n",
                   {"Workers": ws(w), "Jobs": js(j), "Initial": i, "MaxDeaths": d}, workers=4, timeout=3000, heap="12g" if c.thorough else "6g")
    for a in c.pick([(2, 2, 0, 1), (2, 3, 1, 1), (3, 2, 1, 1)], [(2, 4, 1, 1), (3, 3, 1, 1), (4, 2, 1, 0)]):
        c.tlc_done(one(a))

def programs(c, name, workers, initial, jobs, ops, sim=None):
    r = tlc("WorkQueueProgram", "SPECIFICATION Spec\nINVARIANTS OnePlace OffInTheEnd Busy\nACTION_CONSTRAINT Emit\n",
            {"Workers": ws(workers), "Jobs": js(jobs), "Initial": initial, "MaxOps": ops, "Random": "TRUE" if sim else "FALSE"},
            simulate=sim, depth=8 * ops if sim else None, seed=c.sub_seed(name))
    c.tlc_done(r, sim=sim is not None)
    return r.lines

def explore(c, hq, name, progs, **kw):
    """Run the programs on the real queue under many schedules."""
    case = dict(preemptions=2, spurious=1, retries=1, max=200000, seed=None); case.update(kw)
    progs = [dict(p, **case) for p in progs]
    if case["seed"] is not None:
        for k, p in enumerate(progs): p["seed"] = (c.sub_seed(name) + 7 * k) * 2 + 1
    n = 8
    with ThreadPoolExecutor(n) as ex:
        parts = list(ex.map(lambda k: Harness([hq], timeout=300).batch(progs[k::n]), range(n)))
    runs = exhausted = 0
    for k, part in enumerate(parts):
        for p, o in zip(progs[k::n], part):
            c.count()
            if "crash" in o: c.violation("the work queue hangs: " + o["crash"], {"program": p}); continue
            runs += o["runs"]; exhausted += bool(o.get("all"))
            if "wrong" in o: c.violation(o["wrong"] + "; " + ", ".join(o["events"])[:300], {"program": p, "schedule": o["schedule"], "events": o["events"]})
    c.add("schedules", runs)
    c.cov.setdefault("runs", {})[name] = {"programs": len(progs), "schedules": runs, "exhausted within bounds": exhausted}

def run(c):
    hq = build_hooked()
    model(c)
    ps = []
    for w, i, j, o in [(1, 1, 3, 5), (2, 0, 2, 4), (2, 1, 3, 4), (2, 2, 3, 4)]: ps += programs(c, "p%d%d%d%d" % (w, i, j, o), w, i, j, o)
    c.sample(ps[len(ps) // 2]); c.cov["exhaustive"] = True
    explore(c, hq, "short programs", ps, preemptions=c.pick(1, 3), spurious=1, retries=1, max=c.pick(2000, 50000))
    ps = programs(c, "long", 3, 2, 8, 12, sim=c.pick(100, 1000))
    explore(c, hq, "long programs", ps, seed=1, preemptions=1000, spurious=3, retries=3, max=c.pick(300, 3000))
    explore(c, hq, "long programs, few preemptions", ps, seed=1, preemptions=3, spurious=0, retries=0, max=c.pick(300, 3000))
