"""P07: a successful measurement profiles every job exactly once. Specs: BuildMeasure, BuildTrace."""
from vf.measure import *

INV = ("INVARIANTS NoJobLost SuccessIsComplete EndsWithNothingRunning ToldOncePerRow EnoughStopped MemoryFailureIsReal TypeOK\n"
       "PROPERTIES ReportedOnce OnlyWhenShort YoungestFirst NotMoreThanNeeded\nCONSTRAINT Decided\nACTION_CONSTRAINT Emit\n")
def behaviours(c, name, sim=None, depth=None, **consts):
    k = {"NJobs": 3, "NWorkers": 2, "Levels": "{}", "Plenty": 1000, "Failures": "{}", "MaxEnv": 50, "Random": "FALSE", "CancelToo": "FALSE"}
    k.update(consts)
    if sim: k["Random"] = "TRUE"
    r = tlc("BuildMeasure", "SPECIFICATION Spec\n" + INV, k, simulate=sim, depth=depth, seed=c.sub_seed(name), timeout=1500)
    c.tlc_done(r, sim=sim is not None)
    c.cov.setdefault("runs", {})[name] = len(r.lines)
    return r.lines
def liveness(c):
    """Within the specification, a measurement always ends and stopped jobs are run again."""
    for kw in ({"Levels": "{1000}", "NJobs": 4}, {"Levels": "{1000, 480, 250}", "MaxEnv": 4}):
        k = {"NJobs": 3, "NWorkers": 2, "Levels": "{}", "Plenty": 1000, "Failures": "{}", "MaxEnv": 50, "Random": "FALSE", "CancelToo": "FALSE"}; k.update(kw)
        r = tlc("BuildMeasure", "SPECIFICATION Fair\nPROPERTIES %s\nCONSTRAINT Decided\n" % ("Ends StoppedAgain" if "MaxEnv" not in kw else "StoppedAgain"), k, timeout=600)
        c.tlc_done(r)

def scenario(rng, n, w, timed, **kw):
    s = {"jobs": n, "workers": w, "kinds": ["ok"] * n, "plan": [(["nap %d" % rng.choice([0, 1, 3, 10, 30])] if rng.random() < .7 else []) + ["exit 0"] for _ in range(n)],
         "timed": timed, "poll": rng.choice([1, 5, 20, 50]), "cancel": None, "shared": rng.random() < .3}
    s.update(kw)
    return s

def run(c):
    m = build_harness("m"); shim = build_shim()
    liveness(c)
    behs = []
    for n in range(0, c.pick(5, 6)):
        for w in range(1, c.pick(5, 6)):
            behs += behaviours(c, "%d jobs, %d workers" % (n, w), NJobs=n, NWorkers=w)
    c.cov["exhaustive"] = True
    behs += behaviours(c, "many", sim=c.pick(40, 400), depth=200, NJobs=15, NWorkers=5, Plenty=5000)
    behs += behaviours(c, "more workers than jobs", sim=c.pick(10, 100), depth=200, NJobs=7, NWorkers=9, Plenty=5000)
    c.sample(behs[len(behs) // 2])
    replay_all(c, m, behs, talks=True, shim=shim)
    rng = c.rng("unattended")
    sc = [scenario(rng, n, w, t) for w in (None, 1, 2, 3, 8, 70) for t in (False, True) for n in (0, 1, 2, 9, 40)]
    sc += [scenario(rng, rng.randint(0, 60), rng.randint(1, 12), rng.random() < .5) for _ in range(c.pick(30, 300))]
    sc.append(scenario(rng, c.pick(300, 1500), 16, True))
    c.cov["unattended"] = len(sc)
    validate(c, m, sc, shim=shim)
