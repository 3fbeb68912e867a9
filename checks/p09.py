"""P09: a failed or cancelled measurement ends once, promptly, leaving no job behind. Specs: BuildMeasure, BuildTrace."""
from checks.p07 import *

def burst(m, shim, n, w, what):
    """Many jobs that end at once, then one that goes on: the measurement must not have lost sight of it."""
    ended = []
    def hello(b, c):
        ended.append(c)
        if len(ended) < n: c.order("exit 0")
    b = Build(m, n, w, shim=shim, on_hello=hello)
    try:
        if not b.pump(120, lambda: len(ended) == n and b.progress == n - 1): raise Bad("only %d jobs of %d were started after 120 s" % (len(ended), n))
        b.step = 1
        if what == "cancel":
            b.drop()
            if not b.pump(5, lambda: b.outcome): raise Bad("after %d jobs that end at once, cancelling takes more than 5 s" % n)
            if b.verdict() != "killed": raise Bad("the outcome is %s instead of killed" % b.verdict())
            b.end(True)
        elif what == "memory":
            b.memory(50)
            if not b.pump(5, lambda: b.outcome): raise Bad("after %d jobs that end at once, a lack of memory is not noticed for more than 5 s" % n)
            if b.verdict() != "memory": raise Bad("the outcome is %s instead of memory" % b.verdict())
            b.end()
        else:
            b.running()[0].order("exit 3")
            if not b.pump(5, lambda: b.outcome): raise Bad("after %d jobs that end at once, the failure of one is not noticed for more than 5 s" % n)
            if b.verdict() != "failed": raise Bad("the outcome is %s instead of failed" % b.verdict())
            b.end()
    except Bad as e:
        e.story = b.story(); raise
    finally: b.close()

def guarded(c, what, f, *a):
    c.count()
    try: f(*a)
    except Bad as e: c.violation(str(e), {"scenario": what, "story": e.story})

def run(c):
    m = build_harness("m"); shim = build_shim()
    for what in ("cancel", "fail"): guarded(c, "burst, then " + what, burst, m, shim, c.pick(250, 800), 4, what)
    behs = []
    kw = dict(Failures='{"status", "signal"}', CancelToo="TRUE")
    for n, w, e in c.pick([(1, 1, 9), (2, 1, 9), (3, 2, 3), (4, 3, 3)], [(1, 1, 9), (2, 1, 9), (3, 2, 9), (3, 3, 9), (4, 2, 9), (4, 3, 4), (5, 4, 3)]):
        behs += [x for x in behaviours(c, "%d jobs, %d workers, %d steps" % (n, w, e), NJobs=n, NWorkers=w, MaxEnv=e, **kw) if x["outcome"] != "success"]
    c.cov["exhaustive"] = True
    behs += behaviours(c, "many", sim=c.pick(60, 500), depth=300, NJobs=15, NWorkers=5, Plenty=5000, **kw)
    c.sample(behs[len(behs) // 2])
    replay_all(c, m, behs, talks=True, shim=shim, trees=True)
    # jobs left to themselves
    rng = c.rng("unattended")
    sc = []
    def add(n, w, **k):
        s = scenario(rng, n, w, rng.random() < .5, **k); sc.append(s); return s
    for kind in ("noprog", "nospawn", "nodir", "status", "signal"):
        for n, w, at in [(1, 1, 0), (3, 1, 1), (3, 2, 2), (8, 3, 4), (8, None, 0)] * c.pick(1, 6):
            s = add(n, w); s["kinds"][at] = kind
            if kind == "status": s["plan"][at][-1] = "exit %d" % rng.choice(STATUS)
            if kind == "signal": s["plan"][at][-1] = "signal %d" % rng.choice(SIGNALS)
            # the others are in no hurry
            for i in range(n):
                if i != at and rng.random() < .5: s["plan"][i] = ["nap %d" % rng.choice([1, 50, 300])] + s["plan"][i][-1:]
    # two things go wrong
    for _ in range(c.pick(10, 60)):
        n = rng.randint(2, 9); s = add(n, rng.randint(1, 4))
        for at in rng.sample(range(n), 2):
            s["kinds"][at] = rng.choice(["noprog", "nospawn", "nodir", "status"])
            if s["kinds"][at] == "status": s["plan"][at][-1] = "exit 7"
        if rng.random() < .5: s["cancel"] = 0; s["delay"] = rng.choice([0, .002, .01, .05])
    # cancelled at any moment: before the first job, between jobs, when a job has children, after the last one
    for n, w in [(1, 1), (4, 2), (12, 4), (40, 8)]:
        for after in (0, 1, 2, n // 2, n):
            for delay in c.pick([0, .02], [0, .001, .003, .01, .03, .1]):
                s = add(n, w, cancel=min(after, n), delay=delay, limit=20)
                for i in range(n):
                    r = rng.random()
                    if r < .3: s["plan"][i] = ["child j%d.c 1" % (i + 1), "nap 5"]      # goes on for ever
                    elif r < .5: s["plan"][i] = []
                    elif r < .6: s["plan"][i] = ["say 1 text 500000", "nap 2", "exit 0"]
                if after == n and n > w:     # all of them must get started
                    for i in range(n):
                        if s["plan"][i][-1:] != ["exit 0"]: s["plan"][i] = ["exit 0"]
                elif after > w:
                    for i in range(n):
                        if s["plan"][i][-1:] != ["exit 0"] and rng.random() < .9: s["plan"][i] = ["nap 1", "exit 0"]
                    k = [i for i in range(n) if s["plan"][i][-1:] != ["exit 0"]]
                    for i in k[max(0, w - 1):]: s["plan"][i] = ["exit 0"]
    # jobs with many processes, that all run or are just being started
    for n, deep in [(1, 1), (3, 2), (4, 4), (2, 9), (8, 3)] * c.pick(1, 6):
        for tree in (0, n, n * deep // 2 + 1, n * (deep + 1)):
            s = add(n, n, cancel=n, tree=tree, deep=deep, delay=rng.choice([0, 0, .001, .01]), limit=20)
            for i in range(n): s["plan"][i] = ["nap %d" % rng.choice([0, 0, 1, 5]), "child j%d.c 1" % (i + 1)]
            # or one of them fails
            s = add(n + 1, n + 1, deep=deep, limit=20)
            for i in range(n): s["plan"][i] = ["nap %d" % rng.choice([0, 0, 1, 5]), "child j%d.c 1" % (i + 1)]
            s["kinds"][n] = "status"; s["plan"][n] = ["nap %d" % rng.choice([0, 1, 5, 30]), "exit 3"]
    # profiles that cannot be written
    for target in ("missing/out.csv", "src", "/dev/full"):
        for n, w in ((1, 1), (5, 2)): add(n, w, target=target)
    c.cov["unattended"] = len(sc)
    validate(c, m, sc, shim=shim, n=8)
