"""P08: memory pressure stops the youngest job, which is then always run again. Spec: BuildMeasure."""
from checks.p09 import *

def features(b):
    """What is remarkable in a behaviour: the situations in which memory changes, and what comes of it."""
    res = {("end", b["outcome"], b["starts"], len(b["hist"]))}
    h = b["hist"]
    for i, st in enumerate(h):
        if st["op"] != "memory": continue
        was = {x[0]: x[1] for x in st["before"]["running"]}
        left = b["jobs"] - st["before"]["rows"]
        if i + 1 < len(h):
            now = {x[0]: x[1] for x in h[i + 1]["before"]["running"]}
            gone = len(set(was) - set(now)); new = set(now) - set(was)
            res.add(("memory", left, len(was), gone, len(new), len(set(now[x] for x in new) & set(was.values()))))
            res.add(("level", st["arg"], len(was), gone))
        else: res.add(("memory", left, len(was), b["outcome"]))
    return res

def shortage(m, shim, n, w):
    """Memory runs out for good: every job is stopped, then the build fails."""
    b = Build(m, n, w, shim=shim, memory=(w + 1) * 150, poll_ms=1500)          # all jobs have the same age
    try:
        want = min(n, w)
        if not b.pump(60, lambda: len(b.running()) == want): raise Bad("only %d jobs of %d are running after 60 s" % (len(b.running()), want))
        b.pump(.5)
        if len(b.running()) != want: raise Bad("jobs are stopped while memory is plentiful")
        b.step = 1
        b.memory(50)
        if not b.pump(30, lambda: b.outcome): raise Bad("no outcome 30 s after memory ran out, while %d jobs of %d are running" % (len(b.running()), want))
        if b.verdict() != "memory": raise Bad("the outcome is %s instead of memory" % b.verdict())
        b.end()
    except Bad as e:
        e.story = b.story(); raise
    finally: b.close()

def run(c):
    m = build_harness("m"); shim = build_shim()
    guarded(c, "burst, then memory runs out", burst, m, shim, c.pick(250, 800), 4, "memory")
    for n, w in c.pick([(3, 3), (66, 64), (70, 70)], [(3, 3), (40, 63), (66, 64), (80, 65), (130, 128), (129, 129)]):
        guarded(c, "shortage with %d jobs and %d workers" % (n, w), shortage, m, shim, n, w)
    liveness(c)
    behs = []
    def go(name, keep, **kw):
        lines = [b for b in behaviours(c, name, **kw) if any(s["op"] == "memory" for s in b["hist"])]
        c.rng(name).shuffle(lines)
        out = diverse(lines, features, keep)
        c.cov["runs"][name] = "%d of %d replayed" % (len(out), len(lines))
        behs.extend(out)
    L = "{1000, 730, 480, 320, 250, 150, 90}"
    go("one worker", c.pick(30, 200), NJobs=2, NWorkers=1, Levels=L, MaxEnv=c.pick(5, 6))
    go("two workers", c.pick(150, 2000), NJobs=3, NWorkers=2, Levels=L, MaxEnv=c.pick(5, 6))
    # few levels, further: the last jobs, with workers that have nothing left to do
    go("the last jobs", c.pick(60, 600), NJobs=3, NWorkers=2, Plenty=480, Levels="{480, 320, 250, 150}", MaxEnv=c.pick(6, 7))
    go("failures too", c.pick(60, 500), NJobs=3, NWorkers=2, Levels="{1000, 480, 250, 150}", MaxEnv=4, Failures='{"status"}', CancelToo="TRUE")
    go("three workers", c.pick(60, 1000), NJobs=4, NWorkers=3, Levels="{1000, 730, 480, 350, 250, 150}", MaxEnv=c.pick(4, 5))
    go("many workers", c.pick(60, 600), sim=c.pick(120, 1200), depth=400, NJobs=9, NWorkers=5, Plenty=5000, Levels="{5000, 3333, 2222, 730, 620, 520, 480, 420, 350, 320, 250, 150, 90}", MaxEnv=14)
    c.cov["exhaustive"] = False
    c.sample(behs[len(behs) // 2]); c.sample(behs[-1])
    replay_all(c, m, behs, n=16, step_time=.3, shim=shim, tries=3, trees=True)
