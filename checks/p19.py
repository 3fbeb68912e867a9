"""P19: the recorded memory peaks and times are those of the jobs. Spec: JobTree."""
from vf.measure import *
from concurrent.futures import ThreadPoolExecutor

MB = 1 << 20

def rows_of(b):
    """What the profile says, by job."""
    return {r["file"][len("src/"):-len(".cpp")]: (int(r["max_rss"]), r["time"]) for r in csv.DictReader(open(b.csv, newline=""))}

def own(m, shim):
    """Memory that a job process takes when it does nothing."""
    b = Build(m, 1, 1, poll_ms=10, shim=shim)
    try:
        if not b.pump(30, lambda: b.running()): raise ToolError("the job of a measurement is not started")
        b.pump(1); b.running()[0].order("exit 0")
        if not b.pump(30, lambda: b.outcome): raise ToolError("a measurement does not end")
        b.end(); return rows_of(b)["j1"][0]
    finally: b.close()

def play(m, beh, k, base, hold, shim):
    timed = k % 4 != 0
    b = Build(m, beh["jobs"], beh["workers"], measure_time=timed, poll_ms=[10, 20, 5][k % 3], shim=shim)
    try:
        jobs = {}; procs = {}; t0 = time.monotonic(); bounds = {}
        began = {}; finishes = 0
        def meet():
            """Jobs are numbered in the order in which they start."""
            want = min(beh["jobs"], beh["workers"] + finishes)
            if not b.pump(30, lambda: len({b.job(c) for c in b.conns if "." not in b.job(c)}) >= want or b.outcome): raise Bad("only %d jobs of %d are started after 30 s" % (len(jobs), want))
            for c in b.conns:
                if "." not in b.job(c) and b.job(c) not in jobs.values():
                    j = len(jobs) + 1; jobs[j] = b.job(c); procs[j, 1] = c; began[j] = t0
        for i, st in enumerate(beh["hist"]):
            meet()
            b.pump(hold)
            b.step = i + 1; j, p, op = st["job"], st["proc"], st["op"]
            c = procs[j, p]
            b.note(time.monotonic(), op, job=jobs[j], proc=p, n=st["arg"])
            if op == "alloc": b.say(c, "alloc %d" % st["arg"])
            elif op in ("free", "thread"): b.say(c, op)
            elif op == "spawn":
                name = "%s.%d" % (jobs[j], st["arg"])
                b.say(c, "child " + name)
                if not b.pump(20, lambda: any(b.job(d) == name for d in b.conns)): raise ToolError("a process is not started")
                procs[j, st["arg"]] = next(d for d in b.conns if b.job(d) == name)
            elif op == "end":
                c.order("exit 0")
                if not b.pump(20, lambda: c.gone): raise ToolError("a process does not end")
            else:
                t = time.monotonic(); finishes += 1
                c.order("exit 0")
                if not b.pump(20, lambda: b.progress == finishes): raise Bad("job %s has ended, but is not reported done" % jobs[j])
                bounds[j] = (t - c.hello["t"], [e["t"] for e in b.log if e["ev"] == "progress"][-1] - began[j])
                t0 = t          # the next one has not started before
        if not b.pump(30, lambda: b.outcome): raise Bad("no outcome is ever reported")
        if b.verdict() != "success": raise Bad("the outcome is %s instead of success" % b.verdict())
        b.end(); b.check_csv()
        got = rows_of(b)
        for j, name in jobs.items():
            rss, t = got[name]
            lo = max(mem * MB + n * base * .6 for n, mem in beh["seen"][j - 1]); hi = max(mem * MB + n * (base * 1.5 + MB) for n, mem in beh["seen"][j - 1])
            if not lo <= rss <= hi: raise Bad("the memory peak of job %d is said to be %.1f MB, which is not between %.1f and %.1f MB" % (j, rss / MB, lo / MB, hi / MB))
            if timed:
                l, h = bounds[j]
                if not l - .005 <= float(t) <= h + .005: raise Bad("job %d is said to have taken %s s, which is not between %.3f and %.3f s" % (j, t, l, h))
        return b.story()
    except Bad as e:
        e.story = b.story(); raise
    finally: b.close()

def features(x):
    """What is remarkable in a behaviour."""
    res = set(); h = x["hist"]
    for a, b in zip(h, h[1:]): res.add((a["op"], b["op"], a["job"] == b["job"], a["proc"] == b["proc"]))
    for j, s in enumerate(x["seen"], 1):
        top = max(s, key=lambda m: m[1]); res.add(("peak", top[0], j == len(x["seen"])))
        ops = [e for e in h if e["job"] == j]; mem = {}; best = 0; at = 0; tops = []
        for i, e in enumerate(ops):
            mem.setdefault(e["proc"], [])
            if e["op"] == "alloc": mem[e["proc"]].append(e["arg"])
            elif e["op"] == "free": mem[e["proc"]].pop()
            elif e["op"] in ("end", "finish"): mem[e["proc"]] = []
            tot = sum(map(sum, mem.values()))
            if tot > best: best, at = tot, i; tops = sorted(p for p, v in mem.items() if v)
        res.add(("who", tuple(tops))); res.add(("then", tuple(e["op"] for e in ops[at + 1:at + 3])))
        if j > 1 and best < max((max(m[1] for m in t) for t in x["seen"][:j - 1]), default=0): res.add(("less than before", j))
    return res

def run(c):
    m = build_harness("m"); shim = build_shim()
    behs = []
    def go(name, keep, sim=None, depth=None, **kw):
        k = dict(NJobs=1, NWorkers=1, NProcs=3, Sizes="{60}", Cap=300, MaxSteps=4, Random="FALSE", Threads="FALSE"); k.update(kw)
        if sim: k["Random"] = "TRUE"
        r = tlc("JobTree", "SPECIFICATION Spec\nINVARIANTS TypeOK NotMoreThanWorkers CoversNow OthersDoNotCount\nPROPERTIES PeakGrows\nACTION_CONSTRAINT Emit\n" if not sim else
                "SPECIFICATION Spec\nINVARIANTS TypeOK NotMoreThanWorkers CoversNow OthersDoNotCount\nACTION_CONSTRAINT Emit\n", k, simulate=sim, depth=depth, seed=c.sub_seed(name), timeout=900)
        c.tlc_done(r, sim=sim is not None)
        lines = [x for x in r.lines if any(h["op"] == "alloc" for h in x["hist"])]
        c.rng(name).shuffle(lines)
        out = diverse(lines, features, keep); behs.extend(out)
        c.cov.setdefault("runs", {})[name] = "%d of %d replayed" % (len(out), len(lines))
    go("one job", c.pick(30, 300), MaxSteps=c.pick(5, 6))
    go("two jobs, one after the other", c.pick(20, 200), NJobs=2, NProcs=2, Sizes="{20, 90}", MaxSteps=c.pick(4, 5))
    go("two jobs at a time", c.pick(20, 200), NJobs=2, NWorkers=2, NProcs=2, Sizes="{20, 90}", MaxSteps=c.pick(4, 5))
    go("threads", c.pick(15, 150), NProcs=2, MaxSteps=c.pick(4, 5), Threads="TRUE")
    go("many", c.pick(40, 400), sim=c.pick(80, 800), depth=300, NJobs=4, NWorkers=2, NProcs=6, Sizes="{10, 25, 60, 150}", Cap=500, MaxSteps=18, Threads="TRUE")
    c.cov["exhaustive"] = False
    c.sample(behs[0]); c.sample(behs[-1])
    base = own(m, shim)
    c.cov["memory of an idle process"] = base
    failed = []
    def one(a):
        k, beh = a
        if len(failed) > 3: return None
        for hold in (.2, .6, 1.5):          # steps must last longer than it takes to look at the system
            try: play(m, beh, k, base, hold, shim); return None
            except Bad as e: last = e
        failed.append(k); return k, beh, last
    with ThreadPoolExecutor(10) as ex:
        for r in ex.map(one, enumerate(behs)):
            c.count()
            if r: c.violation(str(r[2]), {"behaviour": r[1], "variant": r[0], "story": r[2].story})
    c.assumptions += ["memory is allocated in steps of 10 MB and more, and each step lasts many times the polling interval"]
