"""P11: freshness of profiles and compiler outputs. Specs: Freshness, (questions) BuildSession."""
from vf.core import *
from checks.p12 import graph, histories, S, AGES

def freshness(c):
    hb = build_harness()
    r = tlc("Freshness", "SPECIFICATION Spec\nVIEW View\nINVARIANTS NeverFreshWhenOlder ProfileIsWorstOutput\nPROPERTIES RebuildCures\nACTION_CONSTRAINT EmitAny\n",
            {"Inputs": c.pick('{"in1", "in2"}', '{"in1", "in2", "in3"}'), "Times": c.pick("{0, 1, 2, 3}", "{0, 1, 2}"), "MaxOps": c.pick(40, 40)}, timeout=1500)
    c.tlc_done(r); c.cov["exhaustive"] = True
    states = {json.dumps(x[0]["m"], sort_keys=True): x[0] for x in r.lines}
    c.cov["file_states"] = len(states)
    root = scratch("fresh")
    H = 3600 * 10**9
    # where in time, what a step of the clock is, what kind of files
    STYLES = [(-2 * H, 1, "file"), (-90 * 10**9, 10**9, "link"), (-30 * 10**9, 10**6, "file"), (-24 * 365 * H, 24 * H, "dir"), (2 * H, 10**3, "file"), (-2 * H, 10**9 - 1, "deep")]
    cases = []
    for s, (base, step, kind) in enumerate(STYLES):
        now = time.time_ns()
        for n, x in enumerate(states.values()):
            d = os.path.join(root, "%d_%d" % (s, n)); os.mkdir(d)
            name = {"product": "cmakeperf.csv", "db": "compile_commands.json"}
            for f in x["m"]:
                if f not in name: name[f] = ("src/%s.cpp" % f) if kind == "deep" else d + "/%s.cpp" % f if n % 2 else f + ".cpp"
            if kind == "deep": os.mkdir(d + "/src")
            times = {}
            for f, t in x["m"].items():
                p = os.path.join(d, name[f])
                real = p
                if kind == "link" and f != "db":
                    real = p + ".real"; os.symlink(os.path.basename(real), p)
                    if t >= 0: os.utime(p, ns=(0, 0), follow_symlinks=False)
                if t < 0: continue
                if kind == "dir" and f == "product": os.mkdir(real)
                else: open(real, "w").close()
                times[f] = base + now + t * step
                os.utime(real, ns=(times[f], times[f]))
                if os.stat(p).st_mtime_ns != times[f]: raise ToolError("the file system does not keep times")
            ins = sorted(f for f in x["m"] if f not in ("product", "db"))
            order = ins if n % 3 else ins[::-1]
            cases.append((x, order, times, {"dir": d, "inputs": [name[f] for f in order], "profile": name["product"], "derived": d + "/" + name["product"]}))
    t0 = time.time()
    obs = Harness([hb, "fresh"], timeout=120).batch(k for _, _, _, k in cases)
    t1 = time.time()
    for (x, order, times, k), o in zip(cases, obs):
        c.count()
        def bad(w): c.violation("%s, files %s" % (w, json.dumps(x["m"])), {"case": k, "times": times, "expected": x, "obs": o})
        if "profile" not in o: bad("crash: %s" % json.dumps(o)[:200]); continue
        for what, exp, got in [("the profile", x["a"]["profile"], o["profile"])] + [("the output of %s" % f, x["a"]["derived"][f], g) for f, g in zip(order, o["derived"])]:
            if exp == "Unknown":
                # not to be taken for up to date, nor for missing
                if got[0] not in ("Error", "Outdated"): bad("%s is reported as %s although something it depends on is missing" % (what, got))
            elif got[0] != exp: bad("%s is reported as %s instead of %s" % (what, got, exp))
            elif exp != "Error" and got[1] != (exp != "Nonexistent"): bad("%s exists: %s" % (what, got[1]))
            elif exp == "MaybeOutdated":
                mt = times["product"] / 1e9
                if mt > t1 + 60: 
                    if got[2] is not None: bad("%s from the future has age %s" % (what, got[2]))
                elif mt < t0 - 5 and (got[2] is None or not t0 - mt - 2 <= got[2] <= t1 - mt + 2): bad("%s of %s s is said to be %s s old" % (what, t0 - mt, got[2]))
    c.sample({k: v for k, v in list(states.items())[-1:]})

def questions(c):
    """When and how one is asked whether to measure again."""
    b = build_bin("crofiler")
    ALL = AGES[:-1] + ', "none"}'
    graph(c, b, "build profiles", Profs=ALL, Manual="{TRUE, FALSE}", Setups=S("fine", "nosource"), TraceStates=S("m5"), TableKeys=S("esc"), Keys=S("enter", "right"), Env=S("!start"), NUnits=1)
    graph(c, b, "time-traces", TraceStates=ALL, NUnits=c.pick(1, 2), TableKeys=S("enter", "down"), TraceKeys=S("esc"), Keys=S("enter", "right", "esc", "down"), Env=S("!touch", "!trace ok"))
    histories(c, b, "sessions", c.pick(30, 300), 30, NUnits=4, Profs=ALL, TraceStates=ALL, Kinds=S("plain", "gone", "nooutput", "unlisted"), Manual="{TRUE, FALSE}", TableKeys=S("enter", "down", "up", "end"), TraceKeys=S("esc"),
              Keys=S("enter", "esc", "left", "right", "q", "down", "up", "end"), Env=S("!touch", "!trace ok", "!start"))

def run(c):
    freshness(c)
    questions(c)
