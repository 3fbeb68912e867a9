"""P02: trace loading. Spec: TraceLoad."""
from vf.core import *

INVS = "INVARIANTS OkMeansWellFormed FaultIsLast PidIsShared\n"
SPEC = "SPECIFICATION Spec\n"
EMIT = "ACTION_CONSTRAINT Emit\n"

def concrete(case):
    """Map the abstract events to JSON, the way clang writes them."""
    evs = []
    last = None   # start/end of last activity
    for k, e in enumerate(case["evs"]):
        c, bad, pid = e["c"], e["bad"], e["pid"]
        if c in ("act", "early"):
            ts, dur = 100.0 * (k + 1), 50.0
            if c == "early": ts, dur = 1.0625, 0.125
            if last:
                if bad == "order": ts, dur = last[0] + 1, last[1] - last[0] - 2
                if c == "early": ts, dur = 1.0625, 0.03125
                if bad == "overlap": ts, dur = (last[0] + last[1]) / 2, 100.0
            o = {"ph": "X", "pid": pid, "tid": pid, "ts": ts, "dur": dur, "name": "Frontend"}
            if bad == "oldtid": o["tid"] = 0
            if bad == "tid": o["tid"] = pid + 1
            if bad == "noname": del o["name"]
            if bad == "cat": o["cat"] = "x"
            if bad == "tts": o["tts"] = 3
            if bad == "tdur": o["tdur"] = 3
            if bad == "args": o["args"] = {"detail": "superfluous"}
            if bad == "sf": o["sf"] = 1
            if bad == "esf": o["esf"] = 1
            last = (ts, ts + dur)
        elif c == "glob":
            o = {"ph": "X", "pid": pid, "tid": pid + 1 + k, "ts": 0, "dur": 5.0 + k, "name": "Total " + e["v"],
                 "args": {"count": 3 + k, "avg ms": 2}}
            if bad == "tid0": o["tid"] = 0
            if bad == "ts": o["ts"] = 0.5
            if bad == "ts1": o["ts"] = 1.0
            if bad == "noargs": del o["args"]
            if bad == "nocount": del o["args"]["count"]
            if bad == "noavg": del o["args"]["avg ms"]
            if bad == "countty": o["args"]["count"] = "3"
            if bad == "avgty": o["args"]["avg ms"] = "2"
            if bad == "extra": o["args"]["more"] = 1
            if bad == "prefix": o["name"] = "Sum " + e["v"]
            if bad == "cat": o["cat"] = "x"
            if bad == "noname": del o["name"]
            if bad == "tdur": o["tdur"] = 1
        elif c in ("proc", "thr"):
            o = {"ph": "M", "pid": pid, "tid": pid, "ts": 0, "cat": "", "name": "process_name" if c == "proc" else "thread_name",
                 "args": {"name": e["v"]}}
            if bad == "oldtid": o["tid"] = 0
            if bad == "tid": o["tid"] = pid + 1
            if bad == "notid": del o["tid"]
            if bad == "nopid": del o["pid"]; o["tid"] = 7
            if bad == "cat": o["cat"] = "x"
            if bad == "nocat": del o["cat"]
            if bad == "ts": o["ts"] = 1
            if bad == "nots": del o["ts"]
            if bad == "tts": o["tts"] = 1
            if bad == "extra": o["args"]["more"] = 1
        elif c == "meta":
            o = {"ph": "M", "pid": pid, "tid": pid, "ts": 0, "cat": ""}
            if bad == "labels": o.update(name="process_labels", args={"labels": "a,b"})
            if bad == "psort": o.update(name="process_sort_index", args={"sort_order": 1})
            if bad == "tsort": o.update(name="thread_sort_index", args={"sort_order": 1})
        else:
            o = {"ph": bad, "pid": pid, "tid": pid, "ts": 1, "name": "x"}
        evs.append(o)
    t = {"traceEvents": evs}
    t.update({"": {}, "num": {"beginningOfTime": 1656504000000000.5}, "int": {"beginningOfTime": 1656504000000000}, "zero": {"beginningOfTime": 0},
              "str": {"beginningOfTime": "12"}, "null": {"beginningOfTime": None}, "list": {"beginningOfTime": [1]}}[case["bot"]])
    t.update({"": {}, "ms": {"displayTimeUnit": "ms"}, "extra": {"somethingElse": 1}, "ns": {"displayTimeUnit": "ns"}, "sys": {"systemTraceEvents": "# tracer:"},
              "power": {"powerTraceAsString": ""}, "frames": {"stackFrames": {}}, "samples": {"samples": []}, "ctl": {"controllerTraceDataKey": "traceEvents"}}[case["meta"]])
    ctf = case["ctf"]
    if ctf == "noevents": del t["traceEvents"]
    if ctf == "phase": evs.append({"ph": "?", "pid": 7, "tid": 7, "ts": 1})
    if ctf == "nophase": evs.append({"pid": 7, "tid": 7, "ts": 1, "dur": 1, "name": "Frontend"})
    if ctf == "nopid": evs.append({"ph": "X", "tid": 7, "ts": 500.0, "dur": 1, "name": "Frontend"})
    if ctf == "nodur": evs.append({"ph": "X", "pid": 7, "tid": 7, "ts": 500.0, "name": "Frontend"})
    if ctf == "tsty": evs.append({"ph": "X", "pid": 7, "tid": 7, "ts": "500", "dur": 1, "name": "Frontend"})
    if ctf == "unit": t["displayTimeUnit"] = "weeks"
    if ctf == "array": return json.dumps(evs)
    if ctf == "trunc": return json.dumps(t)[:-1]
    if ctf == "text": return "not json"
    if ctf == "empty": return ""
    return json.dumps(t)

BOT = {"": None, "num": 1656504000000000.5, "int": 1656504000000000.0, "zero": 0.0}

def judge(c, case, text, obs):
    def bad(what):
        c.violation("%s: trace %s -> %s" % (what, text[:400], json.dumps(obs)[:300]), {"case": case, "trace": text, "obs": obs})
    if "panic" in obs or "crash" in obs: return bad("loading crashed instead of returning")
    if case["verdict"] != "ok":
        if "err" not in obs: return bad("accepted, expected " + case["verdict"])
        if not obs["err"].startswith(case["verdict"]): return bad("wrong fault reported, expected " + case["verdict"])
        return
    if "err" in obs: return bad("rejected a well-formed trace")
    ok = obs["ok"]
    if ok["process_name"] != case["pname"]: return bad("wrong process name")
    if (ok["thread_name"] or "") != case["tname"]: return bad("wrong thread name")
    if ok["pid"] != (case["pid"] if case["pid"] > 1 else None): return bad("wrong process id")
    if ok["bot"] != BOT[case["bot"]]: return bad("wrong beginning of time")
    if ok["stats"] != {n: [5.0 + i - 1, 3 + i - 1] for n, i in case["stats"]}: return bad("wrong global statistics")
    if ok["num"] != len(case["acts"]): return bad("wrong number of activities")

def run(c):
    h = build_harness()
    S = lambda xs: "{" + ", ".join('"%s"' % x for x in xs) + "}"
    none = S([""])
    allmeta = S(["", "ms", "extra", "ns", "sys", "power", "frames", "samples", "ctl"])
    allbot = S(["", "num", "int", "zero", "str", "null", "list"])
    allctf = S(["", "noevents", "phase", "nophase", "nopid", "nodur", "tsty", "unit", "array", "trunc", "text", "empty"])
    base = {"MaxN": 3, "EmitMin": 0, "Metas": none, "Bots": none, "Ctfs": none, "GoodFirst": "FALSE"}
    cases = []
    # every sequence of up to 2 (thorough: 3) events, invariants checked on all of them
    r = tlc("TraceLoad", SPEC + INVS, dict(base, MaxN=c.pick(3, 4)), workers=WORKERS, timeout=1800); c.tlc_done(r)
    r = tlc("TraceLoad", SPEC + EMIT, dict(base, MaxN=c.pick(2, 3))); cases += r.lines
    # 3 (4) events where only the last may be faulty
    r = tlc("TraceLoad", SPEC + EMIT, dict(base, MaxN=c.pick(3, 4), EmitMin=c.pick(3, 4), GoodFirst="TRUE"), timeout=1800); cases += r.lines
    # every combination of file-level variants with up to 1 event
    r = tlc("TraceLoad", SPEC + INVS + EMIT, dict(base, MaxN=1, Metas=allmeta, Bots=allbot, Ctfs=allctf)); c.tlc_done(r)
    cases += r.lines
    c.cov["exhaustive"] = True
    # long traces
    r = tlc("TraceLoad", SPEC + INVS + EMIT, dict(base, MaxN=12, EmitMin=4, GoodFirst="TRUE", Bots=allbot), simulate=c.pick(600, 10000), depth=14, seed=c.sub_seed("sim"), timeout=1500)
    c.tlc_done(r, sim=True); cases += r.lines
    texts = [concrete(x) for x in cases]
    obs = Harness([h, "load"]).batch({"trace": t, "light": True} for t in texts)
    kinds = {}
    for x, t, o in zip(cases, texts, obs):
        judge(c, x, t, o); c.count()
        kinds[x["verdict"]] = kinds.get(x["verdict"], 0) + 1
    c.cov["verdicts"] = kinds
    # the same through files, on a few
    d = scratch("p02")
    sub = [i for i in range(0, len(cases), max(1, len(cases) // 400))]
    obs = Harness([h, "load"]).batch({"trace": texts[i], "light": True, "via_file": d + "/t.json"} for i in sub)
    for i, o in zip(sub, obs): judge(c, cases[i], texts[i], o); c.count()
    for x in cases[:1] + cases[-2:]: c.sample(x)
    # bytes that are not text
    open(d + "/bin.json", "wb").write(b"\xff\xfe{}")
