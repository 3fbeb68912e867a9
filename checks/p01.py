"""P01: activity tree = time nesting. Spec: ActivityTree."""
from vf.core import *

CFG = """SPECIFICATION Spec
INVARIANTS ParentIsFirstEnclosing DescendantsAreNested NestedAreDescendants DescendantsContiguous
  RootsAreParentless ChildrenDisjoint SelfNonNegative KidsDurIsSum SelfSumsToTotal
  OrderErrorJustified OverlapErrorJustified AcceptedAreClean
ACTION_CONSTRAINT Emit
"""
EMIT_ONLY = """SPECIFICATION Spec
ACTION_CONSTRAINT Emit
"""
BIG = """SPECIFICATION Spec
INVARIANTS ParentIsFirstEnclosing EndsInOrder NoOverlap
ACTION_CONSTRAINT Emit
"""
INV_ONLY = CFG.replace("ACTION_CONSTRAINT Emit\n", "")

def trace_of(case, scale=1.0, offset=10.0):
    evs = []
    for k, (s, e) in enumerate(case["iv"]):
        evs.append({"ph": "X", "pid": 7, "tid": 7, "ts": offset + s * scale, "dur": (e - s) * scale,
                    "name": "RunPass", "args": {"detail": "N%d" % k}})
    evs.append({"ph": "M", "pid": 7, "tid": 7, "ts": 0, "cat": "", "name": "process_name", "args": {"name": "clang"}})
    return {"traceEvents": evs}

def judge(c, case, obs, scale=1.0, offset=10.0):
    """Compare one observation with the forest predicted by the specification."""
    def bad(what):
        if len(case["iv"]) > 100: return c.violation("%s in a trace of %d activities (%s)" % (what, len(case["iv"]), case["shape"]), {"shape": case["shape"], "n": case["n"]})
        c.violation("%s for intervals %s: %s" % (what, case["iv"], json.dumps(obs)[:300]), {"case": case, "obs": obs})
    if "panic" in obs or "crash" in obs: return bad("loading crashed")
    if case["err"]:
        want = {"order": "ActivityTreeError(UnexpectedActivityOrder", "overlap": "ActivityTreeError(PartialActivityOverlap"}[case["err"]]
        if "err" not in obs: return bad("accepted a trace to be rejected for " + case["err"])
        if not obs["err"].startswith(want): return bad("rejected for another reason than " + case["err"])
        return
    if "err" in obs: return bad("rejected a well-nested trace")
    acts = obs["ok"]["acts"]
    if obs["ok"]["num"] != len(case["iv"]) or len(acts) != len(case["iv"]): return bad("wrong number of activities")
    try:
        byid = {a["id"]: a for a in acts}
        label = {a["id"]: int(a["detail"][1:]) + 1 for a in acts}
        if sorted(label.values()) != list(range(1, len(acts) + 1)): return bad("activities missing or repeated")
        n = len(acts)
        desc = {j: set() for j in range(1, n + 1)}
        for i in range(1, n + 1):
            p = case["par"][i - 1]
            while p: desc[p].add(i); p = case["par"][p - 1]
        below = {}
        for k in range(1, n + 1): below.setdefault(case["par"][k - 1], []).append(k)
        for a in acts:
            i = label[a["id"]]
            s, e = case["iv"][i - 1]
            if (a["start"], a["dur"], a["end"]) != (offset + s * scale, (e - s) * scale, offset + e * scale): return bad("wrong times of activity %d" % i)
            if a["again"] != a["start"]: return bad("lookup by identifier gives another activity than %d" % i)
            if (label[a["parent"]] if a["parent"] is not None else 0) != case["par"][i - 1]: return bad("wrong parent of activity %d" % i)
            kids = [label[k] for k in a["children"]]
            if sorted(kids) != below.get(i, []): return bad("wrong children of activity %d" % i)
            al = [label[k] for k in a["all"]]
            if sorted(al) != sorted(desc[i]): return bad("wrong descendants of activity %d" % i)
            if a["self"] != case["self"][i - 1] * scale: return bad("wrong self duration of activity %d" % i)
        if sorted(label[r] for r in obs["ok"]["roots"]) != sorted(case["roots"]): return bad("wrong roots")
    except KeyError as k:
        return bad("dangling activity identifier %s" % k)

def run(c):
    h = build_harness()
    # 1. Exhaustive: every sequence of insertions over a small time line
    n, t = c.pick((4, 4), (5, 4))
    r = tlc("ActivityTree", INV_ONLY, {"MaxT": t, "MaxN": n, "ErrLast": "FALSE", "EmitFrom": 1, "MaxStep": t}, emit=False, workers=WORKERS, timeout=1800)
    c.tlc_done(r)
    c.cov["exhaustive"] = True
    r = tlc("ActivityTree", EMIT_ONLY, {"MaxT": t, "MaxN": n, "ErrLast": "FALSE", "EmitFrom": 1, "MaxStep": t}, timeout=1800)
    cases = r.lines
    # 2. Simulation: long random traces
    num = c.pick(150, 1500)
    r = tlc("ActivityTree", CFG, {"MaxT": 30, "MaxN": 24, "ErrLast": "TRUE", "EmitFrom": 24, "MaxStep": 3},
            simulate=num, depth=26, seed=c.sub_seed("sim"), timeout=1500)
    c.tlc_done(r, sim=True)
    sims = r.lines
    c.add("exhaustive_traces", len(cases)); c.add("simulated_traces", len(sims))
    for batch, scale, off in ((cases, 1.0, 10.0), (sims, 0.5, 2.0), (sims, 1024.0, 1e6), (cases, 2.0 ** -11, 50.0), (sims, 2.0 ** -9, 2.0 ** 21), (sims, 2.0 ** 27, 2.0 ** 30)):
        obs = Harness([h, "load"]).batch({"trace": trace_of(x, scale, off)} for x in batch)
        for x, o in zip(batch, obs):
            judge(c, x, o, scale, off)
            c.count()
    # 3. Traces of regular shapes with many activities
    for shapes, sizes in (('"chain", "fan", "roots", "comb", "groups", "same", "instants"', c.pick("{130, 258, 1030}", "{66, 130, 258, 514, 1030, 2050}")), ('"fan", "roots", "groups", "instants"', c.pick("{66000}", "{5000, 33000, 66000, 140000}"))):
        r = tlc("BigTrees", BIG, {"Shapes": "{" + shapes + "}", "Sizes": sizes}, timeout=600)
        c.tlc_done(r)
        big = [x for x in r.lines if x["n"] > 40 or "chain" in shapes]
        for x in big:
            kids = [0] * (x["n"] + 1)
            for p, (s, e) in zip(x["par"], x["iv"]): kids[p] += e - s
            x.update({"err": "", "self": [e - s - k for (s, e), k in zip(x["iv"], kids[1:])], "roots": [i + 1 for i, p in enumerate(x["par"]) if p == 0]})
        for x in big:
            for o in Harness([h, "load"], timeout=100).batch([{"trace": trace_of(x, 1.0, 2.0 ** 20)}]): judge(c, x, o, 1.0, 2.0 ** 20)
            c.count()
        c.add("big_traces", len(big))
    for x in cases[:1] + cases[len(cases) // 2:][:2] + sims[:2]: c.sample(x)
    c.assumptions += ["intervals use integer multiples of a power-of-two microsecond step, so that sums of durations are exact"]
