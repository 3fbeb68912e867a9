"""P03: kinds and arguments of activities. Spec: ActivityArgs."""
from vf.core import *

INVS = "INVARIANTS OwnArgument EqualIffSame RejectIffBad\n"
BASE = "SPECIFICATION Spec\nACTION_CONSTRAINT Emit\nCONSTRAINT Canonical\n"
S = lambda xs: "{" + ", ".join('"%s"' % x for x in xs) + "}"
REPS = ["Backend", "RunPass", "Source", "OptModule", "ParseClass", "InstantiateFunction", "OptFunction", "InlinerPass",
        "LoopRotatePass", "LICMPass", "Zorglub", "Total Source"]

def tr(s): return s.replace("~e", "\u00e9").replace("~E", "\u00c9").replace("~L", "a/" * 300 + "b.hpp").replace("~N", ", ".join(["int"] * 1100))

def args_of(e):
    return {"none": None, "empty": {}, "number": {"detail": 3}, "null": {"detail": None}, "extra": {"detail": "main", "more": 1},
            "other": {"more": "main"}, "detail": {"detail": tr(e["text"])}}[e["shape"]]

def trace(evs):
    out = []
    for i, e in enumerate(evs):
        o = {"ph": "X", "pid": 7, "tid": 7, "ts": 100.0 * (i + 1), "dur": 50, "name": e["name"]}
        a = args_of(e)
        if a is not None: o["args"] = a
        out.append(o)
    out.append({"ph": "M", "pid": 7, "tid": 7, "ts": 0, "cat": "", "name": "process_name", "args": {"name": "clang"}})
    return {"traceEvents": out}

def judge(c, x, o):
    def bad(w): c.violation("%s: %s decoded in order %s -> %s" % (w, json.dumps([(e["name"], args_of(e)) for e in x["evs"]], ensure_ascii=False),
                            x["order"], json.dumps(o, ensure_ascii=False)[:300]), {"case": x, "obs": o, "trace": trace(x["evs"])})
    if "panic" in o or "crash" in o: return bad("crash")
    if x["phase"] == "rejected":
        if "err" not in o: return bad("accepted a bad argument")
        e = x["evs"][-1]
        if not any("BadArguments(BadArguments(%s, %s(" % (e["kind"], f) in o["err"] for f in x["faults"]):
            return bad("wrong rejection, expected %s" % x["faults"])
        return
    if "err" in o: return bad("rejected a good trace")
    ok = o["ok"]
    for e, a in zip(x["evs"], ok["acts"]):
        if a[0] != e["name"] or a[1] != e["kind"]: return bad("wrong kind of activity, expected %s" % e["kind"])
        if a[2] != e["ty"]: return bad("argument taken for %s instead of %s" % (a[2], e["ty"]))
        if a[3] != (tr(e["text"]) if e["shape"] == "detail" else None): return bad("wrong raw argument")
    for k, (v, t) in enumerate(x["res"]):
        for when in ("now", "later"):
            g = ok[when][k]
            if isinstance(g, dict): return bad("crash while decoding")
            if g[0] != v: return bad("decoded as %s instead of %s (%s)" % (g[0], v, when))
            if v == "Error":
                if not g[1].startswith(t): return bad("wrong decoding error")
            elif (g[1] or "") != tr(t): return bad("decoded to %r instead of %r (%s)" % (g[1], tr(t), when))
    # equality of decoded arguments (indices among all decodes, errors excluded)
    good = [k for k, (v, t) in enumerate(x["res"]) if v != "Error"]
    exp = sorted([a - 1, b - 1] for a, b in x["eq"])
    # the harness numbers pairs by position among all decodes
    if sorted(ok["eq"]) != exp: return bad("equality of decoded arguments: expected %s" % exp)

def real_names():
    """Arguments of the reference trace of the repository, by activity name."""
    p = REPO + "/tests/7-GMSTests_main.json"
    if not os.path.exists(p): return []
    evs = json.load(open(p))["traceEvents"]
    return [e for e in evs if e["ph"] == "X" and e["ts"] > 1]

def run(c):
    h = build_harness()
    cases = []
    def tl(n, names, details, ev, dec, exact, simulate=None, depth=None, invs=True):
        r = tlc("ActivityArgs", BASE + (INVS if invs else ""), {"Names": S(names), "Details": S(details), "MaxEv": ev, "MaxDec": dec, "ExactDec": "TRUE" if exact else "FALSE"},
                simulate=simulate, depth=depth, seed=c.sub_seed(n), timeout=1500)
        c.tlc_done(r, sim=simulate is not None)
        cases.extend(r.lines); c.cov.setdefault("runs", {})[n] = len(r.lines)
    # every known activity with every argument
    tl("single", [], [], 1, 2, False)
    # pairs that share interners and buffer, decoded in both orders
    tl("pairs", ["Source", "ParseClass", "OptFunction", "InlinerPass", "Zorglub"], c.pick(["p1", "p1b", "e1", "e1b", "e3", "m1", "m2", "m4", "m6", "s2", "e7"],
       ["p1", "p1b", "p2", "e1", "e1b", "e2", "e3", "e4", "m1", "m1b", "m2", "m3", "m4", "m6", "m7", "m8", "s1", "s2", "e7", "e9", "rel"]), 2, 2, True)
    if c.thorough:
        tl("triples", ["Source", "ParseClass", "OptFunction"], ["p1", "p1b", "e1", "e3", "m1", "m4", "m6", "e7"], 3, 3, True)
    c.cov["exhaustive"] = True
    # histories
    tl("sim", REPS, ["p1", "p1b", "p2", "p4", "p5", "mod", "rel", "e1", "e1b", "e2", "e3", "e4", "e7", "e8", "e9", "e10", "m1", "m1b", "m2", "m3", "m4", "m5", "m6", "m7", "m8", "s1", "s1b", "s2", "l1", "t1", "t2", "t3"],
       8, 14, False, simulate=c.pick(3000, 40000), depth=8 + 14 + 2)
    obs = Harness([h, "args"]).batch({"trace": trace(x["evs"]), "order": [k - 1 for k in x["order"]]} for x in cases)
    for x, o in zip(cases, obs): judge(c, x, o); c.count()
    for x in cases[:1] + cases[-2:]: c.sample(x)
    # the reference trace: an argument decodes the same in the whole trace, in any order, as alone (OwnArgument)
    evs = real_names()
    if evs:
        rng = c.rng("real")
        names = {}
        for e in evs:
            k = (e["name"], json.dumps(e.get("args")))
            names.setdefault(k, e)
        pool = list(names.values()); rng.shuffle(pool)
        pool = pool[:c.pick(2500, 10000)]
        alone = []
        for e in pool:
            alone.append({"trace": {"traceEvents": [dict(e, ts=100, dur=5), dict(ph="M", pid=e["pid"], tid=e["pid"], ts=0, cat="", name="process_name", args={"name": "c"})]}, "order": [0]})
        single = Harness([h, "args"]).batch(alone)
        for rep in range(2):
            seq = [dict(e, ts=100 + 10 * i, dur=5) for i, e in enumerate(pool)]
            order = list(range(len(seq))); rng.shuffle(order)
            if rep: order = order[: len(order) // 2] * 2
            whole = Harness([h, "args"], timeout=300).batch([{"trace": {"traceEvents": seq + [dict(ph="M", pid=pool[0]["pid"], tid=pool[0]["pid"], ts=0, cat="", name="process_name", args={"name": "c"})]}, "order": order}])[0]
            if "ok" not in whole:
                c.violation("reference activities rejected together: %s" % json.dumps(whole)[:300], {"order": order}); continue
            for when in ("now", "later"):
                for k, i in enumerate(order):
                    s = single[i]
                    if "ok" not in s: c.violation("reference activity rejected: %s" % json.dumps(pool[i])[:300], pool[i]); continue
                    if s["ok"]["now"][0] != whole["ok"][when][k]:
                        c.violation("argument of %s decodes differently in a session (%s): %s instead of %s" % (pool[i]["name"], when, json.dumps(whole["ok"][when][k])[:200], json.dumps(s["ok"]["now"][0])[:200]),
                                    {"event": pool[i], "order": order[:k + 1]})
            c.count(len(order))
