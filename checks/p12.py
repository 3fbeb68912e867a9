"""P12: measuring again. Spec: BuildSession."""
from vf.core import *
from vf.session import *

S = lambda *a: "{" + ", ".join('"%s"' % x if isinstance(x, str) else str(x) for x in a) + "}"
CFG = ("SPECIFICATION BSpec\nVIEW bview\nINVARIANTS ProfileInTable TraceIsOfUnit OneStackB SelectedIsListedB EmitBScreen\n"
       "PROPERTIES OnlyMeasuringChangesFiles NothingUnasked BackToSameRow\nACTION_CONSTRAINT EmitBRun\n")
SIM = CFG.replace("VIEW bview\n", "").replace("PROPERTIES OnlyMeasuringChangesFiles NothingUnasked BackToSameRow\n", "")
ENV = S("!build ok", "!build fail", "!build one", "!trace fail", "!trace part", "!trace ok", "!trace none", "!start", "!touch")
AGES = S("fresh", "m5", "m59", "h1", "h23", "d1", "d2", "d30", "future", "stale")
def consts(**kw):
    d = {"Parents": "{1}", "NActs": 2, "Unit": 1000, "Widths": "{80}", "Keys": S("enter", "esc", "left", "right", "down"), "MaxDepth": 2, "MaxKeys": 0, "Random": "FALSE", "NUnits": 2, "NTraces": 1,
         "Setups": S("fine"), "Profs": S("fresh"), "TraceStates": S("none", "m5"), "Kinds": S("plain"), "Timed": "FALSE", "Manual": "{FALSE}", "Env": ENV}
    d.update(kw); d.setdefault("TableKeys", d["Keys"]); d.setdefault("TraceKeys", d["Keys"])
    return d
def graph(c, binary, name, budget=None, limit=60, **kw):
    r = tlc("BuildSession", CFG, consts(**kw), timeout=800, heap="8g"); c.tlc_done(r)
    g = SessionGraph(r.lines)
    run_session_tours(c, binary, name, g, c.rng(name), budget, limit)
    return g
def histories(c, binary, name, n, length, rows=50, **kw):
    d = dict(Random="TRUE", Parents="{}", MaxKeys=length, NActs=5, NTraces=3, MaxDepth=4, Widths="{60, 80, 120}")
    d.update(kw)
    r = tlc("BuildSession", SIM, consts(**d), simulate=n, depth=4 * length, seed=c.sub_seed(name), timeout=800); c.tlc_done(r, sim=True)
    run_histories(c, binary, name, r.lines, rows=rows)
    c.cov.setdefault("runs", {})[name] = "%d of %d simulated" % (len(r.lines), n)
    return r.lines

def run(c):
    b = build_bin("crofiler")
    graph(c, b, "build", Profs=S("none", "m5", "stale"), TraceStates=S("m5"), TableKeys=S("esc"), TraceKeys=S("esc"), Manual="{TRUE, FALSE}", Keys=S("enter", "esc", "left", "right", "q"))
    graph(c, b, "trace", NUnits=1, TraceStates=S("none", "m5", "stale"), TableKeys=S("enter"), TraceKeys=S("esc", "q"), Keys=S("enter", "esc", "left", "right", "q"))
    graph(c, b, "nothing", c.pick(400, 5000), NUnits=0, NTraces=0, Timed="TRUE", Profs=S("none", "m5", "fresh"), Manual="{FALSE}", Env=S("!start"), Keys=S("enter", "left", "right", "q", "down", "up", "h"), TableKeys=S("enter", "left", "right", "down", "up", "h", "q"))
    graph(c, b, "unlisted", c.pick(150, 5000), TraceStates=S("m5"), NUnits=2, NTraces=0, Kinds=S("unlisted"), Profs=S("none", "m5"), Env=S("!start"), Keys=S("enter", "right", "q", "down"))
    runs = histories(c, b, "histories", c.pick(120, 600), c.pick(40, 80), NUnits=3, Profs=S("none", "fresh", "stale", "m5"), TraceStates=S("none", "m5", "stale"), Kinds=S("plain", "gone", "nooutput"),
                     Manual="{TRUE, FALSE}", TableKeys=S("enter", "down", "up", "end"), TraceKeys=S("esc", "enter", "down", "q"), Keys=S("enter", "esc", "left", "right", "q", "down", "up", "end"))
    c.cov["exhaustive"] = True
    for r in runs[:3]: c.sample({"keys": [h["key"] for h in r["hist"]]})
    c.assumptions += ["compilers are scripts that do what the specification says, when it says so"]
