"""P13: navigation in the trace viewer. Spec: Viewer."""
from vf.core import *
from vf.viewer import *

CFG = ("SPECIFICATION Spec\nVIEW view\nINVARIANTS OneStack SelectedIsListed NothingEmpty FitsInTerminal SelfAddsUp EachOnce EmitScreen\n"
       "PROPERTIES LeavingUndoesZooming DialogsLeaveTheRest\nACTION_CONSTRAINT EmitRun\n")
def consts(keys, widths, **kw):
    d = {"Parents": "{}", "NActs": 1, "Unit": 1000, "Widths": "{%s}" % ", ".join(map(str, widths)), "Keys": "{%s}" % ", ".join('"%s"' % k for k in keys.split()), "MaxDepth": 3, "MaxKeys": 0, "Random": "FALSE"}
    d.update(kw); return d
def exhaustive(c, binary, name, keys, parents, widths=(80,), unit=1000, depth=3, budget=None, full=True):
    n = 0
    for p in parents: n = n * 100 + p
    r = tlc("Viewer", CFG, consts(keys, widths, Parents="{%d}" % n, NActs=len(parents), MaxDepth=depth, Unit=unit), timeout=800, heap="8g")
    c.tlc_done(r); g = Graph(r.lines)
    run_tours(c, binary, name, g, unit, c.rng(name), budget, full)
    return g
def simulated(c, binary, name, keys, widths, n, acts, length, unit=1000, depth=6, full=True, rows=50):
    """Runs on random traces; those in which the first row of a new profile would not be clear stop short."""
    r = tlc("Viewer", CFG.replace("VIEW view\n", "").replace("PROPERTIES LeavingUndoesZooming DialogsLeaveTheRest\n", ""), consts(keys, widths, NActs=acts, MaxKeys=length, Random="TRUE", MaxDepth=depth, Unit=unit),
            simulate=n, depth=4 * length, seed=c.sub_seed(name), timeout=800)
    c.tlc_done(r, sim=True)
    run_runs(c, binary, name, r.lines, full, rows)
    c.cov.setdefault("runs", {})[name] = "%d of %d simulated" % (len(r.lines), n)
    return r.lines
ALL = "up down left right home end pageup pagedown enter esc f u h q b ctrl-c resize"

def run(c):
    b = build_bin("crofiler")
    T = c.thorough
    for p, keys, depth in [((0, 1, 0), "up down enter esc f b u", 3), ((0, 1, 2, 1), "down enter esc f b", 4), ((0, 1, 0), "up down enter esc h q b ctrl-c", 3), ((0, 1, 0), "enter esc right", 3)] \
            + ([((0, 1, 2, 1, 0), "up down enter esc f b u q", 4), ((0, 0, 1, 3, 4, 3), "up down enter esc f b", 5)] if T else []):
        exhaustive(c, b, "%s on %s" % (keys, p), keys, p, depth=depth, full=False)
    runs = simulated(c, b, "histories", ALL, (80, 100), c.pick(40, 400), 8, c.pick(60, 120), full=False)
    c.cov["exhaustive"] = True
    for r in runs[:3]: c.sample({"keys": [h["key"] for h in r["hist"]][:40], "profiles": len(r["acts"])})
    c.assumptions += ["cursive draws what its views hold; the screen is read through a terminal emulator of our own",
                      "keys are pressed once the screen shows what the previous one did"]
