"""P14: contents of the trace viewer. Spec: Viewer."""
from checks.p13 import *

def run(c):
    b = build_bin("crofiler")
    for p, keys, w, budget in [((0, 0), "left right enter u", (80,), 1000), ((0, 1, 0), "up down f u enter esc", (80,), None), ((0, 1, 0), "f enter esc resize down", (50, 70, 120), None), ((0,), "enter left right u f", (60,), 1000)]:
        exhaustive(c, b, "%s on %s" % (keys, p), keys, p, widths=w, budget=c.pick(budget, None))
    W = (48, 64, 80, 110, 160)
    lines = []
    for name, acts, unit, n in [("small", 4, 1, 20), ("medium", 9, 1000, 25), ("large", 16, 100, 20), ("slow", 12, 1000000, 15)]:
        lines += simulated(c, b, name, ALL, W, c.pick(n, n * 12), acts, c.pick(50, 120), unit=unit)
    lines += simulated(c, b, "scrolling", "up down home end pageup pagedown enter right left u f esc", W, c.pick(10, 100), 16, 60, rows=16)
    for r in lines[:3]: c.sample({"keys": [h["key"] for h in r["hist"]][:40], "acts": [a["long"] for a in r["acts"]]})
    c.assumptions += ["cursive draws what its views hold; the screen is read through a terminal emulator of our own",
                      "percentages are compared up to half of the last digit", "when the terminal is narrower than a profile was made for, rows are only judged as far as they are visible"]
