"""P16: shortened names fit. Spec: ShortNames."""
from vf.core import *
from checks.p15 import Cli, parse, WIDE
import re

INV = "INVARIANTS Fits KindInFront FullIfFits NothingOnlyIfNoRoom OnlyLosesDetail PathRules\n"
CFG = "SPECIFICATION Spec\n" + INV + "ACTION_CONSTRAINT Emit\n"
MAXCOLS = 90
TRAILER = re.compile(r"^(.*)( \[[^\[\]]*\])$", re.S)

def trace(acts):
    """Each activity takes another time, so that they can be told apart."""
    evs = []; t = 50
    for i, x in enumerate(acts):
        d = 100 + len(acts) - i
        e = {"ph": "X", "pid": 7, "tid": 7, "ts": t, "dur": d, "name": x["kind"]}
        if x["k"] != "none": e["args"] = {"detail": x["src"] or "/"}
        evs.append(e); t += d
    evs.append({"ph": "M", "pid": 7, "tid": 7, "ts": 0, "cat": "", "name": "process_name", "args": {"name": "clang"}})
    return {"traceEvents": evs}

def line(x, m, trailer):
    """The line about an activity in m columns."""
    t = x["table"]
    def at(n): return t[n - 1][0] if n >= 1 else ""
    if at(m - len(trailer)): return at(m - len(trailer)) + trailer
    return at(m) or "…"

def run(c):
    cli = Cli(build_bin("crofiler"))
    r = tlc("ShortNames", CFG, {"Sample": "{" + ", ".join(str(i) for i in range(1, 36)) + "}", "MaxCols": MAXCOLS, "MaxLen": 1, "Random": "FALSE"}, timeout=600, workers=1)
    c.tlc_done(r); c.cov["exhaustive"] = True
    acts = r.lines
    sims = []
    for n in c.pick((12, 40), (6, 12, 25, 60)):
        r = tlc("ShortNames", CFG, {"Sample": "{1}", "MaxCols": MAXCOLS, "MaxLen": n, "Random": "TRUE"}, simulate=c.pick(150, 1200), depth=n + 20, seed=c.sub_seed("sim%d" % n), timeout=900)
        c.tlc_done(r, sim=True); sims += r.lines
    c.add("described_activities", len(acts) + len(sims))
    groups = [acts] + [sims[i:i + 60] for i in range(0, len(sims), 60)]
    widths = list(range(1, MAXCOLS + 1))
    jobs = [(g, w) for k, g in enumerate(groups) for w in (widths if g is acts or c.thorough else c.rng("w%d" % k).sample(widths, 30))]
    base = {id(g): o for g, o in zip(groups, cli.map((trace(g),) for g in groups))}
    trailers = {}
    for g in groups:
        o = base[id(g)]
        def bad(w): c.violation(w, {"acts": [x["src"] for x in g], "obs": o})
        if o["rc"] != 0 or "panicked" in o["err"]: bad("no report: %s" % o["err"][-300:]); continue
        flat = parse(o["out"])[2]
        if len(flat) != len(g): bad("%d lines for %d activities" % (len(flat), len(g))); continue
        trailers[id(g)] = []
        for l, x in zip(flat, g):
            m = TRAILER.match(l)
            if not m: bad("malformed line %r" % l); trailers.pop(id(g)); break
            trailers[id(g)].append(m.group(2))
            # in full when there is room
            full = x["table"][-1][0]
            if "…" not in full and m.group(1) != "- " + full: bad("%s %r is described as %r instead of %r" % (x["kind"], x["src"], m.group(1), full))
    jobs = [(g, w) for g, w in jobs if id(g) in trailers]
    for (g, w), o in zip(jobs, cli.map((trace(g), 0.0, 0.0, w) for g, w in jobs)):
        def bad(m, x=None): c.violation("%s (in %d columns)" % (m, w), {"cols": w, "act": x, "obs": o})
        if o["rc"] != 0 or "panicked" in o["err"]: bad("no report: %s" % o["err"][-300:]); continue
        try: flat, tree = parse(o["out"])[2:]
        except ValueError: bad("incomplete report"); continue
        if len(flat) != len(g) or len(tree) != len(g): bad("%d and %d lines for %d activities" % (len(flat), len(tree), len(g))); continue
        exp = [line(x, max(w - 2, 1), t) for x, t in zip(g, trailers[id(g)])]
        for l, x, e in zip(flat, g, exp):
            c.count()
            if l != "- " + e: bad("%s %r reads %r instead of %r" % (x["kind"], x["src"], l[2:], e), x)
        exp = sorted(line(x, w, t) for x, t in zip(g, trailers[id(g)]))
        for l, e in zip(sorted(tree), exp):   # (top-level activities can come in any order)
            if l != e: bad("top-level activity reads %r instead of %r" % (l, e)); break
    for x in acts[5:6] + acts[20:21] + sims[:1]: c.sample({"src": x["src"], "in 30": x["table"][29], "in 40": x["table"][39]})
    c.assumptions += ["widths of graphemes: ASCII, accented letters (composed or not) and a few ideographs", "activities with an empty argument are left out"]
