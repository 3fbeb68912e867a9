"""The interactive trace viewer against the screens that the Viewer specification derives."""
import json, os, re, collections, multiprocessing as mp, random, time
from vf.core import ToolError, scratch, WORKERS
from vf.tui import Tui, Bad

def trace(acts, unit):
    """A time-trace of these activities; callees come before their callers."""
    evs = []
    for a in acts:
        e = {"ph": "X", "pid": 7, "tid": 7, "ts": 50 + a["start"] * unit, "dur": a["dur"] * unit, "name": "".join(a["x"]["kind"])}
        if a["x"]["arg"]["k"] != "none": e["args"] = {"detail": a["x"]["src"] or "/"}
        evs.append(e)
    evs.sort(key=lambda e: (e["ts"] + e["dur"], -e["ts"]))
    evs.append({"ph": "M", "pid": 7, "tid": 7, "ts": 0, "cat": "", "name": "process_name", "args": {"name": "clang"}})
    return {"traceEvents": evs}

def corner(s):
    for y, row in enumerate(s.cells):
        for x, c in enumerate(row):
            if c[0] == "┌": yield y, x

def dialog(s):
    """Title, lines and highlighted texts of the open dialog."""
    at = list(corner(s))
    if not at: return None
    if len(at) > 1: return "several dialogs are open"
    y, x = at[0]
    h = y + 1
    while h < s.rows and s.cells[h][x][0] == "│": h += 1
    w = x + 1
    while w < s.cols and s.cells[y][w][0] != "┐": w += 1
    if h >= s.rows or s.cells[h][x][0] != "└" or w >= s.cols or s.cells[h][w][0] != "┘": return "a dialog is not drawn completely"
    inner = [s.cells[i][x + 1:w] for i in range(y + 1, h)]
    marked = []
    for row in inner:
        t = "".join(c[0] for c in row if c[2] == 1).strip()
        if t: marked.append(t)
    return {"title": "".join(c[0] for c in s.cells[y][x:w + 1]).strip("┌┐─┤├ "), "lines": ["".join(c[0] for c in row).strip() for row in inner], "marked": marked}

TITLES = {(False, "total"): ["%Total", "Self", "Activity"], (False, "parent"): ["%Parent", "Self", "Activity"], (False, "time"): ["Time", "Self", "Activity"],
          (True, "total"): ["Self%Tot", "Activity"], (True, "parent"): ["Self%Par", "Activity"], (True, "time"): ["SelfTime", "Activity"]}

def text(cells): return "".join(c[0] for c in cells)

def judge(e, s, full=True):
    """What is wrong with the screen, when `e` should be on it. Without `full`, the figures in the rows are not looked at."""
    d = dialog(s)
    if isinstance(d, str): return d
    if e["dialog"] != "none":
        if d is None: return "the %s dialog is not open" % e["dialog"]
        body = " ".join(d["lines"])
        if e["dialog"] == "help":
            if "Available commands" not in body: return "the help dialog is not the one that is open: %r" % d
        elif e["dialog"] == "quit":
            if "Ready to quit" not in body: return "the quit dialog is not the one that is open: %r" % d
            want = ["", "<Yes>", "<No>"][e["item"]]
            if d["marked"] != [want]: return "%s is marked in the quit dialog instead of %s" % (d["marked"], want)
        else:
            if d["title"] != "Backtrace": return "the backtrace is not the dialog that is open: %r" % d
            got = [l for l in d["lines"] if l and l != "<Ok>"]
            # a terminal that became narrower cuts names
            cut = lambda g, w: w if len(g) >= s.cols - 10 and w.startswith(g) else g
            if [cut(g, w) for g, w in zip(got, e["back"])] + got[len(e["back"]):] != e["back"]: return "the backtrace is %r instead of %r" % (got, e["back"])
            if e["back"][e["item"] - 1] not in [cut(g, e["back"][e["item"] - 1]) for g in d["marked"]]: return "%r is marked in the backtrace instead of %r" % (d["marked"], e["back"][e["item"] - 1])
        return None
    if d is not None: return "a dialog is open: %r" % d
    # the table
    flat = e["flat"]
    starts = [0, 14] if flat else [0, 14, 28]
    head = s.cells[0]
    for k, (x, t) in enumerate(zip(starts, TITLES[flat, e["unit"]])):
        end = starts[k + 1] - 2 if k + 1 < len(starts) else min(s.cols, e["w"])
        if x + len(t) > s.cols: continue
        cell = text(head[x:end])
        if not cell.startswith(t): return "column %d is titled %r instead of %r" % (k + 1, cell, t)
        if end <= s.cols and (k + 1 < len(starts) or s.cols >= e["w"]):
            want = e["dir"] if k + 1 == e["key"] else " "
            if "[%s]" % want not in cell: return "the sort mark of column %d is not %r: %r" % (k + 1, want, cell)
        bg = head[x][2]
        if (bg == 1) != (e["picking"] and e["cursor"] == k + 1): return "column %d is%s marked as the one being picked" % (k + 1, "" if bg == 1 else " not")
    sep = next((y for y in range(s.rows) if "┤Selected activity├" in s.line(y)), None)
    if sep is None: return "no description area"
    rows = e["rows"]
    height = sep - 2
    shown = []
    for y in range(2, sep):
        r = s.cells[y]
        if not text(r[:11]).strip(): break
        shown.append(y)
    if len(shown) != min(len(rows), height): return "%d rows are shown instead of %d" % (len(shown), min(len(rows), height))
    room = e["w"] - (16 if flat else 30)
    def entry(y):
        r = s.cells[y]
        a = [text(r[0:11]).strip()] + ([] if flat else [text(r[14:25]).strip()])
        return a, text(r[starts[-1]:min(s.cols, starts[-1] + room)]).rstrip(), r[0][2] in (1, 4) if not e["picking"] else r[0][2] == 4, r[0][2]
    got = [entry(y) for y in shown]
    sel = [i for i, g in enumerate(got) if g[2]]
    # a table that does not fit can be scrolled away from its selected row
    if len(sel) != 1 and (sel or len(rows) == len(got)): return "%d rows are marked" % len(sel)
    cut = max(0, s.cols - starts[-1])
    def matches(g, r):
        t, w = g[1], r["desc"]
        # a narrower terminal cuts descriptions
        if s.cols < e["w"]:
            if cut < 3: w = t
            elif len(t) >= cut - 2:
                if not w.startswith(t[:max(0, len(t) - 2)]): return False
                w = t
        if t.rstrip() != w.rstrip(): return False
        if not full: return True
        figs = [("total", "wtotal"), ("self", "wself")][1 if flat else 0:]
        for shown_, (n, wr) in zip(g[0], figs):
            if shown_ == "" and s.cols < e["w"]: continue
            if s.cols < e["w"] and n == "self" and s.cols < 25: continue
            if e["unit"] == "time":
                if shown_ not in r[wr]: return False
            else:
                if not re.fullmatch(r"\d+\.\d\d%", shown_): return False
                want = 100.0 * r[n] / e["norm"] if e["norm"] else 0.0
                if abs(float(shown_[:-1]) - want) > 0.00501 + want * 1e-6: return False
        return True
    # the rows on the screen are a part of all rows, those of equal rank in any order
    ranks = sorted(r["rank"] for r in rows)
    def fits(off):
        """None when they are the rows from `off` on."""
        left = list(rows)
        for i, g in enumerate(got):
            m = [r for r in left if r["rank"] == ranks[off + i] and matches(g, r)]
            if not m: return "row %d reads %r instead of %s" % (off + i + 1, g[:2], [(r["wtotal"], r["wself"], r["total"], r["self"], r["desc"]) for r in left if r["rank"] == ranks[off + i]])
            # the selected one, if it can be
            pick = next((r for r in m if (r["id"] == e["sel"]) == (sel == [i])), m[0])
            left.remove(pick)
            if sel == [] and pick["id"] == e["sel"]: return "no row is marked"
            if sel == [i] and pick["id"] != e["sel"]: return "%r is selected instead of %r" % (pick["desc"], next(r["desc"] for r in rows if r["id"] == e["sel"]))
        return None
    errs = [fits(o) for o in range(len(rows) - len(got) + 1)]
    if all(errs): return errs[0] + (" (unit %s, norm %s)" % (e["unit"], e["norm"]))
    # the description area
    desc = []
    for y in range(sep + 1, s.rows):
        desc.append(s.line(y))
    body = "".join(desc).replace(" ", "")
    if s.cols >= e["w"] and not body.startswith(e["long"].replace(" ", "")): return "the description area shows %r instead of %r" % (" ".join(desc)[:300], e["long"])
    if full and s.cols >= e["w"] and "PressHforhelp." not in body: return "no footer"
    return None

# violations after which there is no point in going on
ENOUGH = 4

class Session:
    def __init__(self, binary, file, cols, rows=50, full=True, seed=0):
        self.t = Tui([binary, file], rows=rows, cols=cols)
        self.rows, self.full, self.keys, self.rng = rows, full, [], random.Random(seed)
    def expect(self, e):
        try: self.t.wait(lambda s: judge(e, s, self.full), 15, "after %s: " % self.keys[-8:])
        except Bad as x: x.screen = self.t.screen.lines(); raise
    def press(self, key):
        self.keys.append(key)
        if key.isdigit(): self.t.resize(self.rows, int(key))
        else: self.t.key(key)
    def step(self, key, e, same=False):
        self.press(key)
        if e["dialog"] == "ended":
            if not self.t.ended(15): raise Bad("after %s: the program does not end" % self.keys[-8:])
            if self.t.status != 0: raise Bad("after %s: the program ends with %s: %s" % (self.keys[-8:], self.t.status, self.t.tail()))
            return
        if same and self.rng.random() < 0.3: self.t.settle(0.25)
        self.expect(e)
    def end(self, e):
        if e["dialog"] != "ended":
            self.t.settle(0.3); self.expect(e)
    def close(self): self.t.close()

# ------------------------------------------------------- tours through a state graph

class Graph:
    def __init__(self, lines):
        self.screen = {}; self.out = collections.defaultdict(dict); self.acts = None; self.first = []
        for l in lines:
            if "at" in l:
                self.screen[l["at"]] = l["screen"]
                if l["acts"]: self.acts = l["acts"]; self.first.append(l["at"])
            else: self.out[l["from"]].setdefault(l["key"], l["to"])
        self.edges = sum(len(o) for o in self.out.values())
    def path(self, start, wanted):
        """Keys from a state to the nearest one with something left to do."""
        prev = {start: None}; todo = collections.deque([start])
        while todo:
            s = todo.popleft()
            if wanted(s):
                keys = []
                while prev[s]: keys.append(prev[s][1]); s = prev[s][0]
                return keys[::-1]
            for k, t in self.out[s].items():
                if t not in prev: prev[t] = (s, k); todo.append(t)
        return None
    def tours(self, rng, limit=120, budget=None):
        """Sequences of keys from a first state that take all transitions (or about `budget` of them)."""
        left = {s: set(o) for s, o in self.out.items()}
        n = 0; res = []
        total = sum(len(x) for x in left.values())
        while total and (budget is None or n < budget):
            start = self.first[len(res) % len(self.first)]
            s = start; keys = []
            while len(keys) < limit and total:
                if left.get(s):
                    k = rng.choice(sorted(left[s]))
                    left[s].discard(k); total -= 1; n += 1
                    keys.append(k); s = self.out[s][k]
                    continue
                p = self.path(s, lambda x: bool(left.get(x)))
                if p is None: break
                for k in p: keys.append(k); s = self.out[s][k]
            if not keys:
                # unreachable from this first state
                if len(self.first) == 1: raise ToolError("transitions out of reach")
                if all(self.path(f, lambda x: bool(left.get(x))) is None for f in self.first): raise ToolError("transitions out of reach")
                res.append((start, [])); continue
            res.append((start, keys))
        return [t for t in res if t[1]], n

def again(f, job):
    """What went wrong, if it goes wrong every time."""
    return f(job) and f(job)
def _tour(job): return again(_tour_once, job)
def _tour_once(job):
    binary, file, cols, start, keys, screens, out, full, seed, rows = job
    ses = Session(binary, file, cols, rows, full, seed)
    try:
        ses.expect(screens[start]); s = start
        for k in keys:
            to = out[s][k]
            ses.step(k, screens[to], screens[to] == screens[s]); s = to
        ses.end(screens[s])
        return None
    except Bad as x: return {"what": str(x), "keys": ses.keys, "screen": getattr(x, "screen", None), "expected": screens.get(s)}
    finally: ses.close()

def run_tours(c, binary, name, g, unit, rng, budget=None, full=True, rows=50, limit=120):
    d = scratch("viewer"); file = os.path.join(d, "trace.json")
    json.dump(trace(g.acts, unit), open(file, "w"))
    tours, n = g.tours(rng, limit, budget)
    jobs = []
    for i, (start, keys) in enumerate(tours):
        used = set(); s = start; used.add(s); out = {}
        for k in keys: out.setdefault(s, {})[k] = g.out[s][k]; s = g.out[s][k]; used.add(s)
        jobs.append((binary, file, g.screen[start]["cols"], start, keys, {s: g.screen[s] for s in used}, out, full, i, rows))
    bad = 0
    with mp.get_context("fork").Pool(WORKERS) as pool:
        for (job, r) in zip(jobs, pool.imap(_tour, jobs, chunksize=1)):
            c.count()
            c.add("keys_pressed", len(job[4]))
            if r:
                bad += 1
                c.violation("%s: %s" % (name, r["what"]), {"trace": trace(g.acts, unit), "cols": job[2], "keys": r["keys"], "screen": r["screen"], "expected": r["expected"]})
                if bad >= ENOUGH: break
    c.cov.setdefault("tours", {})[name] = "%d of %d transitions, %d sessions" % (n, g.edges, len(tours))
    return bad

def _run(job): return again(_run_once, job)
def _run_once(job):
    binary, file, run, full, seed, rows = job
    h = run["hist"]
    ses = Session(binary, file, h[0]["screen"]["cols"], rows, full, seed)
    e = h[0]["screen"]
    try:
        ses.expect(e)
        for i, st in enumerate(h[:-1]):
            nxt = h[i + 1]["screen"]
            ses.step(st["key"], nxt, nxt == e); e = nxt
        ses.end(e)
        return None
    except Bad as x: return {"what": str(x), "keys": ses.keys, "screen": getattr(x, "screen", None), "expected": e}
    finally: ses.close()

def run_runs(c, binary, name, runs, full=True, rows=50):
    d = scratch("viewer"); jobs = []
    for i, r in enumerate(runs):
        f = os.path.join(d, "%d.json" % i)
        json.dump(trace(r["acts"], r["unit"]), open(f, "w"))
        jobs.append((binary, f, r, full, i, rows))
    bad = 0
    with mp.get_context("fork").Pool(WORKERS) as pool:
        for (job, r) in zip(jobs, pool.imap(_run, jobs, chunksize=1)):
            c.count(); c.add("keys_pressed", len(job[2]["hist"]))
            if r:
                bad += 1
                c.violation("%s: %s" % (name, r["what"]), {"trace": trace(job[2]["acts"], job[2]["unit"]), "keys": r["keys"], "screen": r["screen"], "expected": r["expected"]})
                if bad >= ENOUGH: break
