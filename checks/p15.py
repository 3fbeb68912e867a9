"""P15: textual report. Specs: Report (with Durations), Header."""
import os, re, tempfile, threading, subprocess, concurrent.futures, itertools, pty, tty, fcntl, termios, struct
from vf.core import *

CFG = """SPECIFICATION Spec
INVARIANTS SelfSumsUp KindsSumUp NoNegative FlatComplete ListedOnce CallersFirst
ACTION_CONSTRAINT Emit
"""
HEADER = """SPECIFICATION Spec
INVARIANTS FitsInWindow NothingDropped NoEmptyLine
ACTION_CONSTRAINT Emit
"""
WIDE = 65535

def trace(acts, unit, offset=50):
    evs = []
    for a in acts:
        e = {"ph": "X", "pid": 7, "tid": 7, "ts": offset + a["start"] * unit, "dur": a["dur"] * unit, "name": a["kind"]}
        d = detail(a)
        if d: e["args"] = {"detail": d}
        evs.append(e)
    evs.append({"ph": "M", "pid": 7, "tid": 7, "ts": 0, "cat": "", "name": "process_name", "args": {"name": "clang"}})
    return {"traceEvents": evs, "beginningOfTime": 0}
def detail(a):
    return {"RunPass": "n%d", "Source": "/n%d.h", "ParseClass": "n%d", "Frontend": ""}[a["kind"]].replace("%d", str(a["id"]))
def desc(a):
    d = detail(a)
    return "%s(%s)" % (a["kind"], d) if d else a["kind"]

class Cli:
    def __init__(self, exe):
        self.exe, self.dir = exe, scratch("p15")
        self.pool = concurrent.futures.ThreadPoolExecutor(WORKERS)
        self.n = itertools.count()
    def run(self, t, self_t=0.0, tree_t=0.0, cols=WIDE):
        n = next(self.n); path = "%s/%d.json" % (self.dir, n)
        with open(path, "w") as f: f.write(t if isinstance(t, str) else json.dumps(t))
        # without a terminal (or with a wide one), in a terminal that is as narrow, and with another choice of the user interface
        way = n % 5; argv = [self.exe, path]
        if self_t != 0.5 or way % 2: argv += [["-s", repr(self_t)], ["--self-threshold", repr(self_t)]][n % 2]
        if tree_t != 0.5 or way % 2: argv += [["-i", repr(tree_t)], ["--hierarchical-threshold=%r" % tree_t]][n % 2]
        argv += [[], ["--ui", "auto"], ["-u", "stdio"], ["--ui", "stdio"], ["--ui=stdio"]][way]
        if cols != 200 or way % 2: argv += [["-c", str(WIDE if way == 3 else cols)], ["--cols", str(WIDE if way == 3 else cols)]][n % 2]
        terminal = {2: cols, 3: cols, 4: WIDE}.get(way)
        env = {"PATH": "/usr/bin:/bin", "RUST_BACKTRACE": "0"}
        try:
            if terminal is None:
                p = subprocess.run(argv, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120, env=env)
                rc, out, err = p.returncode, p.stdout, p.stderr
            else:
                a, b = pty.openpty(); tty.setraw(b); fcntl.ioctl(b, termios.TIOCSWINSZ, struct.pack("HHHH", 24, terminal, 0, 0))
                try:
                    with tempfile.TemporaryFile(dir=self.dir) as e:
                        p = subprocess.Popen(argv, stdin=subprocess.DEVNULL, stdout=b, stderr=e, env=env)
                        os.close(b); b = None; out = b""; t = threading.Timer(120, p.kill); t.start()
                        while True:
                            try: d = os.read(a, 65536)
                            except OSError: break
                            if not d: break
                            out += d
                        rc = p.wait(); t.cancel(); e.seek(0); err = e.read()
                finally:
                    os.close(a)
                    if b is not None: os.close(b)
        except subprocess.TimeoutExpired:
            return {"rc": "no answer", "out": "", "err": ""}
        finally:
            os.unlink(path)
        return {"rc": rc, "out": out.decode("utf-8", "replace"), "err": err.decode("utf-8", "replace")}
    def map(self, jobs):
        return self.pool.map(lambda j: self.run(*j), jobs)

ROW = re.compile(r"^(.*) \[([^\[\],]+), (-?[\d.]+|NaN|inf)%\]$")
def parse(out):
    """Sections of a report."""
    lines = out.split("\n")
    marks = ["Self-duration breakdown by activity type:", "Hottest activities by self-duration:", "Hierarchical profile:"]
    pos = [lines.index(m) for m in marks]
    head = lines[:pos[0]]; kinds = lines[pos[0] + 1:pos[1]]; flat = lines[pos[1] + 1:pos[2]]; tree = lines[pos[2] + 1:]
    strip = lambda l: l[:len(l) - next((i for i, x in enumerate(reversed(l)) if x), len(l))]
    return "\n".join(head).strip("\n"), strip(kinds), strip(flat), [l for l in tree if l]
def forest(lines):
    """Indented lines as nested [text, children]."""
    roots = []; path = []
    for l in lines:
        d = 0
        while l.startswith("│ ") or l.startswith("  "): l = l[2:]; d += 1
        if l.startswith("├─") or l.startswith("└─"): l = l[2:]; d += 1
        node = [l, []]
        if d > len(path): raise ValueError("indentation")
        del path[d:]
        (path[-1][1] if path else roots).append(node)
        path.append(node)
    return roots

class Wrong(Exception): pass
def same_row(line, x):
    m = ROW.match(line)
    if not m: return False
    d, w, p = m.groups()
    return d == x["desc"] and w in x["written"] and abs(float(p) - x["pct"]) < 0.0050001
def rows_match(lines, exp, same):
    """lines in the order of the groups of equal amount of exp."""
    i = 0
    if len(lines) != len(exp): return False
    for _, g in itertools.groupby(exp, key=lambda x: x["amount"]):
        g = list(g); got = lines[i:i + len(g)]; i += len(g)
        for l in got:
            k = next((k for k, x in enumerate(g) if same(l, x)), None)
            if k is None: return False
            g.pop(k)
    return True

def expectations(x):
    acts, tot = x["acts"], x["total"]
    def row(i, amount, written):
        return {"desc": desc(acts[i - 1]), "written": written, "pct": 100.0 * amount / tot, "amount": amount, "i": i}
    flat = [row(i, s, x["written"][i - 1][1]) for i, s in x["flat"]["rows"]]
    def node(i):
        r = row(i, acts[i - 1]["dur"], x["written"][i - 1][0])
        r["kids"] = [node(j) for j in x["tree"][i - 1]["listed"]]
        r["others"] = x["tree"][i - 1]["others"]
        return r
    roots = [node(i + 1) for i, a in enumerate(acts) if a["parent"] == 0]
    rows = x["kinds"]["rows"] or {}
    kinds = [{"desc": k, "amount": v, "written": x["kindsWritten"][k], "pct": 100.0 * v / tot} for k, v in rows.items()]
    kinds.sort(key=lambda k: -k["amount"])
    return kinds, flat, roots
def pct(t): return "%.2f%%" % (t / 10.0)

def same_node(got, x, t):
    if not same_row(got[0], x): return False
    kids = got[1]
    if x["others"]:
        if not kids or kids[-1] != ["…%d callee(s) below %s…" % (x["others"], pct(t)), []]: return False
        kids = kids[:-1]
    return rows_match(kids, x["kids"], lambda g, k: same_node(g, k, t))

def judge(c, x, o):
    def bad(w): c.violation("%s (thresholds %s, %s; activities %s)" % (w, pct(x["selfT"]), pct(x["treeT"]), json.dumps([[desc(a), a["start"], a["dur"]] for a in x["acts"]])[:300]), {"case": x, "obs": o})
    if o["rc"] != 0 or "Failed" in o["err"] or "panicked" in o["err"]: return bad("no report: %s %s" % (o["rc"], o["err"][-200:]))
    try: head, kinds, flat, tree = parse(o["out"])
    except ValueError as e: return bad("report is incomplete: %s" % e)
    ek, ef, er = expectations(x)
    if x["kinds"]["others"]:
        if not kinds or kinds[-1] != "- ... and %d other activity types below %s ..." % (x["kinds"]["others"], pct(x["selfT"])): return bad("%d activity types are not counted: %s" % (x["kinds"]["others"], kinds))
        kinds = kinds[:-1]
    if not rows_match(kinds, ek, lambda l, e: l.startswith("- ") and same_row(l[2:], e)): return bad("breakdown is %s instead of %s" % (kinds, ek))
    if x["flat"]["others"]:
        if not flat or flat[-1] != "- ... and %d other activities below %s ..." % (x["flat"]["others"], pct(x["selfT"])): return bad("%d activities are not counted: %s" % (x["flat"]["others"], flat))
        flat = flat[:-1]
    if not rows_match(flat, ef, lambda l, e: l.startswith("- ") and same_row(l[2:], e)): return bad("flat profile is %s instead of %s" % (flat, ef))
    try: f = forest(tree)
    except ValueError: return bad("malformed tree %s" % tree)
    left = list(f)
    for r in er:   # top-level activities can come in any order
        k = next((k for k, g in enumerate(left) if same_node(g, r, x["treeT"])), None)
        if k is None: return bad("hierarchical profile is %s: %s is missing or wrong" % (tree, desc(x["acts"][r["i"] - 1])))
        left.pop(k)
    if left: return bad("hierarchical profile is %s: too many activities" % tree)

def narrow(c, x, cols, o):
    def bad(w): c.violation("%s (in %d columns, activities %s)" % (w, cols, json.dumps([[desc(a), a["start"], a["dur"]] for a in x["acts"]])[:300]), {"case": x, "cols": cols, "obs": o})
    if o["rc"] != 0 or "panicked" in o["err"]: return bad("no report: %s %s" % (o["rc"], o["err"][-200:]))
    try: head, kinds, flat, tree = parse(o["out"])
    except ValueError as e: return bad("report is incomplete: %s" % e)
    ek, ef, er = expectations(x)
    if len(flat) != len(ef) + bool(x["flat"]["others"]): return bad("flat profile has %d lines instead of %d" % (len(flat), len(ef)))
    for l in flat[:len(ef)]:
        if len(l) > max(cols, 3): return bad("line is too long: %r" % l)
    for l in tree:
        if len(l) > cols: return bad("line is too long: %r" % l)
    for l in head.split("\n"):
        if len(l) > max(cols, 1): return bad("line is too long: %r" % l)

KINDS = '{"RunPass", "Source", "ParseClass", "Frontend"}'
def run(c):
    cli = Cli(build_bin("crofiler"))
    small = {"Kinds": '{"RunPass", "Frontend"}', "Unit": 1, "Spends": "{1, 3}", "SelfShares": "{0, 250, 600}", "TreeShares": "{0, 500}",
             "MaxActs": 3, "MaxDepth": 3, "MaxSpends": c.pick(2, 3), "MaxRoots": 2, "Random": "FALSE"}
    r = tlc("Report", CFG, small, timeout=900); c.tlc_done(r); c.cov["exhaustive"] = True
    cases = r.lines
    lim = c.pick(1500, 20000)
    if len(cases) > lim: cases = c.rng("small").sample(cases, lim)
    sims = []
    SPENDS = "{1, 2, 3, 7, 19, 100, 101, 555, 999, 1000, 1005, 4321, 12345, 77777}"
    for unit, spends in ((1, SPENDS), (1, "{1, 2, 3, 5}"), (10, "{99999, 1, 49999, 2500, 31415}"), (100, "{5999, 9, 100, 12345, 35999}"), (1000, "{59994, 59995, 1, 5, 20000, 999, 1000}"),
                         (10000, "{5999, 6000, 359999, 1, 99, 100, 101, 4}"), (1000000, "{59, 60, 3599, 3600, 1, 86399, 86400, 9}"), (10000000, "{6, 354, 8640, 8639, 1, 77777, 360, 100}")):
        for roots in (1, 4):
            r = tlc("Report", CFG, {"Kinds": KINDS, "Unit": unit, "Spends": spends, "SelfShares": "{0, 1, 5, 10, 33, 125, 300, 1001}", "TreeShares": "{0, 5, 50, 125, 333, 1001}",
                                    "MaxActs": 14, "MaxDepth": 6, "MaxSpends": 16, "MaxRoots": roots, "Random": "TRUE"}, simulate=c.pick(30, 400), depth=60, seed=c.sub_seed("%s %s %s" % (unit, spends, roots)), timeout=900)
            c.tlc_done(r, sim=True)
            sims += r.lines
    sims = [x for x in sims if x["total"] * 1000 < 2 ** 31]
    lim = c.pick(1200, 20000)
    if len(sims) > lim: sims = c.rng("sims").sample(sims, lim)
    c.add("exhaustive_traces", len(cases)); c.add("simulated_traces", len(sims))
    todo = [x for x in cases + sims if x["total"] > 0]
    for x, o in zip(todo, cli.map((trace(x["acts"], x["unit"]), x["selfT"] / 10, x["treeT"] / 10) for x in todo)):
        judge(c, x, o); c.count()
    # one activity that takes longer and longer
    r = tlc("LongActivity", "SPECIFICATION Spec\nINVARIANTS CloseEnough NoOverflowingField\nACTION_CONSTRAINT Emit\n", {"Span": c.pick(12, 120)}, timeout=600); c.tlc_done(r)
    ticks = r.lines; c.add("durations", len(ticks))
    def ttrace(xs):   # several of them after one another
        acts = []; t = 0
        for k, x in enumerate(xs):
            acts.append({"kind": "RunPass", "id": k, "start": t, "dur": x["n"]}); t += x["n"]
        return trace(acts, xs[0]["unit"])
    groups = []
    for u in sorted({x["unit"] for x in ticks}):
        xs = [x for x in ticks if x["unit"] == u]
        groups += [xs[i:i + 40] for i in range(0, len(xs), 40)]
    for xs, o in zip(groups, cli.map((ttrace(xs),) for xs in groups)):
        c.count(len(xs))
        try: got = {m.group(1): m.group(2) for m in (ROW.match(l) for l in parse(o["out"])[2]) if m}
        except ValueError: got = {}
        for k, x in enumerate(xs):
            w = got.get("- RunPass(n%d)" % k)
            c.expect(w in x["written"], "%s * %s µs are written as %s instead of %s" % (x["n"], x["unit"], w, x["written"]), {"case": x, "obs": o["err"][-300:]})
    # narrow windows
    jobs = []
    for x in c.rng("narrow").sample(sims, min(len(sims), c.pick(25, 150))):
        if x["total"] > 0: jobs += [(x, w) for w in c.pick((1, 2, 3, 4, 5, 7, 10, 14, 22, 31, 42, 60), range(1, 70))]
    for (x, w), o in zip(jobs, cli.map((trace(x["acts"], x["unit"]), x["selfT"] / 10, x["treeT"] / 10, w) for x, w in jobs)):
        narrow(c, x, w, o); c.count()
    # degenerate traces: nothing recorded, or nothing that takes time
    for evs in ([], [{"kind": "RunPass", "id": 1, "start": 0, "dur": 0}], [{"kind": "RunPass", "id": 1, "start": 0, "dur": 0}, {"kind": "Source", "id": 2, "start": 5, "dur": 0}]):
        for w in (1, 2, 3, 20, WIDE):
            for s, t in ((0.0, 0.0), (0.5, 0.5), (100.0, 100.0)):
                o = cli.run(trace(evs, 1), s, t, w); c.count()
                c.expect(o["rc"] == 0 and "panicked" not in o["err"] and "Hierarchical profile:" in o["out"], "no report on a trace of %d activities that take no time (in %d columns): %s" % (len(evs), w, o["err"][-200:]), {"acts": evs, "obs": o})
    # header
    r = tlc("Header", HEADER, {"MaxCols": c.pick(100, 120)}, timeout=600); c.tlc_done(r)
    heads = r.lines if c.thorough else c.rng("head").sample(r.lines, 900)
    def htrace(h):
        t = trace([{"kind": "RunPass", "id": 1, "start": 0, "dur": 5}], 1)
        pid = int(h["pid"] or 7)
        for e in t["traceEvents"]: e["pid"] = e["tid"] = pid
        t["traceEvents"][-1]["args"]["name"] = h["proc"]
        if h["thread"]: t["traceEvents"].append({"ph": "M", "pid": pid, "tid": pid, "ts": 0, "cat": "", "name": "thread_name", "args": {"name": h["thread"]}})
        if not h["pid"]: t["traceEvents"] = []
        if h["date"] == "": del t["beginningOfTime"]
        else: t["beginningOfTime"] = 0 if h["date"].startswith("1970") else 1656508702311015
        return t
    heads = [x for x in heads if x["has"]["pid"]]
    for x, o in zip(heads, cli.map((htrace(x["has"]), 0.0, 0.0, x["cols"]) for x in heads)):
        c.count()
        try: head = parse(o["out"])[0]
        except ValueError: head = "%s %s" % (o["rc"], o["err"][-300:])
        c.expect(o["rc"] == 0 and head == x["text"], "in %d columns, the origin of a trace reads %r instead of %r" % (x["cols"], head, x["text"]), {"case": x, "obs": o})
    for x in cases[:1] + sims[:2]: c.sample(x)
    c.assumptions += ["thresholds that an activity reaches exactly are left out unless floating point is exact there", "activities that end when they start are left to P01"]
