"""P17: build profiles read back and are displayed. Specs: ProfileCsv, (display) BuildSession."""
import struct
from vf.core import *
from checks.p12 import graph, histories, S

f32 = lambda x: struct.unpack("f", struct.pack("f", x))[0]
def cell(t, always=False):
    return '"' + t.replace('"', '""') + '"' if always or any(ch in t for ch in ',"\r\n') else t
def same_time(exp, got):
    """exp: text of the cell; got: null, seconds or [invalid number]"""
    if exp == "": return got is None
    x = float(exp)
    if x != x: return isinstance(got, list) and got[0] == "NaN"
    if x < 0 or f32(x) > 2.0 ** 64: return isinstance(got, list) and (float(got[0]) == x or f32(float(got[0])) == f32(x))
    return isinstance(got, float) and abs(got - f32(x)) <= 2e-9 + 1e-7 * abs(x) and f32(got) == f32(x)

def readback(c):
    hb = build_harness()
    d = scratch("csv")
    FILES = {"plain": "src/a.cpp", "comma": "a,b.cpp", "quote": 'say "x".cpp', "newline": "a\nb.cpp", "utf8": "é/文.cpp", "space": " a b ", "empty": "", "abs": "/x/y.cpp", "hash": "#a.cpp", "dup": "src/a.cpp"}
    def play(tag, consts, sim=None, n=3):
        k = {"MaxRows": n, "Simple": "TRUE" if sim is None else "FALSE"}
        k.update({x: "{" + ", ".join('"%s"' % y for y in v) + "}" for x, v in consts.items()})
        r = tlc("ProfileCsv", "SPECIFICATION Spec\nINVARIANTS OnePerRow\nPROPERTIES Grows\nACTION_CONSTRAINT Emit\n", k, simulate=sim, depth=n + 2, seed=c.sub_seed(tag), timeout=1500)
        c.tlc_done(r, sim=sim is not None)
        cases = []
        for i, x in enumerate(r.lines):
            lines = [",".join(x["header"])]
            for row in x["rows"]:
                vals = {"file": FILES[row["file"]], "max_rss": row["size"], "time": row["wall"], "note": "n", "maxrss": row["size"]}
                cells = [cell(vals.get(h, "7"), i % 5 == 1) for h in x["header"]]
                if row["shape"] == "short": cells = cells[:-1]
                elif row["shape"] == "long": cells.append("more")
                lines.append(",".join(cells) or '""')   # (blank lines are no rows)
            eol = "\r\n" if i % 4 == 3 else "\n"
            cases.append((x, {"path": d + "/p.csv", "text": eol.join(lines) + (eol if i % 3 else "")}))
            plain = x["header"] == ["file", "max_rss", "time"] and x["result"]["ok"] and all(row["wall"] in ("", "0.0", "1.5", "123456.7", "0.001", "1e9") for row in x["rows"])
            if plain: cases.append((x, {"path": d + "/p.csv", "write": [[FILES[u[0]], int(u[1]), None if u[2] == "" else float(u[2])] for u in x["result"]["units"]]}))
        obs = Harness([hb, "csv"], timeout=120).batch(k for _, k in cases)
        for (x, k), o in zip(cases, obs):
            c.count()
            def bad(w): c.violation("%s (profile %r)" % (w, k.get("text", k.get("write"))), {"case": k, "expected": x["result"], "obs": o})
            if "err" not in o and "ok" not in o: bad("crash: %s" % json.dumps(o)[:200]); continue
            if not x["result"]["ok"]:
                if "err" not in o: bad("a profile that makes no sense is read as %s" % json.dumps(o)[:300])
                continue
            if "err" in o: bad("not read: %s" % o["err"]); continue
            exp = [[FILES[u[0]], int(u[1]), u[2]] for u in x["result"]["units"]]
            if [g[:2] for g in o["ok"]] != [e[:2] for e in exp]: bad("units are %s instead of %s" % (json.dumps(o["ok"])[:300], json.dumps(exp)[:300])); continue
            for e, g in zip(exp, o["ok"]):
                if not same_time(e[2], g[2]): bad("wall time of %r is %s instead of %r" % (e[0], g[2], e[2])); break
        c.cov.setdefault("profiles", {})[tag] = len(cases)
        if cases: c.sample(cases[-1][1])
    H = ["usual", "permuted", "untimed", "extra", "nofile", "nosize", "renamed", "cut", "cut2", "lost", "text"]
    W = ["", "0.0", "1.5", "123456.7", "0.001", "1e9", "-1.0", "inf", "NaN", "1e30", "1e19"]
    Z = ["0", "1", "4096", "1073741824", "18446744073709551615"]
    play("one unit", {"Headers": H, "Files": list(FILES), "Sizes": Z, "BadSizes": ["-1", "1.5", "18446744073709551616", "", "x"], "Walls": W, "BadWalls": ["x", "1s"], "Shapes": ["full", "short", "long"]}, n=1)
    play("two units", {"Headers": ["usual", "untimed"], "Files": ["plain", "comma", "dup"], "Sizes": Z[:3], "BadSizes": ["x"], "Walls": ["", "1.5"], "BadWalls": ["x"], "Shapes": ["full", "short"]}, n=2)
    c.cov["exhaustive"] = True
    play("many units", {"Headers": H[:4], "Files": list(FILES), "Sizes": Z, "BadSizes": [], "Walls": W, "BadWalls": [], "Shapes": ["full"]}, sim=c.pick(300, 3000), n=20)
    os.mkdir(d + "/folder.csv")
    open(d + "/bytes.csv", "wb").write(b"fi\xffle,max_rss\n"); open(d + "/bytes2.csv", "wb").write(b"file,max_rss\na.c\xffpp,12\n"); open(d + "/empty.csv", "wb").close()
    for k, o in zip(("folder", "bytes", "bytes2"), Harness([hb, "csv"]).batch([{"path": d + "/%s.csv" % k} for k in ("folder", "bytes", "bytes2")])):
        c.expect("err" in o and o["err"] != "FileNotFound", "an unreadable profile (%s) is read as %s" % (k, json.dumps(o)), o)
    for o in Harness([hb, "csv"]).batch([{"path": d + "/empty.csv"}]):
        c.expect(o.get("ok") == [], "the profile of no unit is read as %s" % json.dumps(o), o)
    for o in Harness([hb, "csv"]).batch([{"path": d + "/nothing.csv"}]):
        c.expect(o.get("err") == "FileNotFound", "a missing profile is reported as %s" % json.dumps(o), o)

def display(c):
    b = build_bin("crofiler")
    for timed in ("TRUE", "FALSE"):
        graph(c, b, "table, times %s" % timed, NUnits=c.pick(3, 4), Timed=timed, TraceStates=S("m5"), Keys=S("left", "right", "enter", "down", "up", "home", "end"), TableKeys=S("left", "right", "enter", "down", "end"), TraceKeys=S("esc"), Env=S("!start"), Kinds=S("gone"), budget=c.pick(350, None))
        W = "{40, 45, 60, 80, 120, 160}"
        K = S("up", "down", "left", "right", "home", "end", "enter", "esc", "q", "h")
        for rows, n in [(50, 15), (10, 10)]:
            histories(c, b, "tables, times %s, %d lines" % (timed, rows), c.pick(n, n * 12), 40, rows=rows, NUnits=10, Timed=timed, Profs=S("fresh"), TraceStates=S("none", "fresh", "m5"), Kinds=S("plain", "gone", "unlisted"), Widths=W if rows > 10 else "{60, 80, 120}", Keys=K, TraceKeys=S("esc", "enter"), Env=S("!trace ok"))
    graph(c, b, "damaged profiles", Setups=S("badprof"), Profs=S("fresh", "m5", "stale"), Manual="{TRUE, FALSE}", Timed="TRUE", TableKeys=S("esc"), Keys=S("enter", "right", "esc"), Env=S("!start"), NUnits=1)

def run(c):
    readback(c)
    display(c)
