"""P18: compilation databases. Specs: Shell, CompDb."""
from vf.core import *

def quote(w, style):
    """A spelling of a word under shell quoting rules."""
    if style == "single": return "'" + w.replace("'", "'\\''") + "'"
    if style == "double": return '"' + "".join("\\" + ch if ch in '"\\$`' else ch for ch in w) + '"'
    if style == "escape": return "".join("\\" + ch for ch in w) if w else "''"
    if style == "mixed": return '""' + "".join(quote(ch, ("single", "double", "escape")[i % 3]) for i, ch in enumerate(w))
    return w if w and all(ch.isalnum() or ch in "-./=_" for ch in w) else quote(w, "single")

def run(c):
    hb = build_harness()
    # commands
    def shell(tag, ordinary, n, sim=None):
        r = tlc("Shell", "SPECIFICATION Spec\nINVARIANTS NoWordFromNothing\nPROPERTIES Prefix SingleIsLiteral OnlyBlanksSeparate\nACTION_CONSTRAINT Emit\n",
                {"Ordinary": "{" + ", ".join('"%s"' % x for x in ordinary) + "}", "MaxLen": n}, simulate=sim, depth=n + 1, seed=c.sub_seed(tag), timeout=1500)
        c.tlc_done(r, sim=sim is not None)
        seen = {x["t"]: x["w"] for x in r.lines}
        cases = list(seen.items())
        chunk = 200
        batches = [cases[i:i + chunk] for i in range(0, len(cases), chunk)]
        obs = Harness([hb, "db"], timeout=120).batch({"db": [{"directory": "/nowhere", "command": t, "file": "f%d" % k} for k, (t, _) in enumerate(b)], "lookup": ["f%d" % k for k in range(len(b))]} for b in batches)
        for b, o in zip(batches, obs):
            if "ok" not in o: c.violation("database with unusual commands: %s" % json.dumps(o)[:300], {"commands": [t for t, _ in b], "obs": o}); continue
            for (t, w), e in zip(b, o["ok"]["lookup"]):
                c.count()
                got = None if e is None else ([e["program"]] if e["program"] is not None else []) + e["args"]
                if got != w or e["raw"] != t:
                    c.violation("command %r is %r instead of %r" % (t, got, w), {"command": t, "words": w, "obs": e})
        c.cov.setdefault("commands", {})[tag] = len(cases)
        if cases: c.sample(cases[-1])
    shell("short", ["a", "-"], c.pick(5, 6))
    shell("long", ["a", "-", "o", ".", "/", "=", "é", "{", "~"], 40, sim=c.pick(400, 4000))
    c.cov["exhaustive"] = True
    # databases
    root = os.path.realpath(scratch("db"))
    for d in ("R/sub/deep", "R/other", "cwd"): os.makedirs(os.path.join(root, d))
    os.symlink("sub/deep", os.path.join(root, "R/link"))
    DIR = {"root": "/R", "sub": "/R/sub", "link": "/R/link", "gone": "/R/gone", "dots": "/R/sub/../other"}
    OUT = {"plain": "x.o", "sub": "sub/x.o", "up": "../x.o", "link": "link/x.o", "uplink": "link/../y.o", "missing": "nope/x.o", "missingup": "nope/../x.o",
           "abs": root + "/R/other/z.o", "absmissing": root + "/R/gone/z.o", "dot": "./x.o", "dirname": "sub/deep"}
    def words(e): return [OUT.get(w, w) if i and e["args"][i - 1] == "-o" else w for i, w in enumerate(e["args"])]
    def record(e, n):
        style = ("plain", "single", "double", "escape", "mixed")[n % 5]
        d = {"directory": root + DIR[e["d"]], "command": ("  " if n % 3 == 1 else " ").join(quote(w, style) for w in words(e)), "file": e["f"]}
        if e["recorded"] != "none": d["output"] = e["recorded"]
        elif n % 4 == 2: d["output"] = None
        f = e["fault"]
        if f in ("directory", "command", "file"): del d[f]
        elif f == "unknown": d["depends"] = "x"
        elif f == "arguments": d["arguments"] = ["cc"]
        elif f == "number": d["command"] = 3
        elif f == "null": d["file"] = None
        elif f == "list": d["output"] = ["a"]
        elif f == "scalar": return "cc"
        return d
    def expected(e, rec):
        o = e["output"]
        if o["kind"] == "none": out = None
        elif o["kind"] == "recorded": out = o["text"]
        else:
            p = o["path"]
            # what does not exist is named as spelled
            out = root + "/" + "/".join(p)
        w = words(e)
        return {"dir": rec["directory"], "program": w[0], "args": w[1:], "input": e["f"], "output": out, "raw": rec["command"]}
    def dbs(tag, consts, simple, sim=None, ops=3):
        k = {"Simple": simple, "MaxOps": ops}; k.update(consts)
        r = tlc("CompDb", "SPECIFICATION Spec\nINVARIANTS LastWins AllOrNothing RecordedFirst\nACTION_CONSTRAINT Emit\n", k, simulate=sim, depth=ops + 8, seed=c.sub_seed(tag), timeout=1500)
        c.tlc_done(r, sim=sim is not None)
        files = ["a.cpp", "/s/b.cpp", "c d.cpp", "A.cpp", "./sub/../a.cpp"]
        cases = []
        for n, x in enumerate(r.lines):
            recs = {}
            def rec(e, n=n, recs=recs):
                key = json.dumps(e, sort_keys=True)
                if key not in recs: recs[key] = record(e, n + len(recs))
                return recs[key]
            listed = [rec(h["e"]) for h in x["hist"] if h["op"] == "write"]
            text = json.dumps(listed, indent=n % 3 or None)
            ff = next(h["fault"] for h in x["hist"] if h["op"] == "load")
            if ff == "truncated": text = text[:-1]
            elif ff == "object": text = '{"entries": %s}' % text
            elif ff == "trailing": text += "]"
            elif ff == "empty": text = ""
            after = x["hist"][[h["op"] for h in x["hist"]].index("load") + 1:]
            case = {"db": text, "lookup": files, "ops": [{"push": rec(h["e"])} if h["op"] == "push" else {} for h in after]}
            if n % 2 == 0 or ff == "nofile": case["via_dir"] = root + "/cwd"; case["missing"] = ff == "nofile"
            cases.append((x, case, {e["f"]: expected(e, rec(e)) for e in x["db"]}))
        obs = Harness([hb, "db"], timeout=120).batch(k for _, k, _ in cases)
        for (x, case, exp), o in zip(cases, obs):
            c.count()
            def bad(w): c.violation(w + " (database %s)" % case["db"][:300], {"case": case, "expected": exp, "obs": o})
            if x["state"] == "refused":
                if "err" not in o: bad("malformed database accepted: %s" % json.dumps(o)[:200])
                elif case.get("missing") and o["err"] != "FileNotFound": bad("missing database reported as %s" % o["err"])
                continue
            if "ok" not in o: bad("well-formed database refused: %s" % json.dumps(o)[:300]); continue
            for f, got in zip(files, o["ok"]["lookup"]):
                if got != exp.get(f): bad("entry of %s is %s instead of %s" % (f, json.dumps(got), json.dumps(exp.get(f)))); break
            srt = lambda l: sorted(l, key=lambda v: json.dumps(v, sort_keys=True))
            if srt(o["ok"]["entries"]) != srt(exp.values()): bad("listing the database gives %s instead of %s" % (json.dumps(o["ok"]["entries"])[:300], json.dumps(list(exp.values()))[:300]))
        c.cov.setdefault("databases", {})[tag] = len(cases)
        if cases: c.sample(cases[-1][1])
    S = lambda *l: "{" + ", ".join('"%s"' % x for x in l) + "}"
    OUTS = list(OUT) + ["none", "last", "dotdot", "joined", "quoted"]
    FF = ("none", "truncated", "object", "trailing", "empty", "nofile")
    FAULTS = ("directory", "command", "file", "unknown", "arguments", "number", "null", "list", "scalar")
    dbs("entries", {"Files": S("a.cpp"), "Dirs": S(*DIR), "Outs": S(*OUTS), "Faults": S("none"), "FileFaults": S("none"), "MaxEntries": 1}, "TRUE", ops=0)
    dbs("faults", {"Files": S("a.cpp", "c d.cpp"), "Dirs": S("root"), "Outs": S("none"), "Faults": S("none", *FAULTS), "FileFaults": S(*FF), "MaxEntries": 1}, "TRUE", ops=0)
    dbs("random", {"Files": S("a.cpp", "/s/b.cpp", "c d.cpp", "A.cpp"), "Dirs": S(*DIR), "Outs": S(*OUTS), "Faults": S("none"), "FileFaults": S("none"), "MaxEntries": 6}, "FALSE", sim=c.pick(1500, 15000), ops=14)
    dbs("random faults", {"Files": S("a.cpp", "/s/b.cpp", "c d.cpp", "A.cpp"), "Dirs": S(*DIR), "Outs": S(*OUTS), "Faults": S("none", "none", *FAULTS), "FileFaults": S(*FF), "MaxEntries": 3}, "FALSE", sim=c.pick(600, 6000), ops=8)
