"""P20: what is missing is reported, and sessions can be quit at any moment. Specs: BuildSession, ClangVersion."""
from checks.p12 import *

def versions(c, b):
    r0 = tlc("BuildSession", CFG, consts(NUnits=1, Setups=S("noclang", "fine"), TableKeys=S("esc"), Keys=S("esc"), Env=S("!start"), Profs=S("fresh")), timeout=300)
    start = {l["setup"][0]["setup"]: (l["setup"][0], l["screen"]) for l in r0.lines if l.get("setup")}
    jobs = []
    def play(name, **k):
        d = dict(Prefixes=S(""), Words=S("clang version "), Majors=S("14"), Minors=S(".0"), Rests=S(".0"), Before=S(""), After=S("target"), Ends=S("0")); d.update(k)
        r = tlc("ClangVersion", "SPECIFICATION Spec\nINVARIANTS OnlySuitable\n", d, timeout=300); c.tlc_done(r)
        seen = set()
        for x in r.lines:
            k = json.dumps(x, sort_keys=True)
            if k in seen: continue
            seen.add(k)
            setup, screen = start["fine" if x["verdict"]["ok"] else "noclang"]
            jobs.append((b, setup if x["verdict"]["ok"] else dict(setup, setup="fine"), [(screen if x["verdict"]["ok"] else dict(screen, why=x["verdict"]["why"]), None)], len(jobs), 50, True, x))
        c.cov.setdefault("versions", {})[name] = len(seen)
    play("numbers", Prefixes=S("", "Ubuntu "), Majors=S("0", "3", "8", "9", "10", "14", "99", "007", "009", "010", "99999999999999999999999", "", "x", "-9"), Minors=S(".0", ".14", "", ".", ".x", ",0"), Rests=c.pick(S("", ".1 (x 9.0)"), S("", ".0", ".1 (x 9.0)", "-1ubuntu1", "rc2", " (https://github.com/llvm/llvm-project 0123)")))
    play("words", Prefixes=S("", "Ubuntu ", "Apple ", "Android (dev, based on r1) "), Words=S("clang version ", "clang  version ", "Clang version ", "clang-", "version ", "g++ (GCC) ", "clang version: "), Majors=S("8", "9", "14"))
    play("surroundings", Majors=S("8", "14"), Before=S("", "blank", "warning", "noise", "notutf8"), After=S("", "target", "other", "notutf8"), Ends=S("0", "1", "127", "signal", "stderr", "missing", "forbidden"))
    # (a first line that seems to give the version of something older is not judged)
    jobs = [j for j in jobs if j[6]["before"] != "warning" or j[6]["end"] not in ("0", "stderr")]
    run_jobs(c, "clang versions", jobs)
    c.sample(jobs[3][6])

def run(c):
    b = build_bin("crofiler")
    versions(c, b)
    graph(c, b, "problems", Setups=S("nodb", "baddb", "noclang", "oldclang", "oddclang", "silentclang", "failclang", "nosource", "badprof", "fine"), Profs=S("none", "fresh", "m5"), Manual="{TRUE, FALSE}", NUnits=1, TableKeys=S("q"),
          TraceKeys=S("q"), Keys=S("enter", "esc", "right", "q", "ctrl-c", "h", "b"), Env=S("!start"), budget=c.pick(700, None))
    K = S("enter", "esc", "left", "right", "q", "ctrl-c", "h", "b", "u", "f", "down")
    graph(c, b, "quitting", NUnits=1, Profs=S("none", "fresh"), TraceStates=S("none"), Keys=K, TableKeys=S("enter"), TraceKeys=S("q", "h", "esc", "enter", "left", "right"), budget=c.pick(700, None))
    histories(c, b, "sessions", c.pick(40, 300), 40, NUnits=4, Setups=S("fine"), Profs=S("none", "fresh", "m5", "stale"), TraceStates=S("none", "m5", "stale"), Kinds=S("plain", "gone", "unlisted", "nooutput"), Manual="{TRUE, FALSE}", Timed="TRUE",
              TableKeys=S("enter", "down", "up", "end", "left", "right"), TraceKeys=S("esc", "enter", "down", "q", "b", "f", "h"), Keys=S("enter", "esc", "left", "right", "q", "ctrl-c", "h", "b", "u", "f", "down", "up", "end"))
    c.cov["exhaustive"] = True
    c.assumptions += ["compilers are scripts that do what the specification says, when it says so"]
