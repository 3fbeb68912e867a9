"""P06: C++ names. Spec: CppNames."""
import collections, subprocess, sys
from vf.core import *
from vf.tui import Tui, Bad

GAPS = {"plain": ("", " "), "spaced": (" ", "  "), "tabs": ("\t ", " \n")}
def spell(src, gap, rng=None):
    """The spelling with ` (optional) and ~ (mandatory) white space; ; is a tilde."""
    out = []; i = 0
    while i < len(src):
        ch = src[i]
        g = gap if gap != "mixed" else rng.choice(list(GAPS))
        out.append(GAPS[g][0] if ch == "`" else GAPS[g][1] if ch == "~" else "~" if ch == ";" else ch); i += 1
    return "".join(out)

def width(s): return len(s)   # derived names are made of ASCII characters and ellipses

def judge_name(c, name, x, st, bad):
    """One name read in a session: x is what the spec derives, st what happened."""
    if "panic" in st: return bad("reading %r crashed: %s" % (name, st["panic"]))
    if x["ok"] is False:
        if "err" not in st: return bad("%r is not a name but was read as %r" % (name, st["ok"]))
        return True
    if x["ok"] is True:
        if "err" in st: return bad("%r could not be read: %s" % (name, st["err"]))
        lv = x["levels"]
        if st["ok"] != lv[-1]: return bad("%r reads as %r instead of %r" % (name, st["ok"], lv[-1]))
        if st["depth"] != len(lv) - 1: return bad("%r advertises nesting depth %s instead of %s" % (name, st["depth"], len(lv) - 1))
        if st["levels"][:len(lv)] != lv or st["levels"][len(lv)] != lv[-1]: return bad("%r displays as %s instead of %s" % (name, st["levels"], lv))
    if "err" in st: return True
    # true of anything that could be read
    lv = st["levels"]; lw = st["lw"]
    if lv[st["depth"]] != st["ok"] or lv[st["depth"] + 1] != st["ok"]: return bad("%r at depth %s reads %r, completely %r" % (name, st["depth"], lv[st["depth"]], st["ok"]))
    if st["depth"] > 0 and lv[st["depth"] - 1] == st["ok"]: return bad("%r is complete above the advertised depth" % name)
    for w, b, bw in st["bounded"]:
        if bw > w: return bad("%r in %s columns takes %s: %r" % (name, w, bw, b))
        fit = [lv[i] for i in range(st["depth"] + 1) if lw[i] <= w]
        exp = fit[-1] if fit else "…"
        if b != exp: return bad("%r in %s columns reads %r instead of %r" % (name, w, b, exp))
    return True

def displayed(c, names):
    """Profiles with these names are displayed by both user interfaces."""
    exe = build_bin("crofiler"); d = scratch("p06")
    ev = []; t = 50
    for i, (k, src, shown) in enumerate(names):
        ev.append({"ph": "X", "pid": 7, "tid": 7, "ts": t, "dur": 1000 + i, "name": "InstantiateFunction", "args": {"detail": src}}); t += 1000 + i
    ev.append({"ph": "M", "pid": 7, "tid": 7, "ts": 0, "cat": "", "name": "process_name", "args": {"name": "clang"}})
    file = d + "/deep.json"
    with open(file, "w") as f: json.dump({"traceEvents": ev, "beginningOfTime": 0}, f)
    bad = lambda w: c.violation("names with 150 nested parts: " + w, {"names": [k for k, _, _ in names]})
    p = subprocess.run([exe, "--ui", "stdio", "-s", "0", "-i", "0", "-c", "65535", file], stdin=subprocess.DEVNULL, capture_output=True, timeout=300)
    out = p.stdout.decode(errors="replace")
    if p.returncode != 0: bad("the report ends with %s: %s" % (p.returncode, p.stderr.decode(errors="replace")[-200:]))
    else:
        for k, src, shown in names:
            if "InstantiateFunction(%s) [" % shown not in out: bad("the report lacks that of kind %s" % k)
    # the same, in the terminal
    ui = Tui([exe, file], rows=len(names) + 20, cols=120)
    try:
        def all_there(s):
            n = sum("InstantiateFunction(" in l for l in s.lines())
            return None if n >= len(names) else "%d of %d names are displayed" % (n, len(names))
        ui.wait(all_there, 30)
        ui.key("q"); ui.wait(lambda s: None if "quit?" in s.text() else "no way to quit", 30)
        ui.key("enter")
        if not ui.ended(30) or ui.status != 0: raise Bad("the program ends with %s" % ui.status)
    except Bad as x: bad("in the terminal, %s" % x)
    finally: ui.close()
    c.count(); c.add("displayed_nests", len(names))

def run(c):
    hb = build_harness()
    IDS = '{"a", "b", "newt", "operator_x", "constant", "_Z9$", "int_", "decltypes"}'
    LITS = "{}"   # all
    ALL = ["id", "name", "dtor", "template", "voidtemplate", "operator", "decltype", "anonymous", "scope", "funscope", "root", "qualified", "builtin", "type", "cv", "attribute",
           "pointer", "reference", "array", "vector", "memberptr", "paren", "function", "sig", "sigextra", "literal", "value", "unary", "binary", "ternary", "call", "index", "member", "sizeof", "new"]
    def tset(l): return "{" + ", ".join('"%s"' % x for x in l) + "}"
    WIDTHS = list(range(1, 25)) + [30, 37, 45, 60, 80, 120, 65535]
    def judge_session(sess, names, o, fresh, n):
        what = {"session": names, "obs": o}
        bad = lambda w: (c.violation(w + "  [session %s]" % json.dumps(names)[:300], what), False)[1]
        if "steps" not in o: return bad("session crashed: %s" % json.dumps(o)[:200])
        for i, (x, name, st) in enumerate(zip(sess, names, o["steps"])):
            if not judge_name(c, name, x, st, bad): return
            f = fresh.get(name)
            if f is not None and f != st: return bad("%r reads %s in a new session, but %s here" % (name, json.dumps(f)[:200], json.dumps(st)[:200]))
        ok = {i: st["ok"] for i, st in enumerate(o["steps"]) if "ok" in st}
        if o["later"] != [[i, s] for i, s in sorted(ok.items())]: return bad("names read differently later: %s" % json.dumps(o["later"])[:300])
        # derived names: same key iff same complete display
        eq = set(map(tuple, o["eq"]))
        bysame = [e for e in eq if e[0] == "views disagree"]
        if bysame: return bad("keys and names disagree on equality: %s" % bysame)
        der = [i for i in ok if sess[i]["ok"] is True]
        for i in der:
            for j in der:
                if i < j and ((i, j) in eq) != (ok[i] == ok[j]):
                    return bad("%r and %r have %s keys" % (names[i], names[j], "the same" if (i, j) in eq else "different"))
    def play(tag, r, gaps, merge):
        """merge: put that many single names in one session"""
        rng = c.rng("spell" + tag)
        sessions = r.lines
        if merge:
            flat = [x for s in sessions for x in s]
            rng.shuffle(flat)
            sessions = [flat[i:i + merge] for i in range(0, len(flat), merge)]
        plain = {}
        cases = []
        for s in sessions:
            for g in gaps:
                cases.append((s, [spell(x["src"], g, rng) for x in s]))
        if gaps and sessions:   # also: every spelling of a name in one session
            cases += [([x for x in s for _ in gaps], [spell(x["src"], g, rng) for x in s for g in gaps]) for s in sessions[:400]]
        # the same names, each in a session of its own
        lone = sorted({n for _, ns in cases for n in ns})
        if len(lone) > 6000: rng.shuffle(lone); lone = lone[:6000]
        obs1 = Harness([hb, "cpp"], timeout=60).batch({"names": [n], "widths": WIDTHS} for n in lone)
        fresh = {n: o["steps"][0] for n, o in zip(lone, obs1) if "steps" in o}
        obs = Harness([hb, "cpp"], timeout=60).batch({"names": ns, "widths": WIDTHS} for _, ns in cases)
        for (s, ns), o in zip(cases, obs):
            judge_session(s, ns, o, fresh, len(s)); c.count()
        c.cov.setdefault("names", {})[tag] = sum(len(ns) for _, ns in cases)
        if os.environ.get("VF_DEBUG"): print(tag, len(lone), "distinct names, mean length", sum(map(len, lone)) // max(1, len(lone)), collections.Counter(str(x["ok"]) for s, _ in cases for x in s), file=sys.stderr)
        if cases: c.sample(cases[-1][1][:6])
    CFG = "ACTION_CONSTRAINT Emit\n"
    def one(tag, constructs, ids, lits, ops, reads=1, stack=4, size=80):
        r = tlc("CppNames", "SPECIFICATION SpecOne\nINVARIANTS DepthIsExact\n" + CFG, {"Ids": ids, "Literals": lits, "Random": "FALSE", "MaxOps": ops, "MaxReads": reads, "MaxSize": size, "MaxStack": stack, "Constructs": tset(constructs)}, timeout=1500)
        c.tlc_done(r); play(tag, r, ["plain", "spaced"], 12)
    AB, A, L1 = '{"a", "b"}', '{"a"}', '{"1"}'
    one("scopes and templates", ["id", "name", "template", "scope", "root", "qualified", "type"], A, L1, c.pick(9, 12))
    one("functions", ["id", "name", "qualified", "type", "sig", "function", "funscope", "builtin", "pointer"], A, L1, c.pick(5, 6))
    one("types", ["builtin", "pointer", "reference", "array", "paren", "sig", "function", "cv", "sigextra"], A, L1, c.pick(4, 5))
    one("values", ["id", "name", "qualified", "value", "literal", "binary", "call", "decltype", "type", "index"], A, L1, c.pick(7, 8))
    # every construct around one that is deep: the depth of each part counts
    one("deep parts", ["deep"] + [x for x in ALL if x not in ("id", "anonymous", "builtin", "literal", "root")], A, L1, c.pick(3, 4))
    c.cov["exhaustive"] = True
    def many(tag, constructs, num, reads, ops, size, stack):
        r = tlc("CppNames", "SPECIFICATION Spec\nINVARIANTS DepthIsExact\n" + CFG, {"Ids": IDS, "Literals": LITS, "Random": "TRUE", "MaxOps": ops, "MaxReads": reads, "MaxSize": size, "MaxStack": stack, "Constructs": tset(constructs)},
                simulate=num, depth=reads * ops * 4, seed=c.sub_seed(tag), timeout=1500)
        c.tlc_done(r, sim=True); play(tag, r, ["plain", "spaced", "mixed"], 0)
    many("everything", ALL, c.pick(400, 1500), 8, 40, 160, 6)
    many("types only", [x for x in ALL if x not in ("decltype", "value", "unary", "binary", "ternary", "call", "index", "member", "sizeof", "new", "vector", "attribute")], c.pick(250, 800), 8, 30, 120, 5)
    many("values only", ["id", "name", "template", "scope", "qualified", "type", "literal", "value", "unary", "binary", "ternary", "call", "index", "member", "sizeof", "new", "decltype", "builtin"], c.pick(250, 800), 8, 40, 160, 5)
    # names that get longer and longer, sessions that get bigger and bigger
    def text(pieces):
        out = []; i = 0
        for t, k in pieces:
            if "#" in t:
                for _ in range(k): out.append(t.replace("#", str(i))); i += 1
            else: out.append(t * k)
        return "".join(out).replace("%", "#")
    forms = tset(["id", "template", "pair", "call", "sum", "params", "scopes", "index", "array", "lambda"])
    starts = c.pick([0, 30, 62, 126, 254, 510, 1022, 2046, 4094], [0, 14, 30, 62, 126, 254, 510, 1022, 2046, 4094, 8190, 16382, 65534])
    r = tlc("LongNames", "SPECIFICATION Spec\nINVARIANTS NothingLeftOut\n" + CFG, {"Span": 4, "Starts": "{" + ", ".join(str(max(1, s)) for s in starts) + "}", "Counts": "{1}", "Forms": forms}, timeout=600)
    c.tlc_done(r)
    def lengthy(lines, what, widths):
        cases = [(x, text(x["src"]), [text(l) for l in x["levels"]]) for x in lines]
        obs = Harness([hb, "cpp"], timeout=60).batch({"names": [src, src], "widths": widths} for x, src, lv in cases)
        for (x, src, lv), o in zip(cases, obs):
            bad = lambda w: (c.violation("a name with %d %s (%s): %s" % (x["n"], what, x["kind"], w[:300]), {"case": x, "obs": json.dumps(o)[:2000]}), False)[1]
            if "steps" not in o: bad("session crashed: %s" % json.dumps(o)); continue
            if any("panic" in st for st in o["steps"]): bad("crashed: %s" % str([st.get("panic") for st in o["steps"]])); continue
            if all(judge_name(c, src[:40] + "...", {"ok": True, "levels": lv}, st, bad) for st in o["steps"]):
                if o["eq"] != [[0, 1]]: bad("read twice, gets two keys")
            c.count()
        return cases
    cases = lengthy(r.lines, "components", [1, 4, 20, 200, 4000, 65535])
    c.cov["long names"] = {"cases": len(cases), "longest": max(x["n"] for x, _, _ in cases)}
    # names that are nested deeper and deeper
    def nests(starts, cfg): return tlc("LongNames", "SPECIFICATION SpecNest\n" + cfg, {"Span": c.pick(2, 3), "Starts": "{" + ", ".join(map(str, starts)) + "}", "Counts": "{1}", "Forms": forms}, timeout=600)
    r = nests(c.pick([1, 5, 14, 22, 62, 160], [1, 3, 5, 8, 14, 18, 22, 30, 62, 126, 254, 400]), "INVARIANTS NestsGrow\nACTION_CONSTRAINT EmitNest\n"); c.tlc_done(r)
    cases = lengthy(r.lines, "nested parts", [1, 4, 9, 20, 60, 200, 65535])
    c.cov["nested names"] = {"cases": len(cases), "deepest": max(x["n"] for x, _, _ in cases)}
    # in both user interfaces, whose stacks are not as generous as the harness's (this build of them is not optimized)
    r = nests([149], "ACTION_CONSTRAINT EmitDeep\n"); c.tlc_done(r)
    displayed(c, [(x["kind"], text(x["src"]), text(x["shown"])) for x in r.lines if x["n"] == 150 and x["kind"] not in ("mixed", "operator")])
    r = tlc("LongNames", "SPECIFICATION SpecSession\nACTION_CONSTRAINT EmitSession\n", {"Span": 1, "Starts": "{1}", "Counts": c.pick("{300, 1500, 20000}", "{10, 70, 300, 1500, 5000, 20000, 70000, 140000}"), "Forms": forms}, timeout=600)
    c.tlc_done(r)
    big = [x for x in r.lines if x["count"] <= 20000 or x["form"] == "id" or c.thorough]
    cases = [{"names": [x["src"].replace("#", str(i)) for i in range(x["count"])]} for x in big]
    for x, case, o in zip(big, cases, Harness([hb, "cppbig"], timeout=c.pick(150, 600)).batch(iter(cases))):
        bad = lambda w: c.violation("a session of %d names like %r: %s" % (x["count"], x["src"], w[:300]), {"case": x})
        if "stopped" in o: bad("%r: %s" % (case["names"][o["stopped"]], json.dumps(o["why"])))
        elif "shown" not in o: bad("crashed: %s" % json.dumps(o))
        else:
            exp = [x["shown"].replace("#", str(i)) for i in range(x["count"])]
            wrong = [(a, b) for a, b in zip(o["shown"], exp) if a != b]
            if wrong: bad("reads %r instead of %r" % wrong[0])
            elif o["again"]: bad("%r gets another key when read again" % case["names"][o["again"][0][0]])
            elif o["same"]: bad("%r gets the key of another name" % case["names"][o["same"][0]])
        c.count()
    c.cov["big sessions"] = [[x["form"], x["count"]] for x in big]
