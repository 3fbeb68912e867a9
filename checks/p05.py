"""P05: path interning. Spec: PathIntern."""
from vf.core import *

# what the abstract names stand for
STYLES = [{"a": "a", "b": "b"}, {"a": "...", "b": ".a"}, {"a": "a b", "b": "..b"}, {"a": "é文", "b": "e\u0301文"},
          {"a": "A", "b": "a"}, {"a": "a\\b", "b": "C:"}, {"a": "-", "b": " "}, {"a": "x" * 255, "b": "x" * 254}, {"a": "a\nb", "b": "a\tb"}]

def judge(c, h, o, style):
    nm = lambda s: style.get(s, s)
    raw = [ "/".join(map(nm, x["path"])) for x in h]
    def bad(w, n):
        c.violation("%s after interning %s" % (w, json.dumps(raw[:n + 1])[-400:]), {"paths": raw, "obs": o})
    if "steps" not in o: return bad("crash: %s" % json.dumps(o)[:200], len(h))
    for n, (x, st) in enumerate(zip(h, o["steps"])):
        if x["ans"] == -1:
            if not isinstance(st["r"], list) or not st["r"][0].startswith("RelativePath("): return bad("%r gave %s instead of a relative path error" % (raw[n], st["r"]), n)
        elif st["r"] != x["ans"]: return bad("%r got key %s instead of %s" % (raw[n], st["r"], x["ans"]), n)
        exp = [[nm(s) for s in k] for k in x["table"]]
        for k, t in zip(exp, st["table"]):
            text = "/" + "/".join(k[1:])
            if t[0] != k: return bad("components read back as %s instead of %s" % (t[0], k), n)
            if t[1] != text or t[2] != text: return bad("path reads back as %r, %r instead of %r" % (t[1], t[2], text), n)
            if not t[3]: return bad("components of %r read backwards differ" % text, n)
        if len(exp) != len(st["table"]): return bad("%s keys instead of %s" % (len(st["table"]), len(exp)), n)
        if st["clash"]: return bad("component keys are not a bijection", n)
        if st["len"] != len(exp) or st["empty"] != (not exp): return bad("%s paths counted instead of %s" % (st["len"], len(exp)), n)
        if st["comps"] != x["comps"]: return bad("%s components counted instead of %s" % (st["comps"], x["comps"]), n)
        if st["max"] != (x["max"] if x["max"] >= 0 else None): return bad("longest path %s instead of %s" % (st["max"], x["max"]), n)
        # names that only occurred under a ".." may or may not be counted
        if not x["uniq"] <= st["uniq"] <= x["seen"]: return bad("%s distinct components counted instead of %s..%s" % (st["uniq"], x["uniq"], x["seen"]), n)
    last = ["/" + "/".join(nm(s) for s in k[1:]) for k in h[-1]["table"]]
    if o["final"] != last: return bad("finalized paths read %s" % o["final"], len(h))

def run(c):
    hb = build_harness()
    INV = "INVARIANTS Rooted Idempotent Distinct Faithful\nPROPERTIES Stable RelativeIsNothing\n"
    def go(name, names, segs, ops, sim=None, styles=STYLES):
        r = tlc("PathIntern", "SPECIFICATION Spec\nACTION_CONSTRAINT Emit\n" + INV, {"Names": "{" + ", ".join('"%s"' % x for x in names) + "}", "MaxSegs": segs, "MaxOps": ops},
                simulate=sim, depth=ops + 1, seed=c.sub_seed(name), timeout=1500)
        c.tlc_done(r, sim=sim is not None)
        c.cov.setdefault("runs", {})[name] = len(r.lines)
        for k, style in enumerate(styles):
            mine = r.lines[k::len(styles)] if len(r.lines) > 30000 else r.lines
            obs = Harness([hb, "paths"], timeout=120).batch({"ops": ["/".join(style.get(s, s) for s in x["path"]) for x in h]} for h in mine)
            for h, o in zip(mine, obs): judge(c, h, o, style); c.count()
        if r.lines: c.sample(["/".join(x["path"]) for x in r.lines[-1]])
    go("one", "ab", c.pick(5, 6), 1)
    go("two", "ab", c.pick(3, 3), 2)
    if c.tier == "thorough": go("two-long", "a", 4, 2)
    c.cov["exhaustive"] = True
    go("long", "ab", 6, 12, sim=c.pick(300, 3000))
    go("many names", "abcdefghijklm", 3, 60, sim=c.pick(10, 100), styles=[{}, {x: x * 20 for x in "abcdefghijklm"}])
