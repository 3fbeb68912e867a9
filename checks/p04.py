"""P04: interning of items and sequences. Specs: ItemIntern, SeqIntern."""
from vf.core import *

KEYS = {"spur8": (8, 2**31 - 1), "small": (3, 255), "tiny": (2, 24)}
IKEYS = {"spur": 2**31 - 1, "micro": 255, "tiny3": 3}

def setlit(a, b): return "{" + ", ".join(map(str, range(a, b + 1))) + "}"

def scale(h, block):
    """The same history with each item replaced by a block of items."""
    if block == 1: return h
    blow = lambda seq: [y for x in seq for y in [x] * (block - 1) + [x + 100]]
    out = []
    for op in h:
        op = dict(op); x = dict(op["obs"])
        x["table"] = [blow(t) for t in x["table"]]; x["items"] *= block
        if x["max"] > 0: x["max"] *= block
        op["obs"] = x
        if op["op"] == "intern": op["arg"] = blow(op["arg"])
        if op["op"] == "push":
            for j, y in enumerate(blow(op["arg"])): out.append({**op, "arg": [y], "elen": op["elen"] * block - block + j + 1})
        elif op["op"] == "pop" and op["ans"] != -1:
            for j, y in enumerate(reversed(blow([op["ans"]]))): out.append({**op, "ans": y, "elen": op["elen"] * block + block - 1 - j})
        else: op["elen"] *= block; out.append(op)
    return out

def judge_seq(c, key, h, o):
    def bad(w, n):
        hist = [[x["op"], x["arg"]] for x in h[:n + 1]]
        c.violation("%s (%s keys) after %s" % (w, key, json.dumps(hist)[-400:]), {"key": key, "history": hist, "obs": o})
    if "steps" not in o: return bad("crash: %s" % json.dumps(o)[:200], len(h))
    si = 0; inner = None
    names = []     # names the harness gave to keys, in order of the spec's keys
    for n, op in enumerate(h):
        st = o["steps"][si] if si < len(o["steps"]) else None
        if op["op"] == "begin": inner = 0; continue
        if op["op"] in ("push", "pop"):
            i = st["inner"]
            if inner >= len(i): return bad("crash in an entry", n)
            got = i[inner]; inner += 1
            if op["op"] == "pop":
                exp = None if op["ans"] == -1 else op["ans"]
                if got[0] != exp: return bad("pop returned %s instead of %s" % (got[0], exp), n)
            if got[1] != op["elen"] or got[2] != (op["elen"] == 0): return bad("entry length %s instead of %s" % (got[1], op["elen"]), n)
            continue
        si += 1
        r = st["r"]
        if op["op"] == "abandon":
            if r is not None: return bad("abandoning crashed", n)
        elif op["ans"] == -1:
            if not isinstance(r, dict): return bad("a sequence whose key does not fit was given key %s" % r, n)
        else:
            if isinstance(r, dict): return bad("interning refused: %s" % r, n)
            # same name iff same key; the spec numbers keys in order of creation, and so does the harness
            if r != op["ans"]: return bad("key %s instead of %s: equal keys must mean equal sequences" % (r, op["ans"]), n)
        x = op["obs"]
        if st["table"] != x["table"]: return bad("keys resolve to %s instead of %s" % (st["table"], x["table"]), n)
        if st["len"] != x["len"] or st["empty"] != (x["len"] == 0): return bad("%s sequences reported instead of %s" % (st["len"], x["len"]), n)
        if st["items"] != x["items"]: return bad("%s items reported instead of %s" % (st["items"], x["items"]), n)
        if st["max"] != (x["max"] if x["max"] >= 0 else None): return bad("longest sequence %s instead of %s" % (st["max"], x["max"]), n)
    closed = [op for op in h if op["op"] in ("intern", "commit", "abandon")]
    if closed and o["final"] != closed[-1]["obs"]["table"]: return bad("after finalization keys resolve to %s" % o["final"], len(h))

def seq_ops(h): return [[op["op"], op["arg"][0] if op["op"] == "push" else op["arg"]] for op in h]

def judge_item(c, key, h, o):
    def bad(w, n):
        c.violation("items: %s (%s keys) after %s" % (w, key, [x["arg"] for x in h[:n + 1]][-60:]), {"key": key, "history": [x["arg"] for x in h], "obs": o})
    if "steps" not in o: return bad("crash: %s" % json.dumps(o)[:200], len(h))
    known = []
    for n, (op, st) in enumerate(zip(h, o["steps"])):
        if op["ans"] == -1:
            if not isinstance(st["r"], dict): return bad("an item whose key does not fit was given key %s" % st["r"], n)
        else:
            if st["r"] != op["ans"]: return bad("key %s instead of %s" % (st["r"], op["ans"]), n)
            if op["ans"] == len(known): known.append(str(op["arg"]))
        if st["table"] != known: return bad("keys resolve to %s" % st["table"], n)
        if st["len"] != op["len"] or st["empty"] != (op["len"] == 0): return bad("length %s" % st["len"], n)
    if o["final"] != known: return bad("after finalization keys resolve to %s" % o["final"], len(h))

def run(c):
    hb = build_harness()
    H = lambda mode: Harness([hb, mode], timeout=120)
    SPEC = "SPECIFICATION Spec\nACTION_CONSTRAINT Emit\n"
    INV = "INVARIANTS KeysBijective NoCollision NoResidue\nPROPERTIES Stable AbandonIsNothing\n"
    def seqs(n, key, items, maxlen, build, ops, sim=None, inv=True, block=1):
        lb, cap = KEYS[key] if block == 1 else (2, 2**22)
        r = tlc("SeqIntern", SPEC + (INV if inv else ""), {"Items": setlit(0, items - 1), "MaxLen": maxlen, "MaxBuild": build, "MaxOps": ops, "LenBits": lb, "Cap": cap},
                simulate=sim, depth=ops + 1, seed=c.sub_seed(n), timeout=1500)
        c.tlc_done(r, sim=sim is not None)
        c.cov.setdefault("runs", {})[n] = len(r.lines)
        hs = [scale(x, block) for x in r.lines]
        obs = H("sequences").batch({"key": key, "ops": seq_ops(x)} for x in hs)
        for x, o in zip(hs, obs): judge_seq(c, key, x, o); c.count()
        if r.lines: c.sample({"key": key, "history": seq_ops(r.lines[-1])[:40]})
    seqs("short", "spur8", 2, 2, 3, c.pick(6, 7))
    seqs("short-small", "tiny", 1, 3, 4, c.pick(7, 9))
    c.cov["exhaustive"] = True
    seqs("long", "spur8", 3, 3, 4, 120, sim=c.pick(60, 600))
    seqs("long-small", "small", 2, 3, 9, 60, sim=c.pick(200, 3000))
    seqs("long-tiny", "tiny", 2, 3, 5, 40, sim=c.pick(400, 5000))
    # blocks of 64 items: sequences of 192 items have a key of the default type, those of 256 do not
    seqs("blocks", "spur8", 2, 4, 5, 40, sim=c.pick(60, 400), block=64)
    def items(n, key, num, ops, sim=None):
        r = tlc("ItemIntern", SPEC + "INVARIANTS KeysBijective Bounded\nPROPERTIES Stable\n", {"Items": setlit(1, num), "MaxOps": ops, "Cap": IKEYS[key]},
                simulate=sim, depth=ops + 1, seed=c.sub_seed(n), timeout=1500)
        c.tlc_done(r, sim=sim is not None)
        c.cov.setdefault("runs", {})["items " + n] = len(r.lines)
        obs = H("items").batch({"key": key, "ops": [["intern", str(x["arg"])] for x in h]} for h in r.lines)
        for x, o in zip(r.lines, obs): judge_item(c, key, x, o); c.count()
    items("short", "tiny3", 4, c.pick(6, 7))
    items("mid", "spur", 40, 120, sim=c.pick(40, 300))
    items("full", "micro", 400, 500, sim=c.pick(4, 20))
