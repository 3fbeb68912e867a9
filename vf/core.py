"""Common machinery: building, running TLC, talking to the harness, evidence."""
import json, os, subprocess, sys, time, tempfile, shutil, threading, queue, signal, hashlib, random, atexit

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPECS = os.path.join(ROOT, "specs")
TARGET = os.path.join(ROOT, "target")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
WORKERS = min(8, os.cpu_count() or 4)

class ToolError(Exception):
    """Something in the machinery (not in the code under test) went wrong."""

def cargo_env():
    e = dict(os.environ)
    e["HOME"] = "/root"
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "1"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""
    e["CARGO_PROFILE_DEV_DEBUG"] = "line-tables-only"
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    return e

def run_build(cmd, env, what):
    r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ToolError("building %s failed:\n%s" % (what, r.stdout[-4000:]))

HOOK_FLAGS = "--cfg crofiler_verif"

def build_harness(binary="h"):
    """Harness over the public API of the library crates (hooks off)."""
    env = cargo_env()
    run_build(["cargo", "build", "--offline", "--quiet", "--manifest-path", ROOT + "/harness/Cargo.toml",
               "--target-dir", TARGET + "/harness", "--bin", binary], env, "harness")
    return TARGET + "/harness/debug/" + binary

def build_hooked(binary="hq"):
    """Harness over cmakeperf with the verification hooks on."""
    env = cargo_env()
    env["RUSTFLAGS"] = HOOK_FLAGS
    run_build(["cargo", "build", "--offline", "--quiet", "--manifest-path", ROOT + "/hooked/Cargo.toml",
               "--target-dir", TARGET + "/hooked", "--bin", binary], env, "hooked harness")
    return TARGET + "/hooked/debug/" + binary

def build_bin(name):
    """A binary of the repository itself (hooks off)."""
    env = cargo_env()
    run_build(["cargo", "build", "--offline", "--quiet", "--manifest-path", REPO + "/Cargo.toml",
               "--target-dir", TARGET + "/repo", "-p", name, "--bin", name], env, name)
    return TARGET + "/repo/debug/" + name

_scratch = []
def scratch(prefix="vf"):
    d = tempfile.mkdtemp(prefix=prefix + "-", dir="/tmp")
    _scratch.append(d)
    return d
def _cleanup():
    for d in _scratch:
        if d.startswith("/tmp/"):
            shutil.rmtree(d, ignore_errors=True)
atexit.register(_cleanup)

# --------------------------------------------------------------------------- TLC

class TlcResult:
    def __init__(self):
        self.lines = []          # emitted JSON values
        self.states = 0
        self.distinct = 0
        self.transitions = 0
        self.violated = None     # name of the violated invariant/property/postcondition
        self.output = ""
        self.traces = 0
        self.depth = 0

def tlc(module, cfg, consts=None, simulate=None, depth=None, seed=None, workers=None, timeout=600,
        emit=True, on_line=None, env=None, heap="6g", extra=(), deadlock=False, coverage=False):
    """Run TLC on specs/<module>.tla. cfg: text of the configuration.

    Lines printed by the spec with PrintT(ToJson(..)) are collected (or passed to on_line).
    Returns a TlcResult; raises ToolError if TLC itself fails (parse error, crash, timeout).
    A violated invariant or property is reported in .violated.
    """
    t0 = time.time()
    wd = scratch("tlc")
    for f in os.listdir(SPECS):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPECS, f), wd)
    body = cfg
    if consts:
        body += "\nCONSTANTS\n" + "\n".join("  %s = %s" % kv for kv in consts.items()) + "\n"
    open(os.path.join(wd, "M.cfg"), "w").write(body)
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-Dfile.encoding=UTF-8", "-Dsun.stdout.encoding=UTF-8", "-Dstdout.encoding=UTF-8", "-cp", JAR,
           "tlc2.TLC", "-config", "M.cfg", "-metadir", os.path.join(wd, "states"), "-noGenerateSpecTE",
           "-workers", str(workers or 1)]
    if simulate is not None:
        cmd += ["-simulate", "num=%d" % simulate]
        if depth: cmd += ["-depth", str(depth)]
        cmd += ["-seed", str(seed if seed is not None else 1)]
    if not deadlock:
        cmd += ["-deadlock"]   # (TLC: *disables* deadlock checking)
    if coverage:
        cmd += ["-coverage", "1"]
    cmd += list(extra) + [module + ".tla"]
    e = dict(os.environ); e.update(env or {})
    e["LC_ALL"] = "C.UTF-8"
    p = subprocess.Popen(cmd, cwd=wd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e,
                         start_new_session=True)
    res = TlcResult()
    out = []
    timer = threading.Timer(timeout, lambda: os.killpg(p.pid, signal.SIGKILL))
    timer.start()
    try:
        for raw in p.stdout:
            line = raw.decode("utf-8", "replace").rstrip("\n")
            if line.startswith('"{') or line.startswith('"['):
                if emit:
                    v = json.loads(json.loads(line))
                    if on_line: on_line(v)
                    else: res.lines.append(v)
                continue
            out.append(line)
            if len(out) > 20000: del out[:10000]
    finally:
        p.wait()
        alive = timer.is_alive()
        timer.cancel()
    res.output = "\n".join(out)
    if not alive:
        raise ToolError("TLC timed out on " + module)
    import re
    for l in out:
        m = re.match(r"^([\d,]+) states generated, ([\d,]+) distinct states found", l)
        if m:
            res.transitions = int(m.group(1).replace(",", "")); res.distinct = int(m.group(2).replace(",", ""))
        m = re.search(r"The depth of the complete state graph search is (\d+)", l)
        if m: res.depth = int(m.group(1))
        m = re.search(r"The number of states generated: ([\d,]+)", l)
        if m: res.transitions = int(m.group(1).replace(",", ""))
        m = re.search(r"Generated (\d+) traces|(\d+) traces generated", l)
        m = re.search(r"Invariant (\S+) is violated|Action property (\S+) is violated|Temporal properties were violated|Deadlock reached|Assumption .* is false|[Pp]ostcondition (\S*).*(violated|false)", l)
        if m: res.violated = next((g for g in m.groups() if g), l)
    if p.returncode != 0 and not res.violated:
        raise ToolError("TLC failed on %s (rc=%s):\n%s" % (module, p.returncode, res.output[-3500:]))
    shutil.rmtree(wd, ignore_errors=True)
    if os.environ.get("VF_DEBUG"):
        print("tlc %s %s: %.1f s, %d distinct, %d emitted" % (module, consts and {k: str(v)[:60] for k, v in consts.items()}, time.time() - t0, res.distinct, len(res.lines)), file=sys.stderr, flush=True)
    return res

# ----------------------------------------------------------------------- harness

class Harness:
    """Line-oriented JSON server process around the code under test."""
    def __init__(self, argv, timeout=30, env=None, cwd=None):
        self.argv, self.timeout, self.env, self.cwd = argv, timeout, env, cwd
        self.p = None
    def start(self):
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen(self.argv, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.err, env=self.env, cwd=self.cwd, start_new_session=True)
    def close(self):
        if self.p:
            try: os.killpg(self.p.pid, signal.SIGKILL)
            except ProcessLookupError: pass
            self.p.wait(); self.p = None
    def batch(self, cases, timeout=None):
        """Run all cases, in order; returns list of results. A case that hangs or kills the
        process yields {"crash": reason}; after a few that hang, the others are not tried."""
        res = []; hangs = 0
        i = 0
        cases = list(cases)
        while i < len(cases):
            if self.p is None: self.start()
            todo = cases[i:]
            def feed(p=self.p, todo=todo):
                try:
                    for c in todo:
                        p.stdin.write(json.dumps(c).encode() + b"\n")
                    p.stdin.flush()
                    p.stdin.close()
                except (BrokenPipeError, ValueError, OSError): pass
            th = threading.Thread(target=feed, daemon=True); th.start()
            q = queue.Queue()
            def read(p=self.p):
                for l in p.stdout: q.put(l)
                q.put(None)
            rt = threading.Thread(target=read, daemon=True); rt.start()
            n = 0
            crash = None
            while n < len(todo):
                try: l = q.get(timeout=timeout or self.timeout)
                except queue.Empty: crash = "no answer within %ss" % (timeout or self.timeout); hangs += 1; break
                if l is None:
                    rc = self.p.wait()
                    self.err.seek(0)
                    crash = "process ended (%s): %s" % (rc, self.err.read()[-400:].decode("utf-8", "replace")); break
                res.append(json.loads(l)); n += 1
            self.close()
            i += n
            if crash:
                res.append({"crash": crash}); i += 1
            if hangs == 3:
                res += [{"crash": "not tried: " + crash} for _ in cases[i:]]; break
        return res

# ------------------------------------------------------------------------- check

class Check:
    def __init__(self, pid, level="model_checking"):
        self.id = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.level = level
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.violations = []
        self.assumptions = []
        self.spec_errors = []
        self.known = load_known(pid)
        self.known_hit = set()
        self.dir = os.path.join(ROOT, "replays")
        os.makedirs(self.dir, exist_ok=True)
    @property
    def thorough(self): return self.tier == "thorough"
    def pick(self, quick, thorough): return thorough if self.thorough else quick
    def sub_seed(self, tag): return (self.seed * 7919 + int(hashlib.md5(tag.encode()).hexdigest()[:6], 16)) % (1 << 30)
    def rng(self, tag): return random.Random(self.sub_seed(tag))
    def tlc_done(self, r, sim=False):
        self.cov["states"] += r.distinct or (r.transitions if sim else 0)
        self.cov["transitions"] += r.transitions
        if r.violated:
            raise ToolError("the specification itself violates %s:\n%s" % (r.violated, r.output[-3000:]))
    def sample(self, s, limit=6):
        if len(self.cov["samples"]) < limit: self.cov["samples"].append(s)
    def count(self, n=1): self.cov["traces_validated_against_impl"] += n
    def add(self, key, n=1): self.cov[key] = self.cov.get(key, 0) + n
    def violation(self, what, replay):
        """what: one line; replay: anything JSON-able that reproduces it."""
        for k in self.known:
            if k["match"] in what:
                self.known_hit.add(k["match"]); return
        self.violations.append((what, replay))
    def expect(self, cond, what, replay):
        if not cond: self.violation(what, replay)
        return cond
    def finish(self):
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.id, k["what"]))
        ev = {"property": self.id, "tier": self.tier if self.tier in ("quick", "thorough") else "quick", "seed": self.seed, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(ROOT + "/evidence", exist_ok=True)
        with open(ROOT + "/evidence/%s.json" % self.id, "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        if self.violations:
            path = os.path.join(self.dir, "%s.json" % self.id)
            with open(path, "w") as f:
                json.dump([{"what": w, "replay": r} for w, r in self.violations[:20]], f, indent=1, ensure_ascii=False, default=str)
            for w, _ in self.violations[:5]: print("  " + w[:600])
            print("(%d violations)" % len(self.violations))
            print("VIOLATION property=%s replay=%s" % (self.id, path))
            return 1
        print("OK property=%s states=%d transitions=%d traces=%d wall=%.1fs" % (
            self.id, self.cov["states"], self.cov["transitions"], self.cov["traces_validated_against_impl"], time.time() - self.t0))
        return 0

def load_known(pid):
    path = os.path.join(ROOT, "known-findings.json")
    if not os.path.exists(path): return []
    return [k for k in json.load(open(path)).get("findings", []) if k["property"] == pid]
