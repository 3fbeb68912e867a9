"""Driving a measured build of the real code, step by step."""
import shlex, socket, selectors, csv, re
from vf.core import *

def build_shim():
    out = TARGET + "/shim/meminfo.so"
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = "%s.%d" % (out, os.getpid())
    run_build(["gcc", "-shared", "-fPIC", "-O1", "-o", tmp, ROOT + "/harness/shim/meminfo.c", "-ldl"], dict(os.environ), "memory shim")
    os.replace(tmp, out)
    return out

MEMINFO = """MemTotal:       64000000 kB
MemFree:        %(kb)d kB
MemAvailable:   %(kb)d kB
Buffers:               0 kB
Cached:                0 kB
SwapCached:            0 kB
Active:                0 kB
Inactive:              0 kB
SwapTotal:             0 kB
SwapFree:              0 kB
Shmem:                 0 kB
SReclaimable:          0 kB
"""

class Bad(Exception):
    """The real code did something that the specification does not allow."""

class Conn:
    left = False      # whether the job that it belongs to is over
    def __init__(self, sock):
        self.sock, self.buf, self.hello, self.gone, self.replies, self.since = sock, b"", None, False, 0, None
    def order(self, text):
        try: self.sock.sendall(text.encode() + b"\n")
        except OSError: pass

class Build:
    """One measured build. `fates[i]` tells what is special about job i (see `entry`)."""
    def __init__(self, m, njobs, concurrency, measure_time=False, poll_ms=None, memory=None, shim=None, fates={}, extra=(), target="out.csv", shared_dir=False, on_hello=None, alone=False):
        self.dir = scratch("bld"); self.m = m; self.njobs = njobs; self.extra = list(extra); self.fates = fates
        self.path = self.dir + "/s"
        self.lis = socket.socket(socket.AF_UNIX); self.lis.bind(self.path); self.lis.listen(600)
        self.sel = selectors.DefaultSelector()
        self.sel.register(self.lis, selectors.EVENT_READ, None)
        self.log = []            # everything that was seen, in order of arrival
        self.step = 0
        self.conns = []          # jobs, in order of start
        self.progress = 0
        self.outcome = None
        self.outcomes = 0
        self.dropped = False
        self.exited = None
        self.cpus = None
        self.logs = []
        self.late = None
        self.on_hello = on_hello
        self.names = ["j%d" % i for i in range(1, njobs + 1)]
        os.mkdir(self.dir + "/src")
        self.cwd = {}
        for n in self.names:
            self.cwd[n] = self.dir + ("/wd" if shared_dir else "/wd/" + n)
            os.makedirs(self.cwd[n], exist_ok=True)
        os.mkdir(self.dir + "/bin")
        self.program = {n: self.designate(n, i) for i, n in enumerate(self.names, 1)}
        self.csv = self.dir + "/" + target if not target.startswith("/") else target
        entries = [self.entry(i) for i in range(1, njobs + 1)]
        with open(self.dir + "/scenario.json", "w") as f:
            json.dump({"entries": entries, "path": self.csv, "measure_time": measure_time, "concurrency": concurrency, "poll_ms": poll_ms}, f)
        self.timed = measure_time
        env = dict(os.environ, VF_TOKEN=self.dir); env["PATH"] = self.dir + "/bin:" + env.get("PATH", "/usr/bin:/bin")
        if shim:
            self.memory(memory if memory is not None else 1000000)      # plenty
            env["LD_PRELOAD"] = shim; env["VF_MEMINFO"] = self.dir + "/meminfo"
        self.p = subprocess.Popen([m, "measure", self.dir + "/scenario.json"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                  cwd=self.dir, env=env, start_new_session=True)
        self.pout = b""
        os.set_blocking(self.p.stdout.fileno(), False)
        self.sel.register(self.p.stdout, selectors.EVENT_READ, "out")
    def command(self, n):
        return [self.program[n], "job", self.path, n] + self.extra
    def designate(self, n, i):
        """The program of a job may be designated in several ways; what it is called under is what it was asked for."""
        if i % 4 == 0: return self.m
        os.symlink(self.m, self.dir + "/bin/cc-" + n)
        return [None, self.dir + "/bin/cc-" + n, "cc-" + n, os.path.relpath(self.dir + "/bin/cc-" + n, self.cwd[n])][i % 4]
    def entry(self, i):
        n = "j%d" % i
        e = {"directory": self.cwd[n], "file": "%s/src/%s.cpp" % (self.dir, n), "command": " ".join(map(shlex.quote, self.command(n)))}
        fate = self.fates.get(i)
        if fate == "noprog": e["command"] = ""
        elif fate == "nospawn": e["command"] = self.dir + "/missing-compiler -c"
        elif fate == "nodir": e["directory"] = self.dir + "/missing"
        return e
    def memory(self, mb):
        tmp = self.dir + "/meminfo.new"
        with open(tmp, "w") as f: f.write(MEMINFO % {"kb": mb * 1000000 // 1024})
        os.replace(tmp, self.dir + "/meminfo")
    # ------------------------------------------------------------ events
    def note(self, t, kind, **kw):
        self.log.append(dict(kw, t=round(t, 4), ev=kind, step=self.step))
    def line(self, v):
        k = v["ev"]; t = v["t"]
        if k == "progress":
            self.progress += 1; self.note(t, "progress")
            if self.outcome: self.late = "progress was reported after the outcome"
        elif k == "outcome":
            self.outcomes += 1; self.outcome = v; self.note(t, "outcome", text=v["debug"][:200])
        elif k == "dropped": self.dropped = True; self.note(t, "dropped")
        elif k == "cpus": self.cpus = v["n"]
        elif k == "log": self.logs.append(v)
        elif k == "panic": self.note(t, "panic", text=v["text"][:300])
    def pump(self, timeout, until=None):
        """Process what happens until `until` holds, or for a while. Returns whether it did."""
        end = time.monotonic() + timeout
        while True:
            if until is not None and until(): return True
            left = end - time.monotonic()
            evs = self.sel.select(max(0, left))
            if not evs and left <= 0: return until is not None and until()
            for key, _ in evs:
                if key.data is None:
                    s, _a = self.lis.accept(); s.setblocking(True)
                    c = Conn(s); self.sel.register(s, selectors.EVENT_READ, c)
                elif key.data == "out":
                    data = self.p.stdout.read() or b""
                    if not data:
                        self.sel.unregister(self.p.stdout); self.exited = True; continue
                    *lines, self.pout = (self.pout + data).split(b"\n")
                    for l in lines:
                        try: v = json.loads(l)
                        except ValueError: continue
                        self.line(v)
                else: self.talk(key.data)
    def talk(self, c):
        try: data = c.sock.recv(65536)
        except OSError: data = b""
        if not data:
            self.sel.unregister(c.sock); c.sock.close(); c.gone = True
            if c.hello: self.note(time.monotonic(), "gone", job=c.hello["args"][0])
            return
        *lines, c.buf = (c.buf + data).split(b"\n")
        for l in lines:
            v = json.loads(l)
            if c.hello is None:
                c.hello = v; c.since = self.step; self.conns.append(c)
                self.note(v["t"], "start", job=v["args"][0])
                if self.on_hello: self.on_hello(self, c)
            else: c.replies += 1
    def say(self, c, text, wait=25):
        n = c.replies
        c.order(text)
        if not self.pump(wait, lambda: c.replies > n or c.gone): raise Bad("a job is stuck while it does: " + text)
    # ------------------------------------------------------------ views
    def running(self): return [c for c in self.conns if not c.gone and "." not in self.job(c)]
    def job(self, c): return c.hello["args"][0]
    def family(self, c):
        """Processes below a job, the deepest first."""
        return [d for d in reversed(self.conns) if not d.gone and self.job(d).startswith(self.job(c) + ".")]
    def orphans(self):
        """Processes that a job which is over has left behind."""
        names = {self.job(c) for c in self.running()}
        return [self.job(d) for d in self.conns if not d.gone and not d.left and self.job(d).split(".")[0] not in names]
    def alive(self, left=False):
        """Job processes of this build that exist, with or without what jobs that ended have left behind."""
        res = []
        tok = self.path.encode(); off = () if left else {c.hello["pid"] for c in self.conns if c.left}
        for pid in os.listdir("/proc"):
            if pid.isdigit() and int(pid) != self.p.pid:
                try: cmd = open("/proc/%s/cmdline" % pid, "rb").read().split(b"\0")
                except OSError: continue
                if tok in cmd and int(pid) not in off: res.append(int(pid))
        return res
    def drop(self):
        self.note(time.monotonic(), "dropping")
        try: self.p.stdin.write(b"drop\n"); self.p.stdin.flush()
        except OSError: pass
    # ------------------------------------------------------------ judging
    def check_start(self):
        for c in self.conns:
            h = c.hello; n = h["args"][0]
            if n not in self.cwd: continue      # child of a job
            if h["args"] != [n] + self.extra: raise Bad("%s was given the arguments %r instead of %r" % (n, h["args"], [n] + self.extra))
            if h["argv0"] != self.program[n]: raise Bad("%s was run as %s instead of %s" % (n, h["argv0"], self.program[n]))
            if h["token"] != self.dir: raise Bad("%s was not given the environment of the measurement" % n)
            if h["stdin"] != "end": raise Bad("%s could wait for some input" % n)
            if os.path.realpath(h["cwd"]) != os.path.realpath(self.cwd[n]): raise Bad("%s was run in %s instead of %s" % (n, h["cwd"], self.cwd[n]))
    def check_csv(self):
        try: rows = list(csv.reader(open(self.csv, newline="")))
        except OSError as e: raise Bad("no profile was written (%s)" % e)
        want = sorted("src/%s.cpp" % n for n in self.names)
        if not self.names:
            if rows and rows != [["file", "max_rss", "time"]]: raise Bad("the profile of no job has rows %s" % rows)
            return
        if rows[:1] != [["file", "max_rss", "time"]]: raise Bad("profile header is %s" % rows[:1])
        got = sorted(r[0] for r in rows[1:])
        if got != want: raise Bad("the profile has rows for %s instead of %s" % (got, want))
        for r in rows[1:]:
            if (r[2] != "") != self.timed: raise Bad("row %s has %s wall time" % (r, "no" if self.timed else "a"))
            if self.timed and not 0 <= float(r[2]) < 600: raise Bad("row %s has a wall time which makes no sense" % r)
            int(r[1])
    def verdict(self):
        """Name of the outcome that was reported."""
        if self.outcome["ok"]: return "success"
        d = self.outcome["debug"]
        for pat, name in (("Err(Killed", "killed"), ("Err(OutOfMemory", "memory"), ("Err(Job(JobFailed", "failed"), ("Err(Job(NoProgram", "noprog"),
                          ("Err(Job(SpawnFailed", "nospawn"), ("Err(Io(", "io"), ("Err(Csv(", "io")):
            if d.startswith(pat): return name
        return d[:100]
    def end(self, cancelled=False):
        """After the outcome: release the measurement and see that nothing is left."""
        if not cancelled: self.pump(0.05); self.drop()
        if not self.pump(30, lambda: self.dropped): raise Bad("releasing the measurement takes forever")
        t = self.outcome["t"]
        end = time.monotonic() + 10
        while True:
            self.pump(0.02)
            left = self.alive()
            if not left: break
            if time.monotonic() > end: raise Bad("%d job processes are still there once the measurement has been dropped" % len(left))
            self.pump(0.1)
        self.pump(0.05)
        if self.outcomes != 1: raise Bad("%d outcomes were reported" % self.outcomes)
        if self.late: raise Bad(self.late)
        for e in self.log:
            if e["ev"] == "start" and e["t"] > t + 0.5: raise Bad("%s was started after the outcome was reported" % e["job"])
        self.check_start()
    def close(self):
        try: os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        self.p.wait()
        for pid in self.alive(left=True):
            try: os.kill(pid, signal.SIGKILL)
            except ProcessLookupError: pass
        for c in list(self.sel.get_map().values()):
            if hasattr(c.fileobj, "close"): c.fileobj.close()
        self.sel.close(); self.lis.close()
        try: self.p.stdin.close()
        except OSError: pass
        shutil.rmtree(self.dir, ignore_errors=True)
    def story(self): return self.log[-60:]

OUTCOME = {"status": "failed", "signal": "failed", "noprog": "noprog", "nospawn": "nospawn", "nodir": "nospawn", "io": "io"}
STATUS = [1, 2, 37, 255]
SIGNALS = [9, 11, 6]

def generations(depth):
    """Jobs that start a process, which starts another one.."""
    def hello(b, c):
        n = b.job(c)
        if n.count(".") < depth: c.order("child %s.c" % n)
    return hello

def disband(b, c):
    """The processes below a job end."""
    for d in b.family(c):
        d.order("exit 0")
        b.pump(20, lambda: d.gone)

def finish(b, conns, i, talk, leave=False):
    """A job ends well. What it has started may go on, with its output still open."""
    c = conns[0]
    if leave:
        for d in b.family(c): d.left = True
    else: disband(b, c)
    if talk: b.say(c, talk)
    c.order("exit 0")
    b.pump(20, lambda: c.gone)

def fail(b, c, how, k, talk):
    """A job fails, in a way that is then looked for in the log."""
    disband(b, c)
    if talk: b.say(c, talk)
    if how == "status":
        n = STATUS[k % len(STATUS)]; c.order("exit %d" % n); text = "exit status: %d" % n
    else:
        n = SIGNALS[k % len(SIGNALS)]; c.order("signal %d" % n); text = "signal: %d" % n
    b.pump(20, lambda: c.gone)
    return text

def check_failure_log(b, text, talk):
    errs = [l["text"] for l in b.logs if l["level"] == "ERROR"]
    mine = [e for e in errs if text in e]
    if not mine: raise Bad("no error names the %r of the failed job: %r" % (text, [e[:80] for e in errs]))
    if talk:
        _, _, what, n = talk.split(); n = int(n)
        if what == "text" and mine[0].count("warning: unused variable") != -(-n // 25) and mine[0].count("warning: unused variable") != n // 25:
            raise Bad("the output of the failed job is not complete in %r" % mine[0][:200])
        if what == "bytes" and mine[0].count("abc") < n // 8: raise Bad("the output of the failed job is not complete in %r" % mine[0][:200])

def replay(m, beh, k=0, step_time=None, shim=None, talks=False, trees=False):
    """Steps the real code through a behaviour of BuildMeasure. Raises Bad where it departs from it."""
    depth = [0, 1, 3, 0, 6][k % 5] if trees else 0
    leave = depth > 0 and step_time is None and k % 7 < 2
    extra = [[], ["-DX=a b", "-c", "it's", "\\"], ["--", "$HOME", "*", "#", ""], ['"q"', "a\tb", "é"]][k % 4]
    TALK = [None, "say 1 text 100", None, "say 2 bytes 200000", None, "say 1 bytes 5", "say 1 text 300000", "say 2 text 70000"]
    talk = lambda i: TALK[(k + i * 3) % len(TALK)] if talks else None
    mem = step_time is not None
    b = Build(m, beh["jobs"], beh["workers"], measure_time=k % 2 == 1, poll_ms=20 if mem else [5, 20, 50][k % 3],
              memory=beh["plenty"] if mem else None, shim=shim, extra=extra, shared_dir=k % 3 == 1, on_hello=generations(depth))
    try:
        ftext = ftalk = None
        patience = 30 if not mem else 5
        cancelled = False
        for i, st in enumerate(beh["hist"]):
            want = sorted(x[0] for x in st["before"]["running"])
            ok = lambda: sorted(c.since for c in b.running()) == want and b.progress == st["before"]["told"]
            if mem: b.pump(step_time)
            if not b.pump(patience if not b.outcome else 0.2, lambda: ok() or b.outcome) or not ok():
                raise Bad("before step %d, jobs started at steps %s are running and %d were reported done, instead of %s and %d%s" % (
                    i + 1, sorted(c.since for c in b.running()), b.progress, want, st["before"]["told"], " (outcome: %s)" % b.verdict() if b.outcome else ""))
            names = [b.job(c) for c in b.running()]
            if depth:
                if not b.pump(10, lambda: all(len(b.family(c)) == depth for c in b.running())): raise Bad("the processes of the running jobs are %s instead of %d for each" % ([[b.job(d) for d in b.family(c)] for c in b.running()], depth))
                if not b.pump(10, lambda: not b.orphans()): raise Bad("processes of jobs that are over still run: %s" % b.orphans())
            if len(set(names)) != len(names): raise Bad("a job is running twice at once: %s" % names)
            b.step = i + 1
            op, arg = st["op"], st["arg"]
            b.note(time.monotonic(), "step", op=op, arg=arg)
            if op == "memory": b.memory(arg)
            elif op == "cancel": cancelled = True; b.drop()
            else:
                conns = [c for c in b.running() if c.since == arg]
                if op == "finish": finish(b, conns, i, talk(i), leave)
                else: ftalk = talk(i); ftext = fail(b, conns[0], op, k, ftalk)
        if mem: b.pump(step_time, lambda: b.outcome)
        if not b.pump(30, lambda: b.outcome): raise Bad("no outcome is ever reported instead of %s" % beh["outcome"])
        got = b.verdict()
        if got != OUTCOME.get(beh["outcome"], beh["outcome"]): raise Bad("the outcome is %s instead of %s" % (got, beh["outcome"]))
        told = b.progress
        b.end(cancelled)
        if b.progress != told or told != beh["told"]: raise Bad("%d jobs were reported done instead of %d" % (b.progress, beh["told"]))
        if got == "success": b.check_csv()
        if ftext: check_failure_log(b, ftext, ftalk)
        # each start but the last was undone by a lack of memory
        starts = {}
        for c in b.conns:
            if "." not in b.job(c): starts[b.job(c)] = starts.get(b.job(c), 0) + 1
        if got == "success" and sum(starts.values()) != beh["starts"]: raise Bad("jobs were started %s times, %d in all instead of %d" % (starts, sum(starts.values()), beh["starts"]))
        return b.story()
    except Bad as e:
        e.story = b.story(); raise
    finally: b.close()

def diverse(items, features, keep):
    """`keep` of the items, so that each of their features is met as often as possible."""
    feats = [features(x) for x in items]
    of = {}
    for i, fs in enumerate(feats):
        for f in fs: of.setdefault(f, []).append(i)
    met = {f: 0 for f in of}; taken = []; used = set()
    import heapq
    heap = [(0, len(of[f]), k, f) for k, f in enumerate(sorted(of, key=repr))]
    heapq.heapify(heap)
    while heap and len(taken) < min(keep, len(items)):
        n, size, k, f = heapq.heappop(heap)
        if met[f] > n: heapq.heappush(heap, (met[f], size, k, f)); continue
        while of[f] and of[f][-1] in used: of[f].pop()
        if not of[f]: continue
        i = of[f].pop(); used.add(i); taken.append(items[i])
        for g in feats[i]: met[g] += 1
        heapq.heappush(heap, (met[f], size, k, f))
    return taken

def replay_all(c, m, behs, n=6, **kw):
    from concurrent.futures import ThreadPoolExecutor
    tries = kw.pop("tries", 1)
    failed = []
    def one(a):
        k, beh = a
        if len(failed) > 5: return None          # enough is known
        for t in range(tries):
            try: replay(m, beh, k, **kw); return None
            except Bad as e: last = e
        failed.append(k)
        return k, beh, last
    with ThreadPoolExecutor(n) as ex:
        for r in ex.map(one, enumerate(behs)):
            c.count()
            if r:
                k, beh, e = r
                c.violation(str(e), {"behaviour": beh, "variant": k, "story": e.story})

# ------------------------------------------------------------------ left to themselves
def unattended(m, s, shim=None):
    """A build whose jobs do what they please. `s`: jobs, workers, kinds (per job), plan (per job: list of orders),
    cancel (after how many starts, or None), target. Returns what happened, as a trace for BuildTrace."""
    n = s["jobs"]
    fates = {i: k for i, k in enumerate(s["kinds"], 1) if k not in ("ok", "status", "signal")}
    state = {"cancel": False}
    def hello(b, c):
        name = b.job(c)
        if "." in name:                               # child of a job
            if name.count(".") < s.get("deep", 1): c.order("child %s.c 1" % name)
            return
        plan = s["plan"][int(name[1:]) - 1]
        for o in plan:
            if o.startswith("exit") or o.startswith("signal"): b.note(time.monotonic(), "exit", job=name, ok=o == "exit 0")
            c.order(o)
    b = Build(m, n, s["workers"] or None, measure_time=s["timed"], poll_ms=s["poll"], fates=fates, target=s.get("target", "out.csv"), shared_dir=s.get("shared", False), on_hello=hello, shim=shim)
    try:
        if s["cancel"] is not None:
            starts = lambda: sum(1 for c in b.conns if "." not in b.job(c))
            if not b.pump(30, lambda: b.outcome or starts() >= s["cancel"]): raise Bad("only %d jobs were started after 30 s, while the build is not over" % starts())
            if s.get("tree") and not b.pump(30, lambda: len(b.conns) >= s["tree"]): raise Bad("only %d processes were started after 30 s" % len(b.conns))
            if s.get("delay"): b.pump(s["delay"])
            b.note(time.monotonic(), "cancel"); b.drop(); state["cancel"] = True
        limit = s.get("limit", 60)
        if not b.pump(limit, lambda: b.outcome): raise Bad("no outcome within %s s%s" % (limit, " of being cancelled" if state["cancel"] else ""))
        got = b.verdict()
        if b.outcome["ok"] and (s.get("target") or "out.csv") == "out.csv": b.check_csv()
        b.end(state["cancel"])
        for k in s["kinds"]:
            pass
        if got == "failed":
            texts = [o for p in s["plan"] for o in p if o.startswith("exit ") and o != "exit 0" or o.startswith("signal ")]
            texts = [("exit status: " if o.startswith("exit") else "signal: ") + o.split()[1] for o in texts]
            errs = [l["text"] for l in b.logs if l["level"] == "ERROR"]
            if not any(t in e for t in texts for e in errs): raise Bad("no error names the failure of a job: %r" % [e[:80] for e in errs])
        cpus = b.cpus
        evs = [e for e in b.log if e["ev"] in ("start", "exit", "progress", "cancel", "outcome") and "." not in e.get("job", "")]
        evs.sort(key=lambda e: e["t"])
        evs = [{"ev": e["ev"], "job": int(e["job"][1:]) if "job" in e else 0, "ok": bool(e.get("ok", False)), "what": got if e["ev"] == "outcome" else ""} for e in evs]
        return {"jobs": n, "workers": s["workers"] or (1 if s["timed"] else cpus), "kinds": [OUTCOME.get(k, k) if k not in ("ok", "status", "signal") else "ok" for k in s["kinds"]],
                "io": bool(s.get("target")), "events": evs}
    except Bad as e:
        e.story = b.story(); raise
    finally: b.close()

def validate(c, m, scenarios, n=6, shim=None):
    """Runs the scenarios, and has TLC decide whether what happened is a behaviour of BuildTrace."""
    from concurrent.futures import ThreadPoolExecutor
    failed = []
    def one(s):
        if len(failed) > 5: return s, None, None          # enough is known
        try: return s, unattended(m, s, shim), None
        except Bad as e: failed.append(s); return s, None, e
    traces = []; of = []
    with ThreadPoolExecutor(n) as ex:
        for s, tr, e in ex.map(one, scenarios):
            c.count()
            if e: c.violation(str(e), {"scenario": s, "story": e.story})
            elif tr: traces.append(tr); of.append(s)
    if not traces: return
    d = scratch("traces")
    json.dump(traces, open(d + "/traces.json", "w"))
    r = tlc("BuildTrace", "SPECIFICATION Spec\nINVARIANTS NeverTooMany OnlyOnce\nACTION_CONSTRAINT Emit\n", env={"TRACES": d + "/traces.json"}, timeout=600)
    c.tlc_done(r)
    upto = {}
    for x in r.lines: upto[x["trace"]] = max(upto.get(x["trace"], 0), x["upto"])
    for k, (tr, s) in enumerate(zip(traces, of), 1):
        got = upto.get(k, 0)
        if got != len(tr["events"]):
            c.violation("event %d, %s, cannot happen then" % (got + 1, json.dumps(tr["events"][got])), {"scenario": s, "trace": tr, "possible until": got})
    c.sample(traces[0]["events"][:30])
