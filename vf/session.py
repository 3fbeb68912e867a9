"""Whole sessions in a build directory against the screens and files that the BuildSession specification derives."""
import json, os, re, csv, io, time, random, shutil, collections, multiprocessing as mp
from vf.core import scratch, WORKERS
from vf.tui import Tui, Bad
from vf import viewer
from vf.viewer import trace, text, again, Graph, ENOUGH

MIN, HOUR, DAY = 60, 3600, 86400
AGE = {"fresh": 0, "m5": 5 * MIN + 5, "m59": 59 * MIN + 5, "h1": HOUR + 100, "h23": 23.5 * HOUR, "d1": 36 * HOUR, "d2": 60 * HOUR, "d30": 30.5 * DAY, "future": -2 * HOUR}

CC = r'''#!/bin/bash
ctl=%(ctl)s
for a in "$@"; do case "$a" in -DUNIT=*) n=${a#-DUNIT=};; esac; done
[ -z "$n" ] && exit 9
printf '%%s\n' "$$" "$PWD" "$@" "" >> $ctl/cc.$n.runs
read v < $ctl/cc.$n
case "$v" in ok) exit 0;; signal*) ulimit -c 0; kill -${v#signal} $$;; *) echo "cc: no luck"; exit 3;; esac
'''
CLANG = r'''#!/bin/bash
ctl=%(ctl)s
if [ "$1" = --version ]; then %(version)s; fi
%(driver)s
printf '%%s\n' "$$" "$PWD" "$@" "" >> $ctl/clang.runs
prev=
for a in "$@"; do [ "$prev" = -o ] && out=${a%%.*}.json; prev=$a; done
while true; do
  read v < $ctl/clang
  case "$v" in
    part) printf '{"traceEvents": [' > "$out"; : > $ctl/part;;
    ok) printf '%%s' "$(<$ctl/next)" > "$out"; exit 0;;
    none) exit 0;;
    late) printf '%%s' "$(<$ctl/late)" > "$out"; exit 1;;
    quiet) exit 255;;
    signal*) ulimit -c 0; kill -${v#signal} $$;;
    leave) (read v < $ctl/never) & echo $! >> $ctl/left; echo "error: no luck, but somebody stays"; exit 1;;
    *) echo "error: no luck"; echo "on stderr" >&2; exit 1;;
  esac
done
'''
# as clang 9 and wrappers do, leave the actual work to other processes
DRIVER = {"alone": "", "driver": 'if [ -z "$INNER" ]; then echo $$ >> $ctl/drivers; INNER=1 "$0" "$@"; exit $?; fi',
          "wrapped": 'if [ "$INNER" != 11 ]; then echo $$ >> $ctl/drivers; INNER=1$INNER "$0" "$@"; exit $?; fi'}
VERSIONS = ["clang version 14.0.0", "Ubuntu clang version 14.0.0-1ubuntu1", "clang version 9.0", "clang version 17.0.6 (https://github.com/llvm/llvm-project 6009708b4367)", "Debian clang version 10.0.1-8+b1"]
ODD = {"oldclang": "echo 'clang version 8.0.1'; exit 0", "oddclang": "echo 'gcc (GCC) 14.1'; exit 0", "silentclang": "exit 0", "failclang": "exit 2"}

def alive(pid):
    try: return open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()[0] not in "ZX"
    except OSError: return False

def gone(pid):
    """Killed processes may take a moment to vanish."""
    end = time.monotonic() + 2
    while alive(pid):
        if time.monotonic() > end: return False
        time.sleep(0.005)
    return True

class World:
    """The build directory, and compilers that do as they are told."""
    def __init__(self, setup, seed, clang=None):
        self.rng = random.Random(seed)
        self.s = setup; self.units = setup["units"]; rng = self.rng
        self.root = scratch("session"); self.build = os.path.join(self.root, "w", "x", "build"); self.ctl = os.path.join(self.root, "ctl"); self.bin = os.path.join(self.root, "bin")
        for d in (self.build, self.ctl, self.bin): os.makedirs(d)
        self.now = time.time(); self.times = {}; self.files = {}; self.version = 0
        self.granularity = rng.choice([None, None, 0, 100, 12345])
        self.tool("cc", CC % {"ctl": self.ctl})
        what = setup["setup"]
        if what != "noclang": self.tool("clang++", CLANG % {"ctl": self.ctl, "version": ODD.get(what) or "echo '%s'; echo 'Target: x86_64'; exit 0" % rng.choice(VERSIONS), "driver": DRIVER[rng.choice(["alone", "driver", "wrapped"])]})
        if clang is not None: self.clang(clang)
        os.mkfifo(self.ctl + "/clang"); os.mkfifo(self.ctl + "/never")
        # sources and the compilation database
        self.db = []; self.src = []; self.out = []; self.entry = {}
        self.stale_by_source = {}
        for i, u in enumerate(self.units):
            p = os.path.normpath(os.path.join(self.build, *u["path"])); self.src.append(p)
            self.links(u["path"])
            os.makedirs(os.path.dirname(p), exist_ok=True)
            gone = u["kind"] == "gone" or (what == "nosource" and i == 0)
            self.stale_by_source[i] = rng.random() < 0.5
            if not gone: self.put(p, b"int main() {}\n", (300 if self.stale_by_source[i] else 450) * DAY)
            d = self.build if rng.random() < 0.7 else os.path.join(self.build, "sub%d" % i)
            rel = "CMakeFiles/u%d.dir/%s.o" % (i, os.path.basename(p))
            if rng.random() < 0.3: rel = "./CMakeFiles/../" + rel
            o = os.path.normpath(os.path.join(d, rel)); os.makedirs(os.path.dirname(o), exist_ok=True); os.makedirs(os.path.join(d, "CMakeFiles"), exist_ok=True)
            self.out.append(os.path.splitext(o)[0] + ".json")
            os.mkfifo("%s/cc.%d" % (self.ctl, i))
            if u["kind"] in ("plain", "nooutput"):
                args = ["-DUNIT=%d" % i] + rng.choice([[], ["-O2", "-DNAME=\"a b\""], ["-I", "some dir"]]) + ([] if u["kind"] == "nooutput" else ["-o", rel]) + ["-c", p]
                self.entry[i] = (d, args)
                quoted = " ".join('"%s"' % a.replace('"', '\\"') if " " in a else a for a in args)
                e = {"directory": d, "command": "%s/cc %s" % (self.bin, quoted), "file": p}
                # some versions of CMake tell the output, as seen from the build directory
                if u["kind"] == "plain" and rng.random() < 0.3: e["output"] = os.path.relpath(o, self.build) if rng.random() < 0.7 else o
                if rng.random() < 0.2: self.db.append(dict(e, command=e["command"].replace("-DUNIT", "-DOLD")))   # the last entry of a file counts
                self.db.append(e)
        if what != "nodb": self.put(os.path.join(self.build, "compile_commands.json"), b"{ nonsense" if what == "baddb" else json.dumps(self.db).encode(), 400 * DAY)
        # build profile
        self.prof = os.path.join(self.build, "cmakeperf.csv")
        if setup["man"]:
            self.put(self.prof, b"not the profile that was asked for", DAY)
            self.prof = os.path.join(self.root, "w", "x", rng.choice(["mine.csv", "profile", "my.old.csv", "prof.bak"]))
        self.jitter = rng.randrange(-4000000, 4000000)
        self.first_prof = None
        if setup["prof"] != "none":
            b = io.StringIO(); w = csv.writer(b, lineterminator="\n")
            w.writerow(["file", "max_rss"] + (["time"] if setup["timed"] else []))
            for u in rng.sample(self.units, len(self.units)): w.writerow(["/".join(u["path"]), u["rss"] * 10**7 + self.jitter] + (["%.1f" % (u["time"] / 10)] if setup["timed"] else []))
            data = b.getvalue().encode()
            if what == "badprof": data += rng.choice([b"x.cpp,many" + (b",1\n" if setup["timed"] else b"\n"), b"x.cpp,-3" + (b",1\n" if setup["timed"] else b"\n"), b"only one field\n"])
            if what == "badprof" and rng.random() < 0.4: data = rng.choice([b"fi", b"file,max_r", b"x.cpp,12345\n", b"fi\xffle,max_rss\n", b"Hello\n"])
            self.put(self.prof, data, self.prof_age(setup["prof"])); self.first_prof = data
        self.made = False
        # a backup that somebody else made must not be taken for ours
        self.foreign = None
        for i, t in enumerate(setup["tr"]):
            if t["st"] != "none" and self.units[i]["kind"] == "plain": self.put(self.out[i], self.content(i, t["v"]), self.trace_age(i, t["st"]))
        self.expected = dict(self.files)
    def clang(self, a):
        """A clang++ that says this about its version."""
        os.unlink(self.bin + "/clang++")
        if a["end"] == "missing": return
        out = {"": b"", "notutf8": b"caf\xe9\n", "blank": b"\n", "warning": b"warning: clang version 3.4 is better\nor not\n", "noise": b"Hello, this is clang\n"}[a["before"]]
        if a["end"] != "stderr": out += a["line"].encode() + b"\n" + {"": b"", "target": b"Target: x86_64-pc-linux-gnu\nThread model: posix\nInstalledDir: /usr/bin\n", "other": b"clang version 3.1.0\n", "notutf8": b"caf\xe9\n"}[a["after"]]
        open(self.ctl + "/version", "wb").write(out)
        end = {"signal": "kill -9 $$", "1": "exit 1", "127": "exit 127"}.get(a["end"], "exit 0")
        self.tool("clang++", "#!/bin/bash\n[ \"$1\" = --version ] || exit 1\n/bin/cat %s/version\n%s\n%s\n" % (self.ctl, "echo 'clang version 14.0.0' >&2" if a["end"] == "stderr" else "", end))
        if a["end"] == "forbidden": os.chmod(self.bin + "/clang++", 0o644)
    def prof_age(self, st):
        if st != "stale": return AGE[st]
        return 350 * DAY if any(self.stale_by_source[i] for i in self.entry) and self.rng.random() < 0.5 else 500 * DAY
    def trace_age(self, i, st):
        if st != "stale": return AGE[st]
        return 350 * DAY if self.stale_by_source[i] else 500 * DAY
    def tool(self, name, body):
        p = os.path.join(self.bin, name); open(p, "w").write(body); os.chmod(p, 0o755)
    def content(self, i, v):
        self.version += 1
        end = " " * self.version    # no two files are the same
        if v == 0: return ("{\"traceEvents\": [{}" + end).encode()
        if v == -1: return (json.dumps(trace([], 1)) + end).encode()
        return (json.dumps(trace(self.s["traces"][v - 1], self.s["unit"])) + end).encode()
    def put(self, path, data, age):
        with open(path, "wb") as f: f.write(data)
        self.files[os.path.realpath(path)] = data; self.age(path, age)
        if os.path.islink(path): self.files[os.path.join(os.path.realpath(os.path.dirname(path)), os.path.basename(path))] = data
    def links(self, path):
        """Sources may be reached through symbolic links."""
        up = path.count("..")
        if up == 0: return
        top = os.path.normpath(os.path.join(self.build, *path[:up + 1])); real = os.path.join(self.root, "w", "real", path[up])
        if len(path) > up + 1 and not os.path.exists(top) and self.rng.random() < 0.25: os.makedirs(real, exist_ok=True); os.symlink(real, top)
        p = os.path.normpath(os.path.join(self.build, *path)); os.makedirs(os.path.dirname(p), exist_ok=True)
        if self.rng.random() < 0.1 and not os.path.exists(p):
            real = os.path.join(self.root, "w", "x", "linked", *path[up:]); os.makedirs(os.path.dirname(real), exist_ok=True); os.symlink(real, p)
    def age(self, path, age):
        t = int((time.time() - age) * 1e9); os.utime(path, ns=(t, t)); self.times[path] = (age, os.stat(path).st_mtime_ns)
    def refresh(self, fresh=()):
        """Files that nobody wrote to stay as old as they were."""
        for p, (age, t) in list(self.times.items()):
            try:
                if os.stat(p).st_mtime_ns == t: self.age(p, age)
            except OSError: pass
        for p in fresh:
            if os.path.exists(p): self.age(p, 0)
    def touch(self, i): self.age(self.src[i], 20)
    # ---- telling compilers what to do
    def tell(self, name, verb, timeout=15):
        end = time.monotonic() + timeout
        while True:
            try: fd = os.open(os.path.join(self.ctl, name), os.O_WRONLY | os.O_NONBLOCK); break
            except OSError:
                if time.monotonic() > end: return False
                time.sleep(0.003)
        os.write(fd, (verb + "\n").encode()); os.close(fd)
        return True
    def runs(self, name):
        try: d = open(os.path.join(self.ctl, name)).read()
        except OSError: return []
        return [(int(r[0]), r[1], r[2:]) for r in (x.split("\n") for x in d.split("\n\n")) if len(r) > 2]
    def drivers(self, name="drivers"):
        try: return [int(x) for x in open(self.ctl + "/" + name).read().split()]
        except OSError: return []
    def forget(self, name):
        try: os.unlink(os.path.join(self.ctl, name))
        except OSError: pass
    # ---- what is on the disk
    def listing(self):
        res = {}
        for d, _, fs in os.walk(os.path.join(self.root, "w")):
            for f in fs:
                p = os.path.join(d, f)
                try: res[p] = open(p, "rb").read()
                except OSError: pass
        return res
    def backup_of(self, p): return {os.path.splitext(p)[0] + ".bak", p + ".bak", os.path.splitext(p)[0] + ".bak.bak"} - {p}

class Play:
    def __init__(self, binary, setup, seed, rows=50, full=True, clang=None):
        self.binary, self.full, self.rows = binary, full, rows
        self.w = World(setup, seed, clang); self.setup = setup; self.keys = []; self.t = None; self.rng = random.Random(seed + 1); self.table = None
        self.trs = [dict(t) for t in setup["tr"]]
    def start(self):
        w = self.w; w.refresh([w.prof] if (w.made or self.setup["prof"] == "fresh") else [])
        argv = [self.binary] + (["--build-profile", w.prof if self.rng.random() < .6 else os.path.relpath(w.prof, w.build)] if self.setup["man"] else []) + ([] if w.granularity is None else ["-g", str(w.granularity)])
        if self.t: self.t.close()
        self.t = Tui(argv, rows=self.rows, cols=self.setup["cols"], cwd=w.build, env={"PATH": w.bin, "HOME": w.root})
    def fail(self, what): raise Bad("after %s: %s" % (self.keys[-8:], what))
    # ---- one step
    def step(self, key, before, after, index):
        w = self.w; self.keys.append(key)
        if key.startswith("!"): self.world(key, before, after)
        elif key:
            if key == "enter": w.refresh([w.out[i] for i, t in enumerate(before["tr"]) if t["st"] == "fresh"])
            if before["phase"] == "ask":
                for i in w.entry: w.forget("cc.%d.runs" % i)
            if after["phase"] == "measure" and before["phase"] != "measure": w.forget("clang.runs"); w.forget("part")
            self.t.key(key)
        if after["phase"] == "ended":
            if not self.t.ended(20): self.fail("the program does not end")
            if self.t.status != 0: self.fail("the program ends with %s: %s" % (self.t.status, self.t.tail()))
        if after["phase"] == "opening": return
        self.expect(after, before)
    def world(self, key, before, after):
        w = self.w; k = key.split()
        if k[0] == "!start": self.start()
        elif k[0] == "!touch": w.touch(before["table"][0]["sel"] - 1 if before["table"] else 0)
        elif k[0] == "!build":
            if before["run"] == 0: self.left = sorted(w.entry)
            if k[1] == "one":
                i = self.rng.choice(self.left); self.left.remove(i)
                if not w.tell("cc.%d" % i, "ok"): self.fail("unit %d is not compiled" % i)
            elif k[1] == "fail":
                i = self.rng.choice(self.left)
                if not w.tell("cc.%d" % i, self.rng.choice(["no", "no", "signal9", "signal11"])): self.fail("unit %d is not compiled" % i)
            else:
                left = list(self.left); end = time.monotonic() + 20
                while left:
                    for i in list(left):
                        if w.tell("cc.%d" % i, "ok", 0): left.remove(i)
                    if time.monotonic() > end: self.fail("units %s are not compiled" % left)
                    time.sleep(0.003)
        elif k[0] == "!trace":
            sel = before["table"][0]["sel"] - 1
            if k[1] == "ok":
                self.new = w.content(sel, int(k[2]))
                open(os.path.join(w.ctl, "next"), "wb").write(self.new)
            order = k[1]
            if order == "fail":
                # in one of the ways there are to fail
                order = self.rng.choice(["fail", "fail", "quiet", "late", "leave", "signal9", "signal11", "signal15"])
                open(os.path.join(w.ctl, "late"), "wb").write(w.content(sel, self.rng.choice([0, -1])))
            if not w.tell("clang", order): self.fail("clang is not started")
            self.clang_line(sel)
            if k[1] == "part":
                end = time.monotonic() + 10
                while not os.path.exists(os.path.join(w.ctl, "part")):
                    if time.monotonic() > end: self.fail("clang does not go on")
                    time.sleep(0.003)
            if k[1] == "ok": w.expected[w.out[sel]] = self.new
    def clang_line(self, i):
        w = self.w; d, args = w.entry[i]
        want = ["-ftime-trace"] + ([] if w.granularity is None else ["-ftime-trace-granularity=%d" % w.granularity]) + args
        runs = w.runs("clang.runs")
        if len(runs) != 1: self.fail("clang is run %d times" % len(runs))
        if os.path.realpath(runs[0][1]) != os.path.realpath(d): self.fail("clang is run in %s instead of %s" % (runs[0][1], d))
        if runs[0][2] != want: self.fail("clang is run with %s instead of %s" % (runs[0][2], want))
    def built(self):
        """A measurement of the build has succeeded: every unit was compiled once, and the profile is about all of them."""
        w = self.w
        for i, (d, args) in w.entry.items():
            runs = w.runs("cc.%d.runs" % i)
            if len(runs) != 1: self.fail("unit %d is compiled %d times" % (i, len(runs)))
            if os.path.realpath(runs[0][1]) != os.path.realpath(d) or runs[0][2] != args: self.fail("unit %d is compiled with %s in %s instead of %s in %s" % (i, runs[0][2], runs[0][1], args, d))
        try: data = open(w.prof, "rb").read()
        except OSError as x: self.fail("there is no build profile: %s" % x)
        rows = list(csv.DictReader(io.StringIO(data.decode())))
        got = sorted(r["file"] for r in rows); want = sorted("/".join(w.units[i]["path"]) for i in w.entry)
        if got != want: self.fail("the build profile is about %s instead of %s" % (got, want))
        if any(r.get("time") for r in rows): self.fail("the build profile has times in it")
        w.made = True; w.expected[w.prof] = data
        w.times.pop(w.prof, None)
        self.csv = {r["file"]: int(r["max_rss"]) for r in rows}
    # ---- what is to be seen
    def expect(self, e, before=None):
        if e["phase"] != "ended":
            try: self.t.wait(lambda s: self.judge(e, s, before), 20, "after %s: " % self.keys[-8:])
            except Bad as x: x.screen = self.t.screen.lines(); raise
        if before is not None and before["phase"] in ("build", "ask") and before["prof"] != e["prof"] == "fresh": self.built()
        if e["made"] and e["phase"] == "table" and e["dialog"] == "none":
            try: self.t.wait(lambda s: self.rows_made(e, s), 10, "after %s: " % self.keys[-8:])
            except Bad as x: x.screen = self.t.screen.lines(); raise
        self.disk(e)
        if before is not None and before["phase"] in ("build", "measure") and e["phase"] not in ("build", "measure"):
            w = self.w
            for n in ["clang.runs"] + ["cc.%d.runs" % i for i in w.entry]:
                for r in w.runs(n):
                    if not gone(r[0]): self.fail("a compiler is still running: %s" % (r[2],))
            for p in w.drivers():
                if not gone(p): self.fail("a compiler is still running")
    def disk(self, e):
        w = self.w
        skip = set(); optional = set()
        if e["phase"] == "build": skip |= {w.prof} | w.backup_of(w.prof)
        elif w.made: optional |= w.backup_of(w.prof)
        if e["phase"] == "measure":
            sel = e["table"][0]["sel"] - 1; skip |= {w.out[sel]} | w.backup_of(w.out[sel])
        got = w.listing()
        for p, d in w.expected.items():
            if p in skip: continue
            if p not in got: self.fail("%s is gone" % os.path.relpath(p, w.root))
            if got[p] != d: self.fail("%s has changed: %r instead of %r" % (os.path.relpath(p, w.root), got[p][:200], d[:200]))
        for p in got:
            if p not in w.expected and p not in skip and p not in optional: self.fail("there is a new file %s: %r" % (os.path.relpath(p, w.root), got[p][:100]))
    def judge(self, e, s, before=None):
        if e["phase"] == "trace": return viewer.judge(e["view"][0], s, self.full)
        d = boxes(s)
        if isinstance(d, str): return d
        want = None; marked = None; exact = False
        if e["dialog"] == "quit": want = "Ready to quit?"; marked = ["", "<Yes>", "<No>"][e["item"]]
        elif e["dialog"] == "help": want = "Memory is the top RAM consumption"
        elif e["phase"] in ("ask", "wizard"): want = e["ask"]["text"]; marked = e["ask"]["answers"][e["ask"]["sel"] - 1]; exact = True
        elif e["phase"] == "build": want = "Profiling the build, please minimize system activity..."; marked = "<Abort>"
        elif e["phase"] == "measure": want = "Measuring time trace, please minimize system activity..."; marked = "<Abort>"
        elif e["phase"] == "error": want = "Failed to collect build profile"; marked = "<Quit>"
        elif e["phase"] == "problem": want = e["why"]; marked = "<Quit>"
        elif e["phase"] == "info": want = {"unreadable": "Failed to process input", "empty": "This time trace does not contain any activity"}.get(e["why"], e["why"])
        if want is None and d is not None: return "a dialog is open: %r" % (d["lines"],)
        if want is not None:
            if d is None: return "there is no dialog about %r" % want
            body = "".join(d["lines"]).replace(" ", "")
            if want.replace(" ", "") not in body: return "the dialog says %r instead of %r" % (" ".join(d["lines"]), want)
            if exact and body != (want + "".join(e["ask"]["answers"])).replace(" ", ""): return "the dialog says %r instead of %r" % (" ".join(d["lines"]), want)
            if marked and marked not in d["marked"]: return "%s is marked instead of %s" % (d["marked"], marked)
            return None
        if e["phase"] == "table": return self.table_is(e, s)
        return None
    def table_is(self, e, s):
        t = e["table"][0]
        starts = [0, 13, 24] if t["timed"] else [0, 13]
        titles = ["Memory", "Time", "Source file"] if t["timed"] else ["Memory", "Source file"]
        head = s.cells[0]
        for k, (x, n) in enumerate(zip(starts, titles)):
            end = starts[k + 1] - 2 if k + 1 < len(starts) else s.cols
            cell = text(head[x:end])
            if not cell.startswith(n[:end - x]): return "column %d is titled %r instead of %r" % (k + 1, cell, n)
            want = t["dir"] if k + 1 == t["key"] else " "
            if end - x >= len(n) + 4 and "[%s]" % want not in cell: return "the sort mark of column %d is not %r: %r" % (k + 1, want, cell)
            bg = head[x][2]
            if (bg == 1) != (t["picking"] and t["cursor"] == k + 1): return "column %d is%s marked as the one being picked" % (k + 1, "" if bg == 1 else " not")
        if s.line(s.rows - 1).strip() != "Press H for help.": return "no footer: %r" % s.line(s.rows - 1)
        got = []; sel = []
        # (a table that does not fit has a scroll bar in the last column)
        width = s.cols - 1 if len(t["rows"]) > s.rows - 3 else s.cols
        for y in range(2, s.rows - 1):
            r = s.cells[y]
            if not text(r[:10]).strip(): break
            cells = [text(r[0:10]).strip()] + ([text(r[13:21]).strip()] if t["timed"] else []) + [text(r[starts[-1]:width]).strip()]
            if r[0][2] == 4 or (r[0][2] == 1 and not t["picking"]): sel.append(len(got))
            got.append(cells)
        if t["made"]:
            if len(sel) != min(len(t["rows"]), 1): return "%d rows are marked" % len(sel)
            self.seen = got
            return None
        ranks = sorted(r["rank"] for r in t["rows"])
        if len(got) != min(len(ranks), s.rows - 3): return "%d units are shown instead of %d" % (len(got), len(ranks))
        # a table that does not fit can be scrolled away from its selected row
        if len(sel) != min(len(ranks), 1) and (sel or len(ranks) == len(got)): return "%d rows are marked" % len(sel)
        def fits(off):
            left = list(t["rows"])
            for i, g in enumerate(got):
                m = [r for r in left if r["rank"] == ranks[off + i] and r["cells"] == g]
                if not m: return "row %d reads %r instead of %s" % (i + 1, g, [r["cells"] for r in left if r["rank"] == ranks[off + i]])
                pick = next((r for r in m if (r["id"] == t["sel"]) == (sel == [i])), m[0]); left.remove(pick)
                if sel == [i] and pick["id"] != t["sel"]: return "%r is selected instead of unit %d" % (pick["cells"], t["sel"])
                if sel == [] and pick["id"] == t["sel"]: return "no row is marked"
            return None
        errs = [fits(o) for o in range(len(ranks) - len(got) + 1)]
        return errs[0] if all(errs) else None
    def rows_made(self, e, s):
        """The table is about the profile that was just measured."""
        w = self.judge(e, s)
        if w: return w
        t = e["table"][0]; file = {"/".join(self.w.units[r["id"] - 1]["path"]): r["cells"][-1] for r in t["rows"]}
        if not hasattr(self, "csv"): return None
        if t["key"] != 1: return None
        groups = collections.defaultdict(list)
        for f, rss in self.csv.items(): groups[rss].append(["%.2f GB" % (rss / 1e9), file[f]])
        got = list(self.seen)
        for rss in sorted(groups, reverse=t["dir"] == "v"):
            n = len(groups[rss]); g, got = got[:n], got[n:]
            if sorted(g) != sorted(groups[rss]): return "the rows %s are shown instead of %s" % (g, groups[rss])
        return "more rows than units: %s" % got if got else None
    def close(self):
        if self.t: self.t.close()
        for p in self.w.drivers("left") + [r[0] for n in ["clang.runs"] + ["cc.%d.runs" % i for i in self.w.entry] for r in self.w.runs(n)]:
            # only processes of ours
            try:
                if self.w.bin.encode() in open("/proc/%d/cmdline" % p, "rb").read(): os.kill(p, 9)
            except OSError: pass
        if self.w.root.startswith("/tmp/session-"): shutil.rmtree(self.w.root, ignore_errors=True)

def boxes(s):
    """The topmost dialog. All are centered: it is the smallest of those drawn completely."""
    at = list(viewer.corner(s))
    if not at: return None
    res = []
    for y, x in at:
        h = y + 1
        while h < s.rows and s.cells[h][x][0] == "│": h += 1
        w = x + 1
        while w < s.cols and s.cells[y][w][0] in "─┤├" or (w < s.cols and s.cells[y][w][0] != "┐" and "┤" in text(s.cells[y][x:w])): w += 1
        if h >= s.rows or s.cells[h][x][0] != "└" or w >= s.cols or s.cells[y][w][0] != "┐" or s.cells[h][w][0] != "┘": continue
        if any(s.cells[i][w][0] != "│" for i in range(y + 1, h)) or any(s.cells[h][j][0] != "─" for j in range(x + 1, w)): continue
        inner = [s.cells[i][x + 1:w] for i in range(y + 1, h)]
        marked = []
        for row in inner:
            t = "".join(c[0] for c in row if c[2] == 1).strip()
            if t: marked.append(t)
        res.append(((h - y) * (w - x), {"lines": [text(r).strip() for r in inner], "marked": marked}))
    if not res: return "a dialog is not drawn completely"
    return min(res, key=lambda r: r[0])[1]

def play(job): return again(play_once, job)
def play_once(job):
    binary, setup, steps, seed, rows, full = job[:6]
    """steps: [(screen, key)], the last one with key None"""
    p = Play(binary, setup, seed, rows, full, *job[6:]); e = steps[0][0]
    try:
        p.start(); p.expect(e)
        for i in range(len(steps) - 1):
            nxt = steps[i + 1][0]
            p.step(steps[i][1], e, nxt, i)
            if p.rng.random() < 0.15 and nxt["phase"] not in ("ended", "opening"): p.t.settle(0.3, 0.5); p.expect(nxt)
            e = nxt
        if e["phase"] not in ("ended", "opening"): p.t.settle(0.3, 0.5); p.expect(e)
        return None
    except Bad as x: return {"what": str(x), "keys": p.keys, "screen": getattr(x, "screen", None), "expected": e}
    finally: p.close()

def run_jobs(c, name, jobs):
    bad = 0
    with mp.get_context("fork").Pool(WORKERS) as pool:
        for job, r in zip(jobs, pool.imap(play, jobs, chunksize=1)):
            c.count(); c.add("keys_pressed", len(job[2]) - 1)
            if r:
                bad += 1
                c.violation("%s: %s" % (name, r["what"]), {"setup": job[1], "seed": job[3], "keys": r["keys"], "screen": r["screen"], "expected": r["expected"]})
                if bad >= ENOUGH: break
    return bad

def run_histories(c, binary, name, runs, full=True, rows=50):
    run_jobs(c, name, [(binary, dict(r["setup"], tr=r["hist"][0]["screen"]["tr"], prof=r["hist"][0]["screen"]["prof"]), [(h["screen"], h["key"]) for h in r["hist"]], i, rows, full) for i, r in enumerate(runs)])

class SessionGraph(Graph):
    def __init__(self, lines):
        self.screen = {}; self.out = collections.defaultdict(dict); self.setup = {}; self.first = []
        for l in lines:
            if "at" in l:
                self.screen[l["at"]] = l["screen"]
                if l["setup"]: self.setup[l["at"]] = l["setup"][0]; self.first.append(l["at"])
            else: self.out[l["from"]].setdefault(l["key"], l["to"])
        self.edges = sum(len(o) for o in self.out.values())
    def tours(self, rng, limit=60, budget=None):
        """As in Graph, but a transition can only be reached from some of the first states."""
        left = {s: set(o) for s, o in self.out.items()}; total = self.edges; n = 0; res = []
        starts = collections.deque(self.first)
        while total and starts and (budget is None or n < budget):
            start = starts[0]; s = start; keys = []
            while len(keys) < limit:
                if left.get(s):
                    k = rng.choice(sorted(left[s])); left[s].discard(k); total -= 1; n += 1
                    keys.append(k); s = self.out[s][k]; continue
                p = self.path(s, lambda x: bool(left.get(x)))
                if p is None: break
                for k in p: keys.append(k); s = self.out[s][k]
            if keys: res.append((start, keys)); starts.rotate(-1)
            else: starts.popleft()
        return res, n, total

def run_session_tours(c, binary, name, g, rng, budget=None, limit=60, full=True, rows=50):
    tours, n, rest = g.tours(rng, limit, budget)
    jobs = []
    for i, (start, keys) in enumerate(tours):
        s = start; steps = []
        for k in keys: steps.append((g.screen[s], k)); s = g.out[s][k]
        steps.append((g.screen[s], None))
        jobs.append((binary, g.setup[start], steps, i, rows, full))
    c.cov.setdefault("tours", {})[name] = "%d of %d transitions, %d sessions from %d beginnings" % (n, g.edges, len(tours), len(g.first))
    return run_jobs(c, name, jobs)
