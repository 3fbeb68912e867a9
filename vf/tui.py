"""Programs with a text user interface, run in a pseudo-terminal of their own."""
import os, sys, pty, re, time, select, fcntl, termios, struct, signal, codecs, unicodedata, traceback

class Bad(Exception): pass

WIDE = lambda ch: unicodedata.east_asian_width(ch) in "WF"
COMBINING = lambda ch: unicodedata.combining(ch) != 0 or ch == "\u200d"

class Screen:
    """What a terminal shows, as far as the sequences that are used here go."""
    def __init__(self, rows, cols):
        self.dec = codecs.getincrementaldecoder("utf-8")("replace")
        self.pending = ""
        self.fg = self.bg = None; self.rev = False
        self.y = self.x = 0; self.alt = False; self.unknown = set()
        self.resize(rows, cols)
    def resize(self, rows, cols):
        # whoever draws on a screen has to draw all of it again
        self.rows, self.cols = rows, cols
        self.cells = [[("\0", None, None) for _ in range(cols)] for _ in range(rows)]
    SEQ = re.compile("\x1b(?:\\[([?>]?)([0-9;]*)([@-~])|\\]([^\x07\x1b]*)(?:\x07|\x1b\\\\)|([()][0-9A-Za-z])|([=>78cDEHM]))")
    def feed(self, data):
        s = self.pending + self.dec.decode(data); self.pending = ""
        i = 0
        while i < len(s):
            ch = s[i]
            if ch == "\x1b":
                m = self.SEQ.match(s, i)
                if not m:
                    if len(s) - i < 64: self.pending = s[i:]; return
                    i += 1; continue
                i = m.end()
                if m.group(3): self.csi(m.group(1), m.group(2), m.group(3))
                continue
            i += 1
            if ch == "\r": self.x = 0
            elif ch == "\n": self.y = min(self.y + 1, self.rows - 1)
            elif ch == "\b": self.x = max(0, self.x - 1)
            elif ch < " " or ch == "\x7f": pass
            else: self.put(ch)
    def put(self, ch):
        if self.y >= self.rows: return
        row = self.cells[self.y]
        if COMBINING(ch):
            x = self.x - 1
            while x > 0 and x < self.cols and row[x][0] == "": x -= 1
            if 0 <= x < self.cols: row[x] = (row[x][0] + ch,) + row[x][1:]
            return
        col = (self.bg, self.fg) if self.rev else (self.fg, self.bg)
        if self.x < self.cols: row[self.x] = (ch,) + col
        self.x += 1
        if WIDE(ch):
            if self.x < self.cols: row[self.x] = ("",) + col
            self.x += 1
    def csi(self, mark, args, op):
        a = [int(v) if v else 0 for v in args.split(";")]
        if mark:
            if mark == "?" and op in "hl" and 1049 in a:
                self.alt = op == "h"
            return
        if op in "Hf": self.y = min(max((a[0] or 1) - 1, 0), self.rows - 1); self.x = max((a[1] if len(a) > 1 and a[1] else 1) - 1, 0)
        elif op == "J":
            if a[0] == 2: self.cells = [[(" ", None, self.bg) for _ in range(self.cols)] for _ in range(self.rows)]
            elif a[0] == 0:
                self.csi("", "", "K")
                for y in range(self.y + 1, self.rows): self.cells[y] = [(" ", None, self.bg)] * self.cols
        elif op == "K":
            if self.y < self.rows and a[0] == 0:
                for x in range(self.x, self.cols): self.cells[self.y][x] = (" ", None, self.bg)
        elif op == "A": self.y = max(0, self.y - (a[0] or 1))
        elif op == "B": self.y = min(self.rows - 1, self.y + (a[0] or 1))
        elif op == "C": self.x = min(self.cols - 1, self.x + (a[0] or 1))
        elif op == "D": self.x = max(0, self.x - (a[0] or 1))
        elif op == "G": self.x = max((a[0] or 1) - 1, 0)
        elif op == "d": self.y = min(max((a[0] or 1) - 1, 0), self.rows - 1)
        elif op == "m": self.sgr(a)
        elif op in "rhlnsutq": pass
        else: self.unknown.add(op)
    def sgr(self, a):
        i = 0
        while i < len(a):
            v = a[i]
            if v == 0: self.fg = self.bg = None; self.rev = False
            elif v == 7: self.rev = True
            elif v == 27: self.rev = False
            elif 30 <= v <= 37: self.fg = v - 30
            elif 40 <= v <= 47: self.bg = v - 40
            elif 90 <= v <= 97: self.fg = v - 82
            elif 100 <= v <= 107: self.bg = v - 92
            elif v == 39: self.fg = None
            elif v == 49: self.bg = None
            elif v in (38, 48) and i + 2 < len(a) and a[i + 1] == 5:
                if v == 38: self.fg = a[i + 2]
                else: self.bg = a[i + 2]
                i += 2
            elif v in (38, 48) and i + 4 < len(a) and a[i + 1] == 2:
                col = ("rgb",) + tuple(a[i + 2:i + 5])
                if v == 38: self.fg = col
                else: self.bg = col
                i += 4
            i += 1
    def line(self, y): return "".join(c[0] for c in self.cells[y]).replace("\0", " ").rstrip()
    def lines(self): return [self.line(y) for y in range(self.rows)]
    def text(self): return "\n".join(self.lines())

KEYS = {"up": "\x1b[A", "down": "\x1b[B", "right": "\x1b[C", "left": "\x1b[D", "home": "\x1b[H", "end": "\x1b[F", "pageup": "\x1b[5~", "pagedown": "\x1b[6~",
        "enter": "\r", "esc": "\x1b", "tab": "\t", "ctrl-c": "\x03"}

class Tui:
    def __init__(self, argv, rows=50, cols=200, cwd=None, env=None):
        self.esc = False
        self.screen = Screen(rows, cols); self.status = None; self.log = []; self.raw = b""
        e = {"PATH": "/usr/bin:/bin", "TERM": "xterm", "RUST_BACKTRACE": "0", "LANG": "C.UTF-8", "HOME": "/nonexistent"}
        e.update(env or {})
        r, w = os.pipe()
        self.pid, self.fd = pty.fork()
        if self.pid == 0:
            try:
                os.close(w); os.read(r, 1); os.close(r)
                if cwd: os.chdir(cwd)
                os.execve(argv[0], argv, e)
            finally: os._exit(127)
        os.close(r)
        fcntl.ioctl(self.fd, termios.TIOCSWINSZ, struct.pack("HHHH", rows, cols, 0, 0))
        os.write(w, b"x"); os.close(w)
    def pump(self, t):
        """Takes in what is shown for up to `t` seconds; False when the program has ended."""
        end = time.monotonic() + t
        while True:
            left = end - time.monotonic()
            r, _, _ = select.select([self.fd], [], [], max(0, left))
            if not r: return True
            try: d = os.read(self.fd, 65536)
            except OSError: d = b""
            if not d:
                self.reap(); return False
            self.raw = (self.raw + d)[-20000:]
            self.screen.feed(d)
            if t == 0 or left <= 0: return True
            # whatever comes along with it
            end = min(end, time.monotonic() + 0.002) if len(d) < 4000 else end
    def reap(self):
        if self.status is None:
            end = time.monotonic() + 10
            while self.status is None and time.monotonic() < end:
                p, s = os.waitpid(self.pid, os.WNOHANG)
                if p: self.status = os.waitstatus_to_exitcode(s)
                else: time.sleep(0.002)
        return self.status
    def key(self, *keys):
        for k in keys:
            self.log.append(k)
            # when read along with another character, the one for Esc would be taken for the start of a sequence
            if k == "esc" or self.esc: self.drained()
            self.esc = k == "esc"
            try: os.write(self.fd, KEYS.get(k, k).encode())
            except OSError: pass
    def drained(self, timeout=10):
        """Waits until the program has read all keys."""
        end = time.monotonic() + timeout; none = 0
        try:
            n = struct.unpack("i", fcntl.ioctl(self.fd, 0x80045430, b"\0\0\0\0"))[0]  # TIOCGPTN
            fd = os.open("/dev/pts/%d" % n, os.O_RDWR | os.O_NOCTTY | os.O_NONBLOCK)
        except OSError: return
        try:
            while none < 4 and time.monotonic() < end:
                n = struct.unpack("i", fcntl.ioctl(fd, termios.FIONREAD, b"\0\0\0\0"))[0]
                none = none + 1 if n == 0 else 0
                time.sleep(0.006)
        finally: os.close(fd)
    def resize(self, rows, cols):
        self.log.append("resize %d %d" % (rows, cols))
        self.screen.resize(rows, cols)
        fcntl.ioctl(self.fd, termios.TIOCSWINSZ, struct.pack("HHHH", rows, cols, 0, 0))
    def wait(self, judge, timeout=10, what=""):
        """Waits until judge(screen) finds nothing to say."""
        end = time.monotonic() + timeout
        alive = True
        while True:
            w = judge(self.screen)
            if not w: return
            if not alive: raise Bad("%sthe program ended (%s): %s" % (what, self.status, self.tail()))
            if time.monotonic() > end: raise Bad(what + w)
            alive = self.pump(0.2)
    def settle(self, quiet=0.15, timeout=5):
        """Waits until nothing new is shown."""
        end = time.monotonic() + timeout
        while time.monotonic() < end:
            r, _, _ = select.select([self.fd], [], [], quiet)
            if not r: return True
            if not self.pump(0.01): return False
        return True
    def ended(self, timeout=10):
        end = time.monotonic() + timeout
        while time.monotonic() < end:
            if self.status is not None: return True
            if not self.pump(0.1): return True
            p, s = os.waitpid(self.pid, os.WNOHANG)
            if p: self.status = os.waitstatus_to_exitcode(s); return True
        return False
    def tail(self):
        t = self.screen.text().strip()
        return t[-400:]
    def close(self):
        if self.status is None:
            try: os.kill(self.pid, signal.SIGKILL)
            except ProcessLookupError: pass
            self.reap()
        try: os.close(self.fd)
        except OSError: pass
