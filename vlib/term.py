"""Real terminal sessions: a pseudo terminal, the program on it, and a small emulator of what the user sees."""
import errno
import fcntl
import os
import re
import select
import signal
import struct
import subprocess
import termios
import time

import worker as W
from common import fail

# only cup moves the cursor, so that the emulator can be small and exact
TERMINFO = r"""vmini|small terminal of the checks,
	am, xenl, msgr, mir,
	cols#80, lines#24, colors#8, pairs#64,
	acsc=``aaffggiijjkkllmmnnooppqqrrssttuuvvwwxxyyzz{{||}}~~, smacs=^N, rmacs=^O,
	bel=^G, cr=\r, clear=\E[H\E[2J, cup=\E[%i%p1%d;%p2%dH, el=\E[K, ed=\E[J,
	smcup=\E[?1049h, rmcup=\E[?1049l, civis=\E[?25l, cnorm=\E[?25h, smkx=\E[?1h, rmkx=\E[?1l,
	bold=\E[1m, rev=\E[7m, smso=\E[7m, rmso=\E[27m, sgr0=\E[m,
	setaf=\E[3%p1%dm, setab=\E[4%p1%dm, op=\E[39;49m,
	kcuu1=\E[A, kcud1=\E[B, kcuf1=\E[C, kcub1=\E[D, kpp=\E[5~, knp=\E[6~, kbs=^?, smam=\E[?7h, rmam=\E[?7l,
"""
BYTES = {"down": b"\x1b[B", "up": b"\x1b[A", "right": b"\x1b[C", "left": b"\x1b[D", "pgup": b"\x1b[5~", "pgdn": b"\x1b[6~",
         "enter": b"\r", "backspace": b"\x7f", "esc": b"\x1b", "^W": b"\x17", "^X": b"\x18"}
PATIENCE = 10       # seconds for what takes milliseconds


def terminfo(d):
    """compiles the description into a directory"""
    src = os.path.join(d, "vmini.ti")
    with open(src, "w") as f:
        f.write(TERMINFO)
    subprocess.run(["tic", "-x", "-o", os.path.join(d, "ti"), src], check=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    return os.path.join(d, "ti")


class Page:
    def __init__(self, w, h):
        self.c = [[" "] * w for _ in range(h)]
        self.a = [[0] * w for _ in range(h)]
        self.y = self.x = 0

    def size(self, w, h):
        for rows, blank in ((self.c, " "), (self.a, 0)):
            del rows[h:]
            while len(rows) < h:
                rows.append([blank] * w)
            for r in rows:
                del r[w:]
                r.extend([blank] * (w - len(r)))
        self.y, self.x = min(self.y, h - 1), min(self.x, w - 1)


class Shot:
    """what is on the screen; looks like worker.Shot"""

    def __init__(self, page, w, h):
        self.w, self.h = w, h
        self.c, self.a = ["".join(r) for r in page.c], [list(r) for r in page.a]

    def row(self, y):
        return self.c[y]

    def rattr(self, y):
        return self.a[y]

    def rows(self):
        return [r.rstrip() for r in self.c]

    def __str__(self):
        return "\n".join("%2d|%s" % (y, r) for y, r in enumerate(self.rows()))


CSI = re.compile(rb"\x1b\[(\??[0-9;]*)([A-Za-z])")


class Emulator:
    def __init__(self, w, h):
        self.w, self.h = w, h
        self.main, self.alt = Page(w, h), Page(w, h)
        self.page = self.main
        self.rev = self.bold = self.acs = self.wrap = False
        self.fg = self.bg = None
        self.cursor, self.keypad, self.am = True, False, True
        self.buf, self.raw, self.unknown = b"", b"", []
        self.alts = 0           # how often the alternate screen was entered

    def size(self, w, h):
        self.w, self.h = w, h
        self.main.size(w, h)
        self.alt.size(w, h)

    def shot(self):
        return Shot(self.page, self.w, self.h)

    def neutral(self):
        """None when the terminal is as it was"""
        if self.page is not self.main:
            return "the normal screen is not shown again"
        if not self.cursor:
            return "the cursor stays hidden"
        if self.rev or self.bold or self.fg is not None or self.bg is not None or self.acs:
            return "text attributes stay set"
        if not self.am:
            return "automatic margins stay off"
        if self.keypad:
            return "the keypad stays in application mode"
        return None

    def feed(self, data):
        self.raw += data
        self.buf += data
        b, i = self.buf, 0
        while i < len(b):
            c = b[i]
            if c == 27:
                m = CSI.match(b, i)
                if m:
                    self.csi(m.group(1).decode(), m.group(2).decode())
                    i = m.end()
                    continue
                if len(b) - i < 12:
                    break           # the rest is to come
                self.unknown.append(b[i:i + 12])
            elif c == 13:
                self.page.x, self.wrap = 0, False
            elif c == 10:
                self.newline()
            elif c == 8:
                self.page.x, self.wrap = max(self.page.x - 1, 0), False
            elif c == 14:
                self.acs = True
            elif c == 15:
                self.acs = False
            elif c == 9:
                self.page.x = min(self.page.x // 8 * 8 + 8, self.w - 1)
            elif c >= 32:
                self.put(chr(c))
            elif c not in (0, 7):
                self.unknown.append(b[i:i + 1])
            i += 1
        self.buf = b[i:]

    def newline(self):
        p = self.page
        self.wrap = False
        if p.y == self.h - 1:
            p.c.append([" "] * self.w)
            p.a.append([0] * self.w)
            del p.c[0], p.a[0]
        else:
            p.y += 1

    def put(self, ch):
        p = self.page
        if self.wrap:
            p.x = 0
            self.newline()
        p.c[p.y][p.x] = "\x01" if self.acs else ch
        p.a[p.y][p.x] = 0x80 if self.rev or self.bold else 0
        if p.x == self.w - 1:
            self.wrap = self.am
        else:
            p.x += 1

    def csi(self, par, cmd):
        p = self.page
        n = [int(x) if x else 0 for x in par.lstrip("?").split(";")]
        if par.startswith("?"):
            if cmd not in "hl" or n[0] not in (1, 7, 25, 1049):
                self.unknown.append(par + cmd)
            elif n[0] == 25:
                self.cursor = cmd == "h"
            elif n[0] == 7:
                self.am = cmd == "h"
                self.wrap = False
            elif n[0] == 1:
                self.keypad = cmd == "h"
            else:
                if cmd == "h" and self.page is self.main:
                    self.alts += 1
                    self.alt = Page(self.w, self.h)
                self.page = self.alt if cmd == "h" else self.main
                self.wrap = False
        elif cmd == "H":
            y, x = (n + [1])[:2]
            p.y, p.x, self.wrap = min(max(y, 1), self.h) - 1, min(max(x, 1), self.w) - 1, False
        elif cmd == "J" and n[0] in (0, 2):
            top = p.y + 1 if n[0] == 0 else 0
            if n[0] == 0:
                self.erase(p.y, p.x)
            for y in range(top, self.h):
                self.erase(y, 0)
        elif cmd == "K" and n[0] == 0:
            self.erase(p.y, p.x)
        elif cmd == "m":
            for v in n:
                if v == 0:
                    self.rev = self.bold = False
                    self.fg = self.bg = None
                elif v == 1:
                    self.bold = True
                elif v == 7:
                    self.rev = True
                elif v == 27:
                    self.rev = False
                elif 30 <= v <= 37:
                    self.fg = v - 30
                elif v == 39:
                    self.fg = None
                elif 40 <= v <= 47:
                    self.bg = v - 40
                elif v == 49:
                    self.bg = None
                else:
                    self.unknown.append("m%d" % v)
        else:
            self.unknown.append(par + cmd)

    def erase(self, y, x):
        p = self.page
        p.c[y][x:] = [" "] * (self.w - x)
        p.a[y][x:] = [0] * (self.w - x)


def modes(fd):
    return termios.tcgetattr(fd)[:6] + [termios.tcgetattr(fd)[6]]


class Session:
    """the program in a session of its own, as a foreground job of the terminal"""

    def __init__(self, exe, args, d, ti, size=(80, 24), stdin="tty", stdout="tty", stderr="tty", term="vmini", ctty=True, noise=()):
        # stdin, stdout, stderr: "tty", a file descriptor, or the path of a file
        self.d, self.exit, self.stopped = d, None, False
        for f in os.listdir(d):
            if f.startswith("san."):
                os.unlink(os.path.join(d, f))
        self.em = Emulator(*size)
        self.m, self.s = os.openpty()
        os.set_blocking(self.m, False)
        self.ioctl_size(*size)
        self.before = modes(self.s)
        name = os.ttyname(self.s)
        env = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "LOCPATH")}
        env.update(TERMINFO=ti, LC_ALL="C", ASAN_OPTIONS=W.ENV_ASAN + ":log_path=" + os.path.join(d, "san"), UBSAN_OPTIONS="print_stacktrace=1:log_path=" + os.path.join(d, "san"))
        if term is not None:
            env["TERM"] = term
        rep_r, rep_w = os.pipe()
        ctl_r, ctl_w = os.pipe()
        self.leader = os.fork()
        if self.leader == 0:
            try:
                self.lead(exe, args, name, env, (stdin, stdout, stderr), ctty, rep_w, ctl_r)
            finally:
                os._exit(255)
        os.close(rep_w)
        os.close(ctl_r)
        self.rep, self.ctl = rep_r, ctl_w
        self.pid = int(self.report())

    def lead(self, exe, args, name, env, std, ctty, rep, ctl):
        """the shell of the session"""
        os.setsid()
        for s in (signal.SIGINT, signal.SIGQUIT, signal.SIGTSTP, signal.SIGTTOU, signal.SIGTTIN, signal.SIGHUP, signal.SIGTERM):
            signal.signal(s, signal.SIG_IGN)
        fd = os.open(name, os.O_RDWR | (0 if ctty else os.O_NOCTTY))
        if ctty:
            fcntl.ioctl(fd, termios.TIOCSCTTY, 0)
        go_r, go_w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.read(go_r, 1)
            for s in (signal.SIGINT, signal.SIGQUIT, signal.SIGTSTP, signal.SIGTTOU, signal.SIGTTIN, signal.SIGHUP, signal.SIGTERM, signal.SIGPIPE):
                signal.signal(s, signal.SIG_DFL)
            files = [os.dup(fd) if p == "tty" else os.dup(p) if isinstance(p, int) else os.open(p, os.O_RDONLY if i == 0 else os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o600) for i, p in enumerate(std)]
            files = [fcntl.fcntl(f, fcntl.F_DUPFD, 10) for f in files]
            for i, f in enumerate(files):
                os.dup2(f, i)
            os.closerange(3, 100)
            os.execve(exe, ["jsonstroll"] + args, env)
        os.setpgid(pid, pid)
        if ctty:
            os.tcsetpgrp(fd, pid)
        os.write(rep, b"%d\n" % pid)
        os.write(go_w, b"x")
        while True:
            _, st = os.waitpid(pid, os.WUNTRACED)
            if os.WIFSTOPPED(st):
                if ctty:
                    os.tcsetpgrp(fd, os.getpid())
                os.write(rep, b"stopped\n")
                os.read(ctl, 1)
                if ctty:
                    os.tcsetpgrp(fd, pid)
                os.kill(pid, signal.SIGCONT)
                os.write(rep, b"resumed\n")
                continue
            os.write(rep, b"exit %d\n" % st)
            while os.read(ctl, 1):  # stays until it is killed, so that the terminal does not hang up
                pass

    def report(self):
        out = b""
        while not out.endswith(b"\n"):
            c = os.read(self.rep, 1)
            if not c:
                raise W.Inconclusive("the session could not be started")
            out += c
        return out.decode().strip()

    def ioctl_size(self, w, h):
        fcntl.ioctl(self.m, termios.TIOCSWINSZ, struct.pack("HHHH", h, w, 0, 0))

    def resize(self, w, h):
        self.pump()
        self.em.size(w, h)
        self.ioctl_size(w, h)

    def type(self, data):
        while data:
            try:
                data = data[os.write(self.m, data):]
            except BlockingIOError:
                self.pump(.01)

    def kill(self, sig):
        try:
            os.kill(self.pid, sig)
        except ProcessLookupError:
            pass

    def stop(self, key=False):
        """as a job; the shell takes the terminal over"""
        if key:
            self.type(b"\x1a")
        else:
            self.kill(signal.SIGSTOP)
        self.until(lambda: self.stopped, "the job stops")

    def resume(self):
        os.write(self.ctl, b"f")
        self.until(lambda: not self.stopped, "the job is resumed")

    def pump(self, wait=0):
        """reads what the program shows; was there anything?"""
        got = False
        while True:
            r, _, _ = select.select([self.m, self.rep], [], [], 0 if got else wait)
            if not r:
                return got
            if self.rep in r:
                t = self.report().split()
                if t[0] == "exit":
                    self.exit = int(t[1])
                    self.stopped = False
                    self.drain()
                    return True
                self.stopped = t[0] == "stopped"
            if self.m in r:
                try:
                    self.em.feed(os.read(self.m, 65536))
                except OSError as e:
                    if e.errno != errno.EIO:
                        raise
                    return got
            got = True

    def drain(self):
        while select.select([self.m], [], [], 0)[0]:
            try:
                self.em.feed(os.read(self.m, 65536))
            except OSError:
                return

    def state(self):
        try:
            return open("/proc/%d/stat" % self.pid).read().rsplit(")", 1)[1].split()[0]
        except OSError:
            return "?"

    def unread(self):
        return struct.unpack("i", fcntl.ioctl(self.s, termios.FIONREAD, b"\0" * 4))[0]

    def until(self, cond, what, **kw):
        """waits until cond() is true; what it returned"""
        end = time.time() + PATIENCE
        while True:
            v = cond()
            if v:
                return v
            if self.exit is not None and not kw.get("dead"):
                v = cond()
                if v:
                    return v
                self.died(what, **kw)
            if time.time() > end:
                cpu = self.state()
                kw.pop("dead", None)
                fail("%s: not within %d s (the program is in state %s)" % (what, PATIENCE, cpu), screen="\n" + str(self.em.shot()), **kw)
            self.pump(.02)

    def log(self):
        out = ""
        for f in sorted(os.listdir(self.d)):
            if f.startswith("san."):
                with open(os.path.join(self.d, f), errors="replace") as fh:
                    out += fh.read(6000)
        return out

    def status(self):
        st = self.exit
        return "signal %d" % os.WTERMSIG(st) if os.WIFSIGNALED(st) else "exit status %d" % os.WEXITSTATUS(st)

    def died(self, what, **kw):
        kw.pop("dead", None)
        fail("%s: the program ended with %s" % (what, self.status()), screen="\n" + str(self.em.shot()), report=self.log(), **kw)

    def end(self, what="the session ends", **kw):
        """waits for the end; the exit status"""
        self.until(lambda: self.exit is not None, what, dead=True, **kw)
        if os.WIFSIGNALED(self.exit) or os.WEXITSTATUS(self.exit) not in (0, 1):
            self.died(what, **kw)
        if self.log():
            fail("%s: defects are reported" % what, report=self.log(), **kw)
        return os.WEXITSTATUS(self.exit)

    def given_back(self, **kw):
        """the terminal is as it was found"""
        self.drain()
        bad = self.em.neutral()
        if bad is None and modes(self.s) != self.before:
            now = modes(self.s)
            bad = "the modes of the terminal are others: %s" % [(n, a, b) for n, a, b in zip(("iflag", "oflag", "cflag", "lflag", "ispeed", "ospeed", "cc"), self.before, now) if a != b]
        if bad:
            fail("when the program has ended, %s" % bad, end_of_output=repr(self.em.raw[-300:]), **kw)
        if self.em.unknown:
            raise W.Inconclusive("the emulator does not know %r" % self.em.unknown[:3])

    def close(self):
        for p in (getattr(self, "pid", 0), self.leader):
            if p and p > 1:
                try:
                    os.kill(p, signal.SIGKILL)
                except ProcessLookupError:
                    pass
        try:
            os.waitpid(self.leader, 0)
        except ChildProcessError:
            pass
        for fd in (self.m, self.s, self.rep, self.ctl):
            try:
                os.close(fd)
            except OSError:
                pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
