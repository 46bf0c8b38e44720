"""Helpers of the demonstrations: the program, its viewer with a scripted keyboard, and programs using its classes."""
import atexit
import glob
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.getcwd()
while True:
    TMP = "/tmp/Q" + "".join(random.choice("QZ") for _ in range(12))    # no letter that is looked for
    try:
        os.mkdir(TMP)
        break
    except FileExistsError:
        pass
atexit.register(shutil.rmtree, TMP, True)
EXE = os.path.join(REPO, "_build", "bin", "jsonstroll")
NAMES = {"down": 258, "up": 259, "left": 260, "right": 261, "pgdn": 338, "pgup": 339, "enter": 10, "esc": 27, "backspace": 263, "^W": 23, "timeout": -1, "sigint": 1000002, "sigterm": 1000015, "sigcont": 1000018}


def fail(*what):
    print("BROKEN:", *what)
    sys.exit(1)


def expect(got, want, what):
    if got != want:
        fail("%s: %r instead of %r" % (what, got, want))


def file(name, text):
    p = os.path.join(TMP, name)
    with open(p, "wb") as f:
        f.write(text if isinstance(text, bytes) else text.encode())
    return p


def run(*args, stdin="", env=None):
    r = subprocess.run([EXE, *args], input=stdin if isinstance(stdin, bytes) else stdin.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, cwd=TMP, env=dict(os.environ, **(env or {})))
    if r.returncode < 0:
        fail("the program is killed by signal", -r.returncode)
    return r.stdout.decode(errors="surrogateescape"), r.stderr.decode(errors="surrogateescape")


def objects():
    d = glob.glob(os.path.join(REPO, "_build", "**", "jsonstroll.dir"), recursive=True)[0]
    return sorted(glob.glob(os.path.join(d, "**", "*.o"), recursive=True))


def compile_with(source, wraps=()):
    """links source with the objects of the program, its main renamed stroll_main"""
    objs = []
    for o in objects():
        if os.path.basename(o).startswith("main."):
            n = os.path.join(TMP, "main.o")
            subprocess.run(["objcopy", "--redefine-sym", "main=stroll_main", o, n], check=True)
            # the renamed function must have C++ linkage, as declared by source
            subprocess.run(["objcopy", "--redefine-sym", "stroll_main=_Z11stroll_mainiPPc", n], check=True)
            o = n
        objs.append(o)
    exe = os.path.join(TMP, "prog")
    subprocess.run(["g++", "-g", "-w", "-I" + os.path.join(REPO, "include"), source] + objs + ["-Wl,--wrap=" + w for w in wraps] + ["-lncurses", "-ltinfo", "-o", exe], check=True)
    return exe


class Screen:
    def __init__(self, rows, attrs):
        self.rows, self.attrs = rows, attrs

    def __str__(self):
        return "\n".join(self.rows)

    def high(self, least=1):
        """rows holding highlighted cells"""
        return [r.strip() for r, a in zip(self.rows, self.attrs) if sum(x >> 7 for x in a) >= least]


_tui = []


def tui(w, h, keys, *args, ok=True):
    """screens shown before each key, and the one before leaving"""
    if not _tui:
        _tui.append(compile_with(os.path.join(HERE, "tui.cpp"), ["isatty", "ioctl", "newterm", "wgetch"]))
    codes = [4000000 + (k[1] << 10) + k[2] if isinstance(k, tuple) and k[0] == "silent" else 2000000 + (k[0] << 10) + k[1] if isinstance(k, tuple) else NAMES[k] if k in NAMES else ord(k) for k in keys]
    out = os.path.join(TMP, "screens")
    with open(out, "wb") as f:
        os.dup2(f.fileno(), 3)
        os.set_inheritable(3, True)
        r = subprocess.run([_tui[0], str(w), str(h), " ".join(map(str, codes)), *args], pass_fds=(3,), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=100)
    if ok and r.returncode:
        fail("the viewer ends with", r.returncode, r.stderr.decode(errors="replace")[:2000])
    lines = open(out, "rb").read().decode("latin-1").split("\n")
    screens, i = [], 0
    while i < len(lines) - 1:
        w, h = map(int, lines[i].split())
        screens.append(Screen(lines[i + 1:i + 1 + h], [list(bytes.fromhex(x)) for x in lines[i + 1 + h:i + 1 + 2 * h]]))
        i += 1 + 2 * h
    return screens


class Session:
    """what happened on a terminal"""

    def __init__(self, raw, status, restored):
        self.raw, self.status, self.restored = raw, status, restored
        # what remains on the normal screen
        self.after = raw.rsplit(b"\x1b[?1049l", 1)[-1].decode(errors="replace").replace("\r\n", "\n")


def terminal(script, *args, stdin=None, out=None, term="xterm", size=(80, 24), ctty=True):
    """runs on a terminal: script holds bytes to type, texts to wait for, ("size", w, h), ("sig", n) and pauses in seconds"""
    import fcntl
    import select
    import struct
    import termios
    import time
    m, s = os.openpty()
    fcntl.ioctl(m, termios.TIOCSWINSZ, struct.pack("HHHH", size[1], size[0], 0, 0))
    before = termios.tcgetattr(s)
    name = os.ttyname(s)

    def child():
        os.setsid()
        fd = os.open(name, os.O_RDWR | (0 if ctty else os.O_NOCTTY))
        if ctty:
            fcntl.ioctl(fd, termios.TIOCSCTTY, 0)
        if stdin is None:
            os.dup2(fd, 0)
        if out is None:
            os.dup2(fd, 1)
        os.dup2(fd, 2)
    env = dict(os.environ, TERM=term or "")
    p = subprocess.Popen([EXE, *args], stdin=subprocess.PIPE if stdin is not None else None, stdout=open(out, "wb") if out else None, env=env, cwd=TMP, preexec_fn=child)
    if stdin is not None:
        p.stdin.write(stdin.encode())
        p.stdin.close()
    raw, seen = b"", 0

    def pump(t):
        nonlocal raw
        while select.select([m], [], [], t)[0]:
            try:
                raw += os.read(m, 65536)
            except OSError:
                return
            t = 0
    for x in script:
        end = time.time() + 8
        if isinstance(x, bytes):
            os.write(m, x)
        elif isinstance(x, str):
            while x.encode() not in raw[seen:] and time.time() < end and p.poll() is None:
                pump(.05)
            if x.encode() not in raw[seen:]:
                p.kill()
                fail("%r is not shown: %r" % (x, raw[seen:][-600:]))
            seen = len(raw)
        elif isinstance(x, tuple) and x[0] == "size":
            fcntl.ioctl(m, termios.TIOCSWINSZ, struct.pack("HHHH", x[2], x[1], 0, 0))
        elif isinstance(x, tuple):
            os.kill(p.pid, x[1])
        else:
            end = time.time() + x
            while time.time() < end:
                pump(.05)
            seen = len(raw)
    end = time.time() + 10
    while p.poll() is None and time.time() < end:
        pump(.05)
    if p.poll() is None:
        p.kill()
        fail("the program does not end: %r" % raw[-300:])
    pump(.05)
    same = termios.tcgetattr(s) == before
    os.close(m)
    os.close(s)
    return Session(raw, p.returncode, same)
