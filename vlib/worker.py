"""Client of the persistent sanitised workers (harness/*.cpp)."""
import glob
import os
import signal
import struct
import subprocess
import tempfile
import threading

ENV_ASAN = ("detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:"
            "max_malloc_fill_size=1048576:malloc_fill_byte=165:detect_stack_use_after_return=0:"
            "quarantine_size_mb=16:symbolize=1")
CASE_TIMEOUT = 120          # wall clock, inconclusive only: never a verdict


class Died(Exception):
    """the process under test died while running a case; .log is the sanitizer report"""

    def __init__(self, why, log):
        Exception.__init__(self, why)
        self.why, self.log = why, log


class Hang(Exception):
    pass


class Inconclusive(Exception):
    pass


class Worker:
    def __init__(self, exe, recycle=3000):
        self.exe, self.recycle = exe, recycle
        self.p = None
        self.n = 0
        self.dir = tempfile.mkdtemp(prefix="vw-")

    def start(self):
        for f in glob.glob(os.path.join(self.dir, "san.*")):
            os.unlink(f)
        rq_r, rq_w = os.pipe()
        rp_r, rp_w = os.pipe()
        env = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "LOCPATH")}
        env["ASAN_OPTIONS"] = ENV_ASAN + ":log_path=" + os.path.join(self.dir, "san")
        env["UBSAN_OPTIONS"] = "print_stacktrace=1:log_path=" + os.path.join(self.dir, "san")
        env["VW_ERR"] = os.path.join(self.dir, "san.err")     # survives the worker's death
        env["TERM"] = "xterm"

        # the worker finds its two pipes through the environment
        env["VW_FDS"] = "%d %d" % (rq_r, rp_w)
        self.p = subprocess.Popen([self.exe], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                  stderr=subprocess.DEVNULL, env=env, pass_fds=(rq_r, rp_w), close_fds=True)
        os.close(rq_r)
        os.close(rp_w)
        self.w, self.r = rq_w, rp_r
        self.n = 0

    def stop(self):
        if self.p:
            try:
                os.close(self.w)
                os.close(self.r)
            except OSError:
                pass
            try:
                self.p.kill()
            except OSError:
                pass
            self.p.wait()
            self.p = None

    def close(self):
        self.stop()
        for f in glob.glob(os.path.join(self.dir, "*")):
            os.unlink(f)
        try:
            os.rmdir(self.dir)
        except OSError:
            pass

    def _read(self, n):
        out = b""
        while len(out) < n:
            b = os.read(self.r, min(n - len(out), 1 << 20))
            if not b:
                raise EOFError
            out += b
        return out

    def call(self, *fields):
        fields = [f if isinstance(f, bytes) else str(f).encode() for f in fields]
        if self.p and self.n >= self.recycle:
            self.stop()
        if not self.p:
            self.start()
        self.n += 1
        msg = struct.pack("<I", len(fields)) + b"".join(struct.pack("<I", len(f)) + f for f in fields)
        fired = []

        def kill():
            fired.append(1)
            self.p.kill()
        t = threading.Timer(CASE_TIMEOUT, kill)
        t.start()
        try:
            try:
                mv = memoryview(msg)
                while mv:
                    mv = mv[os.write(self.w, mv):]
                (k,) = struct.unpack("<I", self._read(4))
                out = []
                for _ in range(k):
                    (ln,) = struct.unpack("<I", self._read(4))
                    out.append(self._read(ln))
            except (EOFError, BrokenPipeError):
                rc = self.p.wait()
                log = b""
                for f in sorted(glob.glob(os.path.join(self.dir, "san.*"))):
                    with open(f, "rb") as fh:
                        log += fh.read(20000)
                self.stop()
                if fired:
                    raise Inconclusive("case exceeded %d s of wall clock" % CASE_TIMEOUT)
                why = "signal %s" % signal.Signals(-rc).name if rc < 0 else "exit %d" % rc
                raise Died(why, log.decode(errors="replace"))
        finally:
            t.cancel()
        if out and out[0] == b"hang":
            self.stop()
            raise Hang()
        return out


class Result:
    def __init__(self, f):
        self.outcome = f[0].decode(errors="replace")
        self.out = f[1] if len(f) > 1 else b""
        self.err = f[2] if len(f) > 2 else b""
        self.shots = [Shot(x) for x in f[3:]]


class Shot:
    def __init__(self, raw):
        self.w, self.h = struct.unpack("<II", raw[:8])
        n = self.w * self.h
        self.chars = raw[8:8 + n].decode("latin-1")
        self.attrs = raw[8 + n:8 + 2 * n]

    def row(self, y):
        return self.chars[y * self.w:(y + 1) * self.w]

    def rows(self):
        return [self.row(y).rstrip() for y in range(self.h)]

    def rattr(self, y):
        return self.attrs[y * self.w:(y + 1) * self.w]

    def reverse_rows(self):
        return [y for y in range(self.h) if any(a & 0x80 for a in self.rattr(y))]

    def __str__(self):
        return "\n".join("%2d|%s" % (y, r) for y, r in enumerate(self.rows()))


class Stroll(Worker):
    """jsonstroll's main(), in process"""

    def main(self, argv, stdin=b"", locale="C"):
        return Result(self.call(b"main", stdin, locale, "jsonstroll", *argv))

    def tui(self, argv, keys, stdin=b"", locale="C", size=(80, 24)):
        return Result(self.call(b"tui", stdin, locale, size[0], size[1], " ".join(str(k) for k in keys),
                                "jsonstroll", *argv))


KEY = dict(down=258, up=259, left=260, right=261, npage=338, ppage=339, backspace=263, err=-1,
           sigint=1000000 + 2, sigterm=1000000 + 15, sigcont=1000000 + 18)


def resize(w, h, how=None):
    """how: 'cont' for a size that changes while the program is stopped"""
    return (6000000 if how else 2000000) + (w << 10) + h


class Lib(Worker):
    """the library classes, in process"""

    def ask(self, *fields):
        return self.call(*fields)
