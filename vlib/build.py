"""Builds the harness binaries from /repo's current working tree into /verif/build."""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")

SAN = ["-fsanitize=address,null,bounds,integer-divide-by-zero,return,unreachable,vla-bound",
       "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
PATTERN = ["-ftrivial-auto-var-init=pattern"]
BASE = ["-w", "-g", "-O1"]
CXX = "g++"


class BuildError(Exception):
    pass


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout.decode(errors="replace")[-6000:]))


def _hash(paths, extra):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    h.update(repr(extra).encode())
    return h.hexdigest()[:20]


def sources():
    return sorted(glob.glob(os.path.join(REPO, "src", "*.cpp")))


def headers():
    return sorted(glob.glob(os.path.join(REPO, "include", "*")))


WRAPS = ["exit", "isatty", "ioctl", "newterm", "wgetch"]
#: name -> (harness source, extra compile flags, extra link flags, main.cpp renamed?, libFuzzer?)
TARGETS = {
    "worker": dict(src="worker.cpp", link=["-Wl," + ",".join("--wrap=" + w for w in WRAPS)], main="rename"),
    "stroll": dict(src=None, link=[], main="keep"),
    "libworker": dict(src="libworker.cpp", link=[], main="none"),
}


def build(*names):
    """Returns {name: path}; rebuilds whatever changed in /repo or the harness."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _build(names)


def _build(names):
    srcs, hdrs = sources(), headers()
    hh = glob.glob(os.path.join(VERIF, "harness", "*.hh"))
    out, jobs, links = {}, {}, []

    def obj(src, flags):
        o = os.path.join(BUILD, "o-%s-%s.o" % (os.path.basename(src), _hash([src] + hdrs + hh, flags)))
        if not os.path.exists(o):
            jobs[o] = [CXX] + flags + ["-I" + os.path.join(REPO, "include"), "-c", src, "-o", o + ".tmp"]
        return o

    for n in names:
        t = TARGETS[n]
        flags = BASE + SAN + PATTERN
        if t.get("fuzz"):
            flags = flags + ["-fsanitize=fuzzer-no-link"]
        objs = []
        for s in srcs:
            if os.path.basename(s) == "main.cpp":
                if t["main"] == "none":
                    continue
                objs.append(obj(s, flags + (["-Dmain=stroll_main"] if t["main"] == "rename" else [])))
            else:
                objs.append(obj(s, flags))
        if t["src"]:
            objs.append(obj(os.path.join(VERIF, "harness", t["src"]), flags))
        exe = os.path.join(BUILD, "%s-%s" % (n, hashlib.sha256("".join(objs).encode() + repr(t).encode()).hexdigest()[:20]))
        out[n] = exe
        if not os.path.exists(exe):
            links.append((exe, [CXX] + SAN + objs + t["link"] + ["-lncurses", "-ltinfo", "-o", exe + ".tmp"]))
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        def one(kv):
            _run(kv[1])
            os.rename(kv[0] + ".tmp", kv[0])
        list(ex.map(one, jobs.items()))
        list(ex.map(one, links))
    return out


def clean():
    shutil.rmtree(BUILD, ignore_errors=True)


if __name__ == "__main__":
    print(build(*(sys.argv[1:] or list(TARGETS))))
