import fcntl
import json
import os
import resource
import shutil
import signal
import subprocess
import sys

from hypothesis import strategies as st

import build
import core
import gen
from common import any_doc, enc, fail
from core import Part

ID = "C13"
TARGETS = ("worker", "stroll")
RULE = ("the real program with --diff-cmd running a recorder: random argument lists with 0-3 {}, 1-4 (part many: up to 129) inputs (files with similar names, command line, standard input; valid or malformed), random options, and a command that exits, dies by a "
        "signal, removes or grows the files, cannot be executed or is missing, or no file descriptor left, or no room, for temporary files. Oracle: what the recorder saw against the reference argument list and the program's own output for each input; "
        "new files left in the temporary directory; the messages of printing the same inputs. Non-trivial: two inputs or more, or the command fails.")
TMP = "/tmp"
LOCK = os.path.join(build.BUILD, "c13.lock")


def listing():
    return {n for n in os.listdir(TMP) if not n.startswith(("vc-", "vw-", "bash_jobs"))}


def case(tier):
    args = st.lists(st.sampled_from(["{}", "{}", "{}", "a", "--compress", "-W", "", "{}{}", "{ }", "{", "a b", "--", "--diff-cmd", "$HOME", "*", "{}x", "é", "x;", ";;", " ;", ";x", "\\;"]), max_size=6)
    good = any_doc("quick").map(lambda n: gen.spell(n, gen.Style([3, 1])))
    item = st.one_of(good, good, good, good, st.just("[1,"), st.just(""), st.just("[TRUE]"))
    lax = st.one_of(good, st.sampled_from(["[TRUE]", '{"a":1,"a":[]}', '["\\x"]', "[1,2\n,NULL]"]))
    items = st.one_of(st.lists(item, min_size=1, max_size=4), st.lists(lax, min_size=1, max_size=4), st.builds(lambda l, bad: l + [bad], st.lists(lax, min_size=1, max_size=3), st.sampled_from(["[1,", "", "[1}", "nope"])))
    return st.fixed_dictionaries({
        "args": args, "inputs": items, "names": st.sampled_from([["a.json", "b.json", "c.json", "d.json"], ["x/a", "x_a", "xa", "x/a.json"], ["a a", "a", "aa", "a a a"]]),
        "opts": st.lists(st.sampled_from(["--compress", "--keep-order", "--ascii", "-W", "-W", "--color=never"]), max_size=2, unique=True), "where": st.integers(0, 5),
        "last": st.sampled_from(["file", "file", "args", "stdin"]), "same": st.booleans(),
        "mode": st.sampled_from(["ok", "ok", "ok", "exit1", "exit255", "kill9", "kill11", "kill2", "unlink", "append", "noise", "missing", "notexec", "nocmd", "nofile", "full0", "full3", "full20", "full100"]), "term": st.booleans()})


def run(ctx, av, stdin, mode, nfiles):
    env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "REC_LOG": os.path.join(ctx.dir, "log"), "REC_MODE": mode, "LC_ALL": "C",
           "ASAN_OPTIONS": "detect_leaks=0:exitcode=99:abort_on_error=0", "TERM": "xterm"}
    if os.path.exists(env["REC_LOG"]):
        os.unlink(env["REC_LOG"])

    def limit():
        resource.setrlimit(resource.RLIMIT_CPU, (20, 25))
        if mode.startswith("full"):     # the recorder lifts it
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (int(mode[4:]), resource.getrlimit(resource.RLIMIT_FSIZE)[1]))
        if mode == "nofile":
            resource.setrlimit(resource.RLIMIT_NOFILE, (3 + nfiles, 3 + nfiles))
    p = subprocess.run(["jsonstroll"] + av, executable=ctx.exes["stroll"], input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, preexec_fn=limit, timeout=100, cwd=ctx.dir)
    log = []
    if os.path.exists(env["REC_LOG"]):
        log = [json.loads(x) for x in open(env["REC_LOG"])]
    return p, log


def check(ctx, c):
    inputs = c["inputs"]
    if c["same"]:
        inputs = [inputs[0]] * len(inputs)
    last = c["last"]
    if last == "stdin":
        inputs = inputs[:1]
    if last == "args" and "\0" in inputs[-1]:
        last = "file"
    os.makedirs(os.path.join(ctx.dir, "x"), exist_ok=True)
    paths = []
    for i, t in enumerate(inputs):
        if i == len(inputs) - 1 and last != "file":
            break
        paths.append(ctx.file(c["names"][i], enc(t)))
    expect = []     # what the program prints for each input
    for i, t in enumerate(inputs):
        r = ctx.stroll.main(c["opts"], stdin=enc(t))
        expect.append(r.out or None)
    mode = c["mode"]
    if mode == "nofile" and not paths:
        mode = "ok"     # the loader needs one
    if mode in ("missing", "notexec"):
        cmd = [os.path.join(ctx.dir, "no-such-command") if mode == "missing" else ctx.file("notexec", b"x")] + c["args"]
    elif mode == "nocmd":
        cmd = []
    else:
        cmd = [os.path.join(build.VERIF, "harness", "recorder.py")] + c["args"]
    av = list(c["opts"]) + paths
    ins = ["--diff-cmd"] + cmd
    at = c["where"] % (len(av) + 1)
    if c["term"] or at < len(av) or last == "args":
        ins.append(";")
    av[at:at] = ins
    if last == "args":
        av += ["--", inputs[-1]]
    av = [enc(a) for a in av]
    os.makedirs(build.BUILD, exist_ok=True)
    with open(LOCK, "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_SH)
        before = listing()
        try:
            p, log = run(ctx, av, enc(inputs[-1]) if last == "stdin" else b"", mode, len(paths))
        except subprocess.TimeoutExpired:
            raise core.W.Inconclusive("wall clock")
        left = listing() - before
        if left:
            # others may be running: run it again when nobody is
            fcntl.flock(lk, fcntl.LOCK_UN)
            fcntl.flock(lk, fcntl.LOCK_EX)
            before = listing()
            for n in before:
                if n.startswith("jsondifftmp") and n in left:
                    os.unlink(os.path.join(TMP, n))
            before = listing()
            try:
                p, log = run(ctx, av, enc(inputs[-1]) if last == "stdin" else b"", mode, len(paths))
            except subprocess.TimeoutExpired:
                raise core.W.Inconclusive("wall clock")
            left = {n for n in listing() - before if os.path.isfile(os.path.join(TMP, n)) and "json" in n}
            for n in left:
                os.unlink(os.path.join(TMP, n))
            if left:
                fail("temporary files are left behind: %d" % len(left), mode=mode, argv=av)
    if p.returncode not in (0, 1):
        fail("program ends with status %d" % p.returncode, mode=mode, argv=av, stderr=p.stderr)
    good = all(e is not None for e in expect)
    # the messages about the inputs are those of printing them
    plain = ctx.stroll.main(c["opts"] + paths + (["--", inputs[-1]] if last == "args" else []), stdin=enc(inputs[-1]) if last == "stdin" else b"").err
    lost = mode.startswith("full") and any(e is not None and len(e) > int(mode[4:]) for e in expect)
    if mode != "nofile" and not lost and (plain not in p.stderr if good else plain != p.stderr):
        fail("the messages about the inputs are not those of printing them", argv=av, stderr=p.stderr, expected=plain)
    if not good:
        if log:
            fail("command runs in spite of a malformed input", argv=av, log=log)
        if not p.stderr:
            fail("malformed input without message", argv=av)
        return {"malformed"}
    if mode in ("missing", "notexec", "nocmd", "nofile") or lost:
        if log:
            fail("command runs", argv=av)
        if not p.stderr.strip():
            fail("the command cannot run, or must not, and nothing says so (%s)" % mode, argv=av)
        if p.stderr.count(b"cannot") > 1:
            fail("more than one process goes on after the command could not run", argv=av, stderr=p.stderr)
        return {"!", mode}
    if len(log) != 1:
        fail("command ran %d times" % len(log), argv=av, stderr=p.stderr)
    got = [bytes.fromhex(a) for a in log[0]["argv"]]
    files = {bytes.fromhex(k): bytes.fromhex(v) for k, v in log[0]["files"].items()}
    i, names = 0, None
    for a in c["args"]:
        if a == "{}":
            part = got[i:i + len(inputs)]
            if names is None:
                names = part
            if part != names or len(part) != len(inputs):
                fail("{} is not replaced by the same %d files everywhere" % len(inputs), argv=av, got=got)
            i += len(inputs)
        else:
            if i >= len(got) or got[i] != enc(a):
                fail("argument %r of the command is altered" % a, argv=av, got=got)
            i += 1
    if i != len(got):
        fail("command gets more arguments", argv=av, got=got)
    if names is not None:
        if len(set(names)) != len(names):
            fail("two inputs share one temporary file", argv=av, got=got)
        for n, e in zip(names, expect):
            if n not in files:
                fail("{} names a file that does not exist", argv=av, got=got)
            if files[n] != e:
                fail("temporary file does not hold what the program prints for that input", argv=av, file=files[n], expected=e)
        for n in names:
            if os.path.exists(n):
                fail("temporary file still exists", file=n)
    return {mode, "%d inputs" % len(inputs), "{} x%d" % c["args"].count("{}")} | ({"!"} if len(inputs) > 1 or mode != "ok" else set())


@st.composite
def many_case(draw, tier):
    """many inputs, many arguments, large inputs"""
    n = draw(st.sampled_from([3, 9, 10, 11, 12, 16, 17, 32, 33, 64, 65, 100, 128, 129]))
    args = draw(st.lists(st.sampled_from(["{}", "{}", "a", "-W", "", "{}{}"]), min_size=1, max_size=4)) + ["filler"] * draw(st.sampled_from([0, 0, 5, 40, 300]))
    files = (draw(st.lists(st.sampled_from(["[]", "1", '{"b":[1,{}],"a":null}', '"text"', "[1,2]"]), min_size=1, max_size=3)) * n)[:n]
    files[draw(st.integers(0, n - 1))] = '["' + "x" * draw(st.sampled_from([10, 1023, 4096, 8191, 65536, 100000])) + '"]'
    return {"args": args, "inputs": files, "names": ["f%d" % i for i in range(n)], "opts": draw(st.lists(st.sampled_from(["--compress", "--keep-order"]), max_size=2, unique=True)), "where": draw(st.integers(0, 5)),
            "last": "file", "same": False, "mode": draw(st.sampled_from(["ok", "ok", "exit1", "kill9", "missing"])), "term": True}


PARTS = [Part("commands", case, check, 1600), Part("many", many_case, check, 64)]
