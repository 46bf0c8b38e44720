import os
import re
import resource
import signal
import subprocess

from hypothesis import strategies as st

import gen
import large
from common import any_doc, enc, fail, messages
from core import Part

ID = "C11"
TARGETS = ("worker", "stroll")
RULE = ("lists of 1-5 (part many: 6-300) files (valid, with non-blocking defects, malformed with and without such defects, empty; in all kinds of orders) printed by one run with random options; stdout must be the concatenation of the stdout of single-file runs up to the first malformed one, and the "
        "messages those of the single runs, warnings last. Part full: the real program whose output has room for some bytes only, or is closed. Non-trivial: at least two files with output, or no room for all of it.")


WARN = ["[TRUE]", '{"a":1,"a":2}', '["\\q"]', '[Null,\n False]', '{"b":[],"a":{"x":1,\n"x":2}}', '{"A":[nuLL,"\\ud800"]}']
BAD = ["", " ", "[1,", "[1 2]", "{", "?", '{"a":1,"b"}', "[\n\n\n1e999]", "]", "[TRUE,", '{"a":1,\n"a":FALSE', '["\\q",]']
SHAPES = ["gg", "ggg", "gw", "wg", "ww", "wb", "gwb", "wgb", "wwb", "wbg", "wbw", "gb", "bg", "gbg", "gwgb", "ggb", "gwgwg", "wgwbg", "ggggg", "gggb", "g", "w", "b", "wwww", "gggbw"]


@st.composite
def case(draw, tier):
    shape = draw(st.sampled_from(SHAPES))
    warns = "w" in shape and draw(st.integers(0, 4)) > 0
    opts = draw(st.lists(st.sampled_from(["--compress", "--keep-order", "--ascii", "--color=never"]), max_size=3, unique=True))
    if warns or draw(st.booleans()):
        opts.insert(draw(st.integers(0, len(opts))), "-W")
    small = draw(st.booleans())
    kinds = {"g": any_doc("quick").map(lambda n: gen.spell(n, gen.Style([5, 1, 2]))) if not small else st.sampled_from(["[]", "1", '{"a":[1,{}]}', '"text"', "null", '["é",1.5]', "[\n1\n]\n"]), "w": st.sampled_from(WARN), "b": st.sampled_from(BAD)}
    return {"files": [draw(kinds[k]) for k in shape], "opts": opts, "tail": draw(st.booleans()), "names": draw(st.permutations(["a.json", "b.json", "c", "d.txt", "e.json"]))}


EOF = re.compile(rb"^(?:Error: )?jsonstroll: (.*) \S+ \(.*\) error while reading\n", re.M)


def check(ctx, c):
    paths = [ctx.file(n, enc(t)) for n, t in zip(c["names"], c["files"])]
    opts = c["opts"]
    single = []
    args_tail = c["tail"] and "\0" not in c["files"][-1]
    for i, (p, t) in enumerate(zip(paths, c["files"])):
        if args_tail and i == len(paths) - 1:
            single.append(ctx.stroll.main(opts + ["--"] + [enc(t)]))
        else:
            single.append(ctx.stroll.main(opts + [p]))
    out, warns, errs, n = b"", b"", b"", 0
    for r in single:
        if r.outcome != "ret:0":
            fail("single run ended with " + r.outcome)
        if not r.out:
            errs += r.err
            break
        out += r.out
        warns += r.err
        n += 1
    if args_tail:
        r = ctx.stroll.main(opts + paths[:-1] + ["--"] + [enc(c["files"][-1])])
    else:
        r = ctx.stroll.main(opts + paths)
    if r.outcome != "ret:0":
        fail("run on %d files ended with %s" % (len(paths), r.outcome), stderr=r.err)
    if r.out != out:
        fail("output on %d files is not that of each of them (up to the first malformed one)" % len(paths), files=c["files"], stdout=r.out, expected=out)
    if sorted(r.err.splitlines()) != sorted((errs + warns).splitlines()):
        fail("messages on %d files are not those of each of them" % len(paths), files=c["files"], stderr=r.err, expected=errs + warns)
    # and they name the file they are about
    both = errs + warns
    eof = EOF.findall(both)
    located, rest = messages(EOF.sub(b"", both))
    if rest:
        fail("unknown message", files=c["files"], stderr=rest)
    for m in located + [(None, x) for x in eof]:
        if m[1] not in [enc(p) for p in paths] + [b"ARGS"]:
            fail("message names %r" % m[1], files=c["files"])
    if n < len(single) and n < len(paths):
        name = enc(paths[n]) if not (args_tail and n == len(paths) - 1) else b"ARGS"
        if name not in errs:
            fail("the message about the malformed file does not name it", stderr=errs, file=paths[n])
    return {"%d files" % len(paths)} | ({"!"} if n >= 2 else set()) | ({"stopped"} if n < len(paths) else set()) | ({"warnings"} if warns else set())


@st.composite
def many_case(draw, tier):
    """long lists of files, some of them large"""
    n = draw(st.one_of(st.integers(6, 40), st.sampled_from([31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300])))
    small = st.sampled_from(["[]", "1", '{"a":[1,{}]}', '"text"', "null", '["é",1.5]', "[\n1\n]\n", "[TRUE]", "[1,2]"])
    files = (draw(st.lists(small, min_size=1, max_size=6)) * n)[:n]
    for i in draw(st.lists(st.integers(0, n - 1), max_size=3)):
        files[i] = "[" + " " * draw(large.sizes(16)) + '"%d"]' % i
    bad = draw(st.sampled_from([None, None, 0, 1, 2, 3]))
    if bad is not None:
        files[n - 1 - bad] = draw(st.sampled_from(BAD))
    return {"files": files, "opts": draw(st.sampled_from([["-W"], ["-W", "--compress"], ["--keep-order", "-W"], []])), "tail": draw(st.booleans()), "names": ["f%d" % (i * 37 % n if n % 37 else i) for i in range(n)]}


@st.composite
def full_case(draw, tier):
    c = draw(case(tier))
    if draw(st.booleans()):
        c["files"][draw(st.integers(0, len(c["files"]) - 1))] = '["%s",%s]' % ("x" * draw(st.sampled_from([10, 1000, 8191, 20000])), ",".join("1" * draw(st.sampled_from([1, 500, 5000]))))
    c["room"] = draw(st.sampled_from(["none", "none", "closed", "cut", "cut", "cut", "enough"]))
    c["cut"] = draw(st.integers(0, 9999))
    return c


def full(ctx, c):
    """an output with no room left"""
    paths = [ctx.file(n, enc(t)) for n, t in zip(c["names"], c["files"])]
    r = ctx.stroll.main(c["opts"] + paths)
    if r.outcome != "ret:0":
        fail("run on %d files ended with %s" % (len(paths), r.outcome), stderr=r.err)
    room = {"none": 0, "closed": 0, "cut": len(r.out) * c["cut"] // 10000, "enough": len(r.out)}[c["room"]]
    dest = os.path.join(ctx.dir, "out")

    def limit():
        resource.setrlimit(resource.RLIMIT_CPU, (20, 25))
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        if c["room"] in ("cut", "enough"):
            resource.setrlimit(resource.RLIMIT_FSIZE, (room, room))
        if c["room"] == "closed":
            os.close(1)
    with open("/dev/full" if c["room"] == "none" else dest, "wb") as out:
        p = subprocess.run(["jsonstroll"] + [enc(a) for a in c["opts"] + paths], executable=ctx.exes["stroll"], stdin=subprocess.DEVNULL, stdout=out, stderr=subprocess.PIPE, preexec_fn=limit, timeout=100, cwd=ctx.dir,
                           env={"LC_ALL": "C", "ASAN_OPTIONS": "detect_leaks=0:exitcode=99:abort_on_error=0", "TERM": "xterm", "PATH": "/usr/bin:/bin"})
    lost = len(r.out) > room
    if p.returncode != (1 if lost else 0):
        fail("%d bytes of output, room for %d: status %d" % (len(r.out), room, p.returncode), argv=c["opts"] + paths, stderr=p.stderr)
    if c["room"] in ("cut", "enough"):
        got = open(dest, "rb").read()
        if got != r.out[:room]:
            fail("what was written is not the beginning of the output", stdout=got, expected=r.out[:room])
    if not p.stderr.startswith(r.err):
        fail("the messages about the files are not those of a run with enough room", stderr=p.stderr, expected=r.err)
    if (p.stderr == r.err) == lost:
        fail("output lost without a message" if lost else "unexpected message", argv=c["opts"] + paths, stderr=p.stderr)
    return {c["room"]} | ({"!"} if lost else set())


PARTS = [Part("lists", case, check, 3500), Part("many", many_case, check, 120), Part("full", full_case, full, 240)]
