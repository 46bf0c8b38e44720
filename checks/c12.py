import os

from hypothesis import strategies as st

from common import enc, fail
from core import Part

ID = "C12"
RULE = ("command lines made of 0-6 items (options, files, repeated and missing files, wrong options and values, options with one character changed, --help/--version) in random order with an optional '-- text ...' tail, on documents where every option shows; "
        "a reference model of the command line gives exit status, what is printed and what is not. Non-trivial: at least two items.")

GOOD = ["-W", "--ascii", "--compress", "--keep-order", "--color", "--color=always", "--color=never"]
BAD = ["-", "-x", "--", "--Compress", "--keep-order=1", "--color=", "--color=maybe", "---", "-w", "--asci", "--compress ", "-Wx", "-help", "--colour", "--diffx"]
STOP = ["--help", "-h", "--version", "-v"]
KNOWN = set(GOOD + STOP + ["--diff", "--diff-cmd", "--"])


def near(x):
    """an option with a change of one character"""
    opt, op, at, ch = x
    at %= len(opt)
    opt = {"add": opt + ch, "ins": opt[:at] + ch + opt[at:], "del": opt[:at] + opt[at + 1:], "rep": opt[:at] + ch + opt[at + 1:], "case": opt[:at] + opt[at].swapcase() + opt[at + 1:], "cut": opt[:at]}[op]
    return "-x" if opt in KNOWN else opt


NEAR = st.tuples(st.sampled_from(sorted(KNOWN)), st.sampled_from(["add", "add", "ins", "del", "rep", "case", "cut"]), st.integers(0, 30), st.sampled_from("-=sexa1 W")).map(near)


def case(tier):
    it = st.one_of(st.sampled_from(GOOD), st.sampled_from(GOOD), st.sampled_from(["F0", "F1", "F2"]), st.sampled_from(["F0", "F1"]),
                   st.sampled_from(BAD[:2] + BAD[3:] + ["missing.json", "dir/missing", ""]), NEAR, st.sampled_from(STOP))
    ok = st.one_of(st.sampled_from(GOOD), st.sampled_from(GOOD), st.sampled_from(["F0", "F1", "F2"]))
    items = st.one_of(st.lists(ok, max_size=7), st.lists(ok, max_size=5), st.lists(it, max_size=6), st.tuples(st.lists(ok, max_size=3), st.one_of(NEAR, NEAR, it), st.lists(ok, max_size=2)).map(lambda x: x[0] + [x[1]] + x[2]))
    tail = st.one_of(st.none(), st.none(), st.lists(st.sampled_from(['{"z":', "[1,", '"-W"', "]", "}", '"a b"', ",", ":", "1", '["--compress",', "null", "", '"  "', "-W", "--help", "-1"]), max_size=5),
                     st.text("ab -,", max_size=8).map(lambda t: ('["%s"]' % t).split(" ")), st.just(["T"]), st.just(["T3"]))
    return st.fixed_dictionaries({"items": items, "tail": tail, "diff": st.sampled_from([False] * 5 + [True]), "at": st.integers(0, 7), "names": st.booleans()})


def source(k):
    """a document on which strictness, order, escapes and layout all show"""
    return '{"b%d":[1,"\\u00e9"],"a":{"z":%s,"y":"\\u0041"}}' % (k, "true" if k else "TRUE")


def expected(k, opts):
    """stdout for source(k), None if rejected"""
    if k == 0 and "-W" not in opts:
        return None
    e, y = ("\\u00e9", "\\u0041") if "--ascii" in opts else ("é", "A")
    b = ('"b%d":' % k, '[1,"%s"]' % e, ['[', '    1', '    ,"%s"' % e, ']'])
    inner = [('"z":', "true"), ('"y":', '"%s"' % y)]
    if "--keep-order" not in opts:
        inner.reverse()
    a = ('"a":', "{" + ",".join(x + v for x, v in inner) + "}", ["{"] + ["    " + ("," if i else "") + x + v for i, (x, v) in enumerate(inner)] + ["}"])
    ents = [b, a] if "--keep-order" in opts else [a, b]
    if "--compress" in opts:
        return "{" + ",".join(h + s for h, s, _ in ents) + "}"
    lines = ["{"]
    for i, (h, _, body) in enumerate(ents):
        lines.append("    " + ("," if i else "") + h)
        lines += ["    " + l for l in body]
    return "\n".join(lines + ["}"]) + "\n"


STDIN = 7
NAMES = ["F0.json", "STDIN", "ARGS"]    # names the program itself gives to inputs


def check(ctx, c):
    os.chdir(ctx.dir)
    paths = [ctx.file(x, enc(source(i))) for i, x in enumerate(NAMES)]
    if c["names"]:
        paths = NAMES
    av = [paths[int(x[1])] if x in ("F0", "F1", "F2") else x for x in c["items"]]
    if c["diff"]:
        av.insert(c["at"] % (len(av) + 1), "--diff")
    tail = c["tail"]
    if tail in (["T"], ["T3"]):
        tail = source(4).replace(",", ", ").split(" ") if tail == ["T"] else ["", source(5), ""]
        known = 4 if c["tail"] == ["T"] else 5
    else:
        known = None
    full = av + (["--"] + tail if tail is not None else [])
    # model
    opts, inputs, end = set(), [], None
    for a in av:
        if a in GOOD or a == "--diff":
            opts.add(a)
        elif a in STOP:
            end = "stop"
            break
        elif a in paths and a not in inputs:
            inputs.append(a)
        else:
            end = "error"
            break
    if end is None and tail is not None:
        inputs.append(None)
    n = len(inputs)
    labels = {"!"} if len(full) >= 2 else set()
    if end is None and "--diff" in opts and n == 2:
        r = ctx.stroll.tui(full, [ord("q")], size=(200, 20))
        bad = any(x == paths[0] for x in inputs) and "-W" not in opts or (None in inputs and known is None)
        if not bad:
            if r.outcome != "ret:0" or len(r.shots) != 1:
                fail("comparison is not shown", argv=full, outcome=r.outcome, stderr=r.err)
            for i, x in enumerate(inputs):
                if (x or "ARGS") not in r.shots[0].row(1)[i * 99:i * 99 + 100]:
                    fail("comparison does not show input %d on its side" % i, argv=full, screen=str(r.shots[0]))
        return labels | {"comparison"}
    r = ctx.stroll.main(full, stdin=enc(source(STDIN)))
    if end == "error":
        if r.outcome != "exit:1" and r.outcome != "ret:1":
            fail("wrong command line ends with %s" % r.outcome, argv=full, stdout=r.out, stderr=r.err)
        if not r.err.strip() or b"\x00" in r.err:
            fail("wrong command line without message", argv=full, stdout=r.out)
        if b"Usage:" not in r.out:
            fail("wrong command line is not answered with the usage", argv=full, stdout=r.out)
        if any(enc(expected(k, o)) in r.out for k in (1, 2, STDIN) for o in (set(), {"--compress"})):
            fail("a document is printed in spite of a wrong command line", argv=full, stdout=r.out)
        return labels | {"wrong"}
    if r.outcome != "ret:0":
        fail("command line ends with %s" % r.outcome, argv=full, stdout=r.out, stderr=r.err)
    if end == "stop":
        word = b"Usage:" if next(a for a in av if a in STOP) in ("--help", "-h") else b"suite"
        if word not in r.out or r.err or b'"' in r.out and b'"b' in r.out:
            fail("help or version expected", argv=full, stdout=r.out, stderr=r.err)
        return labels | {"help"}
    if "--diff" in opts:
        if not r.err or b"Usage:" not in r.out or b'"b' in r.out:
            fail("comparison of %d inputs is not refused" % n, argv=full, stdout=r.out, stderr=r.err)
        return labels | {"refused comparison"}
    want = b""
    if not inputs:
        inputs = [STDIN]
    for x in inputs:
        if x is None and known is None:
            # judged by giving the same text on standard input
            s = ctx.stroll.main(sorted(opts), stdin=enc(" ".join(tail)))
            w = s.out.decode() or None
        else:
            w = expected(known if x is None else x if x == STDIN else paths.index(x), opts)
        if w is None:
            break
        want += enc(w)
    if r.out != want:
        fail("output is not what the options ask for", argv=full, stdout=r.out, stderr=r.err, expected=want)
    return labels | {"printed" if want else "rejected"} | ({"tail"} if tail is not None else set())


def many_case(tier):
    n = st.one_of(st.integers(8, 60), st.sampled_from([127, 128, 129, 255, 256, 257, 1000, 1024, 1025, 4097]))
    return st.fixed_dictionaries({"n": n, "opts": st.lists(st.sampled_from(GOOD), min_size=1, max_size=5), "word": st.sampled_from(["1,", "{},", '"--compress",', "", '"a  b",']), "where": st.booleans(), "wrong": st.sampled_from(["", "", "", "-x", "missing.json"])})


def many(ctx, c):
    """long command lines: options repeated, a long tail"""
    n = c["n"]
    opts = (c["opts"] * n)[:n]
    tail = ["["] + [c["word"]] * n + ["0]"]
    av = opts + ([c["wrong"]] if c["wrong"] else []) + ["--"] + tail
    r = ctx.stroll.main(av)
    if c["wrong"]:
        if r.outcome not in ("exit:1", "ret:1") or not r.err.strip() or b"Usage:" not in r.out:
            fail("wrong command line of %d items ends with %s" % (len(av), r.outcome), stdout=r.out)
        return {"!", "wrong"}
    s = ctx.stroll.main(sorted(set(opts)), stdin=enc(" ".join(tail)))
    if r.outcome != "ret:0" or r.out != s.out or not r.out:
        fail("output of a command line of %d items is not what the options ask for: %s" % (len(av), r.outcome), stdout=r.out, expected=s.out, stderr=r.err)
    return {"!", "tail"}


PARTS = [Part("command lines", case, check, 16000), Part("many", many_case, many, 200)]
