from hypothesis import strategies as st

import gen
from common import enc, fail
from core import Part
from worker import KEY, resize

ID = "C06"
RULE = ("byte strings: random bytes, random texts over JSON's alphabet, spelt documents with 0-8 random byte edits, very deep or unterminated nesting, very long tokens; with random options, through "
        "stdin/file/arguments, printed, shown in the viewer or compared (with a few random keys), under AddressSanitizer and a CPU budget. Oracle: normal exit status, and a document or a message. "
        "Non-trivial: at least 5 bytes, of which an edit or an option beyond the plain run.")

OPTS = [[], ["-W"], ["--ascii"], ["--compress"], ["--keep-order"], ["--color"], ["--color=never"], ["--color=always"]]
ALPHA = [b"{", b"}", b"[", b"]", b":", b",", b'"', b"\\", b"/", b"0", b"1", b"-", b"+", b".", b"e", b"E", b"true", b"false", b"null", b"\\u", b"00", b"D8", b"\\ud83d\\ude00",
         b" ", b"\n", b"\r", b"\t", b"\0", b"\x7f", b"\x80", b"\xff", b"\xc3\xa9", b"T", b"n", b'"a"', b'{"a":', b"[1,", b"x"]


def junk():
    rnd = st.binary(max_size=60)
    words = st.lists(st.sampled_from(ALPHA), max_size=40).map(b"".join)
    edit = st.tuples(st.sampled_from(["set", "ins", "del", "dup", "cut", "word"]), st.integers(0, 4000), st.integers(0, 255))
    doc = st.builds(mutate, gen.node(gen.text(8), gen.text(4), max_leaves=20), gen.styles, st.lists(edit, max_size=8))
    return st.one_of(rnd, words, doc, doc, doc)


def mutate(node, style, edits):
    b = bytearray(enc(gen.spell(node, gen.Style(style))))
    for op, at, v in edits:
        i = at % (len(b) + 1)
        if op == "set" and i < len(b):
            b[i] = v
        elif op == "ins":
            b[i:i] = bytes([v])
        elif op == "del":
            del b[i:i + 1 + v % 4]
        elif op == "dup":
            b[i:i] = b[max(0, i - 1 - v % 40):i]
        elif op == "cut" and v < 40:
            del b[i:]
        elif op == "word":
            b[i:i] = ALPHA[v % len(ALPHA)]
    return bytes(b)


KEYS = [ord(c) for c in "qjklhn/ i\\\n\x1b\x17w"] + [KEY["down"], KEY["up"], KEY["left"], KEY["right"], KEY["npage"], KEY["ppage"], KEY["backspace"], -1, KEY["sigint"], KEY["sigterm"],
                                                    resize(10, 4), resize(80, 24), resize(1, 1), resize(200, 50), resize(33, 7)]


def case(tier):
    return st.fixed_dictionaries({
        "data": st.lists(junk().map(lambda b: b.hex()), min_size=1, max_size=2), "opts": st.lists(st.sampled_from(OPTS), max_size=3),
        "mode": st.sampled_from(["print", "print", "print", "tui", "diff"]), "src": st.sampled_from(["stdin", "file", "args"]),
        "keys": st.lists(st.sampled_from(KEYS), max_size=12), "size": st.sampled_from([[80, 24], [20, 6], [40, 10], [12, 3], [7, 4]])})


def verdict(r, what):
    if not (r.outcome.startswith("ret:") or r.outcome.startswith("exit:")) or r.outcome.split(":")[1] not in ("0", "1"):
        fail("abnormal end: " + r.outcome, input=what, stderr=r.err)


def check(ctx, c):
    datas = [bytes.fromhex(d) for d in c["data"]]
    opts = [o for l in c["opts"] for o in l]
    labels = {c["mode"]}
    if len(datas[0]) >= 5:
        labels.add("!")
    if c["mode"] == "print":
        if c["src"] == "args":
            a = datas[0].replace(b"\0", b" ").split(b" ")
            r = ctx.stroll.main(opts + ["--"] + a)
        elif c["src"] == "stdin":
            r = ctx.stroll.main(opts, stdin=datas[0])
        else:
            r = ctx.stroll.main(opts + [ctx.file("%d.json" % i, d) for i, d in enumerate(datas)])
        verdict(r, datas[0])
        if not r.out and not r.err:
            fail("neither a document nor a message", input=datas[0])
        labels.add("printed" if r.out else "rejected")
    else:
        if c["mode"] == "diff":
            opts = ["--diff"] + opts
            datas = (datas * 2)[:2]
        if "--compress" in opts and c["mode"] == "tui":
            opts.remove("--compress")
        size = c["size"] if c["mode"] == "tui" else [max(c["size"][0], 20), max(c["size"][1], 6)]
        keys = c["keys"] if c["mode"] == "tui" else [k for k in c["keys"] if k not in (resize(1, 1),)]
        r = ctx.stroll.tui(opts + [ctx.file("%d.json" % i, d) for i, d in enumerate(datas)], keys + [27, ord("q"), ord("q"), ord("q")], size=size)
        if r.outcome == "stuck":
            fail("q does not end the viewer", input=datas[0])
        verdict(r, datas[0])
        labels.add("shown" if r.shots else "rejected")
    return labels


def big_case(tier):
    lim = 400000 if tier == "thorough" else 60000
    return st.fixed_dictionaries({"unit": st.sampled_from(["[", '{"a":', '[{"k":', "[[],", "{", '"x', '"', "1", "1.", "-", "1e", " ", "\n", "tru", "a", "\\", '"\\u', '"\\ud800', '"k":', "é", "]", "[1,", '{"":[']),
                                  "n": st.one_of(st.integers(1, 3000), st.integers(1, lim)), "tail": st.sampled_from(["", "]", "}", "1", '"', "[]", "?"]), "head": st.sampled_from(["", '"', "[", "{", "[1", "1"]),
                                  "close": st.booleans(), "opts": st.lists(st.sampled_from(OPTS), max_size=2)})


def big(ctx, c):
    t = c["head"] + c["unit"] * c["n"] + c["tail"]
    if c["close"]:
        t += {"[": "]", '{"a":': "}", '[{"k":': "}]"}.get(c["unit"], '"') * c["n"]
    data = enc(t)
    r = ctx.stroll.main([o for l in c["opts"] for o in l], stdin=data)
    verdict(r, data[:60])
    if not r.out and not r.err:
        fail("neither a document nor a message", input=data[:60])
    return {"!"} if c["n"] > 100 else set()


PARTS = [Part("bytes", case, check, 20000), Part("big", big_case, big, 600)]
