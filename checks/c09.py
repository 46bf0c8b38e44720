import json

from hypothesis import strategies as st

import gen
from common import SOURCES, accepted, enc, fail, feed, rejected
from core import Part

ID = "C09"
RULE = ("texts over all of Unicode, every character spelt at random as itself, as \\uXXXX in random case (surrogate pairs beyond the BMP) or as a short escape, used as values and keys; default mode and --ascii "
        "compared with a reference decoder and a reference of what stays escaped. All 65536 single escapes and a spread of surrogate pairs are enumerated. Non-trivial: at least one escape.")


def piece(ch, how):
    """(source spelling, default-mode text, --ascii text) of one character"""
    o = ord(ch)
    if how in (1, 2, 3):
        us = [o] if o < 0x10000 else [0xd800 + ((o - 0x10000) >> 10), 0xdc00 + ((o - 0x10000) & 0x3ff)]
        src = "".join("\\u" + "".join(d.upper() if (how == 2 or (how == 3 and i % 2)) else d for i, d in enumerate("%04x" % u)) for u in us)
        return src, gen.printed(ch)[1:-1], src
    if ch in gen.SHORT and (ch != "/" or how == 4):
        src = gen.SHORT[ch]
        return src, {"/": "/"}.get(ch, src), {"/": "/"}.get(ch, src)
    if o < 32:
        src = "\\u%04x" % o
        return src, src, src
    return ch, ch, ch


def case(tier):
    ch = st.one_of(st.sampled_from([x for x in gen.SPECIAL if len(x) == 1]), st.characters(min_codepoint=32, max_codepoint=126),
                   st.characters(min_codepoint=0, max_codepoint=0xffff, exclude_categories=("Cs",)), st.characters(min_codepoint=0x10000, max_codepoint=0x10ffff))
    s = st.lists(st.tuples(ch, st.integers(0, 4)).map(list), max_size=60 if tier == "thorough" else 16)
    return st.fixed_dictionaries({"texts": st.lists(st.tuples(s, st.booleans()).map(list), min_size=1, max_size=4), "src": st.sampled_from(SOURCES), "compress": st.booleans()})


def check(ctx, c):
    ents = []
    for i, (s, askey) in enumerate(c["texts"]):
        p = [piece(ch, how) for ch, how in s]
        cols = ["".join(x[k] for x in p) for k in range(3)]
        ents.append((cols, "".join(ch for ch, _ in s), askey, i))
    def build(col):
        out = []
        for cols, _, askey, i in ents:
            t = cols[col]
            out.append('{"%s":%d}' % (t, i) if askey else '"%s"' % t)
        return "[" + ",".join(out) + "]"
    src = build(0)
    opts = ["--compress"] if c["compress"] else []
    out = accepted(feed(ctx, src, c["src"], opts), "strings %r" % src)
    asc = accepted(feed(ctx, src, c["src"], opts + ["--ascii"]), "strings %r" % src)
    want = [({t: i} if askey else t) for _, t, askey, i in ents]
    for name, o in (("default", out), ("--ascii", asc)):
        try:
            got = json.loads(o)
        except ValueError as e:
            fail("%s output is not JSON: %s" % (name, e), input=src, stdout=o)
        # an escape kept by --ascii may be a lone half in the middle of text only if the source had it
        if got != want:
            fail("%s output holds other strings" % name, input=src, stdout=o, expected=want)
    for name, o, col in (("default", out, 1), ("--ascii", asc, 2)):
        if c["compress"] and o != build(col):
            fail("%s mode prints another form" % name, input=src, stdout=o, expected=build(col))
    esc = any(how in (1, 2, 3) for s, _ in c["texts"] for _, how in s)
    return {c["src"]} | ({"!"} if esc else set()) | ({"supplementary"} if any(ord(ch) > 0xffff for s, _ in c["texts"] for ch, _ in s) else set())


def block_case(tier):
    return st.fixed_dictionaries({"hi": st.integers(0, 255), "upper": st.booleans(), "key": st.booleans()})


def block(ctx, c):
    """256 consecutive escapes"""
    fmt = "\\u%04X" if c["upper"] else "\\u%04x"
    items, want, wasc = [], [], []
    for lo in range(256):
        u = c["hi"] * 256 + lo
        e = fmt % u
        items.append(e)
        wasc.append(e)
        if 0xd800 <= u < 0xe000:
            want.append(None)
        else:
            want.append(chr(u))
    if c["key"]:
        asc_src = "[" + ",".join('{"%s":0}' % e for e in items) + "]"
        src = "[" + ",".join('{"%s":0}' % e for e, w in zip(items, want) if w is not None) + "]"
    else:
        asc_src = "[" + ",".join('"%s"' % e for e in items) + "]"
        src = "[" + ",".join('"%s"' % e for e, w in zip(items, want) if w is not None) + "]"
    out = accepted(feed(ctx, asc_src, "stdin", ["--ascii", "--compress"]))
    if out != asc_src:
        fail("--ascii alters escapes of block %02x" % c["hi"], stdout=out[:2000])
    got = json.loads(accepted(feed(ctx, src, "stdin", ["--compress"])))
    got = [next(iter(g)) if c["key"] else g for g in got]
    if got != [w for w in want if w is not None]:
        fail("escapes of block %02x stand for other characters" % c["hi"])
    return {"!"}


def pair_case(tier):
    return st.fixed_dictionaries({"hi": st.integers(0xd800, 0xdbff), "lo": st.integers(0xdc00, 0xdfff), "bad": st.integers(0, 9), "upper": st.booleans()})


def pair(ctx, c):
    f = (lambda u: "\\u%04X" % u) if c["upper"] else (lambda u: "\\u%04x" % u)
    cp = 0x10000 + ((c["hi"] - 0xd800) << 10) + (c["lo"] - 0xdc00)
    kinds = {0: f(c["hi"]) + f(c["lo"]), 1: f(c["lo"]) + f(c["hi"]), 2: f(c["hi"]), 3: f(c["lo"]), 4: f(c["hi"]) + "x", 5: f(c["hi"]) + f(c["hi"]),
             6: f(c["hi"]) + "\\n", 7: f(c["hi"]) + f(0x41), 8: f(c["hi"]) + f(c["lo"]) + f(c["lo"]), 9: "ab" + f(c["hi"]) + f(c["lo"]) + "c"}
    body = kinds[c["bad"]]
    src = '["' + body + '"]'
    r = feed(ctx, src, "stdin", ["--compress"])
    if c["bad"] in (0, 9):
        if accepted(r) != '["' + body.replace(kinds[0], chr(cp)) + '"]':
            fail("surrogate pair stands for another character", input=src, stdout=r.out)
    else:
        rejected(r, enc(src))
    if accepted(feed(ctx, src, "stdin", ["--compress", "--ascii"])) != src:
        fail("--ascii does not keep escapes", input=src)
    return {"!", "pair" if c["bad"] in (0, 9) else "lone"}


PARTS = [Part("texts", case, check, 7000),
         Part("blocks", block_case, block, 160, 2000, examples=[{"hi": i, "upper": bool(i % 2), "key": bool(i % 3 == 0)} for i in range(256)]),
         Part("pairs", pair_case, pair, 3000)]
