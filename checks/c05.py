import math
import re

from hypothesis import strategies as st

import gen
import large
from common import SOURCES, accepted, any_doc, enc, fail, feed, rejected
from core import Part

ID = "C05"
RULE = ("token sequences of random documents with 1-3 random token edits (delete, duplicate, swap, replace, insert, put in quotes; misspelt literals, broken numbers and "
        "escapes, stray characters among the new tokens), judged by a reference recogniser: when no complete value comes first, nothing may be printed and "
        "a message must be; otherwise the value must be printed. Part 'characters': 1-2 characters of the text of a document are deleted, inserted, replaced or swapped, judged in the same way. Also every kind of truncation, repeated keys, nesting up to the limit. "
        "Non-trivial: the document is rejected, and the fault is not in its first token.")

BAD = ["tru", "fals", "nul", "True", "FALSE", "Null", "NULL", "nil", "?", "'a'", "+1", "-", "1e", "1E+", ".", "-.e1", "--1", '"\\q"', '"\\x41"', '"\\u12g4"', '"\\u 123"',
       '"\\u00-1"', '"\\ud800"', '"\\udc00"', '"\\udc00\\ud800"', '"\\ud800\\u0041"', '"\\ud83d\\n"', '"\\ud83dx"', "1e400", "-1e999", "=", "(", ")", "a", "/", "//x", "/*x*/",
       "#", ";", "\\", "`", "<", "&", "_", "undefined", "NaN", "Infinity", "-Infinity", "e5", "@", "$", "%", "*", "|", "~", "^", "!"]
GOODTOK = ["{", "}", "[", "]", ":", ",", "true", "false", "null", "0", "-7", "1.5", '"s"', '""', '"a"', '"]"', '","', '":"']


def tokens(n):
    k = n[0]
    if k == "a":
        out = ["["]
        for i, x in enumerate(n[1]):
            out += ([","] if i else []) + tokens(x)
        return out + ["]"]
    if k == "o":
        out = ["{"]
        for i, (key, x) in enumerate(n[1]):
            out += ([","] if i else []) + [gen.plain_string(key), ":"] + tokens(x)
        return out + ["}"]
    return [gen.compact(n)]


class Bad(Exception):
    def __init__(self, pos):
        self.pos = pos


def recognise(toks, lenient=False):
    """first complete value of the sequence, or Bad; lenient: as -W reads it (a repeated key counts as one more entry)"""
    import json
    pos = 0

    def take():
        nonlocal pos
        if pos >= len(toks):
            raise Bad(pos + 1)      # nothing left to read
        pos += 1
        return toks[pos - 1]

    def value(t, depth):
        if lenient and t.lower() in ("true", "false", "null"):
            t = t.lower()
        if t in BAD:
            raise Bad(pos)
        if t == "[":
            items = []
            t = take()
            if t == "]":
                return ["a", items]
            while True:
                items.append(value(t, depth + 1))
                t = take()
                if t == "]":
                    return ["a", items]
                if t != ",":
                    raise Bad(pos)
                t = take()
        if t == "{":
            ents, seen = [], set()
            t = take()
            if t == "}":
                return ["o", ents]
            while True:
                if not t.startswith('"') or t in BAD:
                    raise Bad(pos)
                key = json.loads(t, strict=False)
                if take() != ":":
                    raise Bad(pos)
                if key in seen:
                    if not lenient:
                        raise Bad(pos)
                    ents = [e for e in ents if e[0] != key]
                seen.add(key)
                ents.append([key, value(take(), depth + 1)])
                t = take()
                if t == "}":
                    return ["o", ents]
                if t != ",":
                    raise Bad(pos)
                t = take()
        if t in "]}:,":
            raise Bad(pos)
        if t.startswith('"'):
            return ["s", json.loads(t, strict=False)]
        if t in ("true", "false"):
            return ["b", t == "true"]
        if t == "null":
            return ["z"]
        return ["n", t]
    return value(take(), 0)


def edits():
    tok = st.one_of(st.sampled_from(GOODTOK), st.sampled_from(GOODTOK), st.sampled_from(BAD))
    at = st.integers(0, 200)
    return st.lists(st.one_of(
        st.tuples(st.just("del"), at), st.tuples(st.just("dup"), at), st.tuples(st.just("swap"), at), st.tuples(st.just("quote"), at, st.sampled_from(["{}[]:,", "", ":", ",]}", "{["])),
        st.tuples(st.just("rep"), at, tok), st.tuples(st.just("ins"), at, tok)).map(list), min_size=1, max_size=3)


def case(tier):
    return st.fixed_dictionaries({"doc": gen.node(gen.text(4), gen.word(3), max_leaves=16), "edits": edits(), "style": gen.styles,
                                  "src": st.sampled_from(SOURCES), "opts": st.sampled_from([[], ["--compress"], ["--keep-order"]])})


SEP = [" ", "\n", "\t", "  ", "\r\n"]


def edited(c):
    toks = tokens(c["doc"])
    for e in c["edits"]:
        if not toks:
            break
        i = e[1] % len(toks)
        if e[0] == "del":
            del toks[i]
        elif e[0] == "dup":
            toks.insert(i, toks[i])
        elif e[0] == "swap":
            j = (i + 1) % len(toks)
            toks[i], toks[j] = toks[j], toks[i]
        elif e[0] == "rep":
            toks[i] = e[2]
        elif e[0] == "quote":
            some = [j for j, t in enumerate(toks) if t in e[2] and t not in BAD] or [i]
            i = some[e[1] % len(some)]
            t = toks[i]
            if not t.startswith('"'):
                toks[i] = '"' + t + '"'
            elif t[1:-1] in GOODTOK and len(t) > 2:
                toks[i] = t[1:-1]
        else:
            toks.insert(i, e[2])
    return toks


def check(ctx, c):
    toks = edited(c)
    sty = gen.Style(c["style"])
    text = "".join(t + SEP[sty.pick(len(SEP))] for t in toks)
    try:
        want = recognise(toks)
    except Bad as e:
        rejected(feed(ctx, text, c["src"], c["opts"]), enc(text))
        return {"rejected"} | ({"!"} if e.pos > 1 else set())
    out = accepted(feed(ctx, text, c["src"], c["opts"]), "document %r" % text)
    d = gen.same_doc(gen.ordered(want, "--keep-order" in c["opts"]), gen.parse_output(out))
    if d:
        fail("printed document differs at " + d, input=text, stdout=out)
    return {"accepted"}


ALPHABET = list('{}[]:,"\\-+.eE0123456789truefalsnTFN/xbu \'')
NUMBER = re.compile(r"-?(0|[1-9]\d*)(\.\d+)?([eE][+-]?\d+)?")
STRICT_ESCAPES = re.compile(r'"([^"\\]|\\["\\/bfnrt]|\\u(?![dD][89a-fA-F])[0-9a-fA-F]{4}|\\u[dD][89abAB][0-9a-fA-F]{2}\\u[dD][c-fC-F][0-9a-fA-F]{2})*"')
SCAN = re.compile(r'"(?:[^"\\]|\\.)*"|[{}\[\]:,]|[ \t\r\n]+|[^ \t\r\n{}\[\]:,"]+|"', re.S)


def char_case(tier):
    at = st.integers(0, 400)
    edit = st.one_of(st.tuples(st.just("del"), at), st.tuples(st.just("dup"), at), st.tuples(st.just("swap"), at), st.tuples(st.just("rep"), at, st.sampled_from(ALPHABET)),
                     st.tuples(st.just("ins"), at, st.sampled_from(ALPHABET))).map(list)
    return st.fixed_dictionaries({"doc": gen.node(gen.text(4), gen.word(3), max_leaves=10), "edits": st.lists(edit, min_size=1, max_size=2), "src": st.sampled_from(("stdin", "file")),
                                  "opts": st.sampled_from([[], ["--compress"], ["--keep-order"]])})


def edited_text(c):
    text = gen.compact(c["doc"])
    for e in c["edits"]:
        if not text:
            break
        i = e[1] % len(text)
        if e[0] == "del":
            text = text[:i] + text[i + 1:]
        elif e[0] == "dup":
            text = text[:i] + text[i] + text[i:]
        elif e[0] == "swap":
            text = text[:i] + text[i:i + 2][::-1] + text[i + 2:]
        elif e[0] == "rep":
            text = text[:i] + e[2] + text[i + 1:]
        else:
            text = text[:i] + e[2] + text[i:]
    return text


def chars(ctx, c, lenient=False):
    text = edited_text(c)
    if text[:1] not in ("[", "{"):
        return {"not a container"}      # a value may be followed by anything
    toks, odd, odd_text, texts = [], set(), False, []
    for t in SCAN.findall(text):
        if not t.strip(" \t\r\n"):
            continue
        if t[0] != '"' and not (t.isascii() and t.isprintable()):
            return {"other white space"}    # bytes which are not printable ASCII characters separate tokens
        if t[0] == '"':
            good = STRICT_ESCAPES.fullmatch(re.sub(r"\\([^u])", r"\\\\", t, flags=re.S) if lenient else t)
            if good and lenient and not STRICT_ESCAPES.fullmatch(t):
                odd_text = True
                if t in texts:
                    return {"ambiguous"}
                texts.append(t)
                t = '"odd text %d"' % texts.index(t)
        elif t in "{}[]:," or (t.lower() if lenient else t) in ("true", "false", "null"):
            good = True
        else:
            good = NUMBER.fullmatch(t)
            if good and not math.isfinite(float(t)):
                good = False
            elif not good and re.fullmatch(r"-?[0-9]*\.?[0-9]*([eE][+-]?[0-9]+)?", t) and re.search("[0-9]", t):
                odd.add(len(toks))      # other spellings of numbers: C10
        toks.append(t if good else "?")
    try:
        want = recognise(["1" if i in odd else t for i, t in enumerate(toks)], lenient)
    except Bad as e:
        if any(i < e.pos for i in odd):
            return {"odd number"}
        rejected(feed(ctx, text, c["src"], c["opts"] + (["-W"] if lenient else [])), enc(text))
        return {"rejected"} | ({"!"} if e.pos > 1 else set())
    if odd:
        return {"odd number"}
    if lenient:
        out = tolerated(feed(ctx, text, c["src"], c["opts"] + ["-W"]), text)
        if odd_text:
            return {"accepted", "unknown escapes"}
    else:
        out = accepted(feed(ctx, text, c["src"], c["opts"]), "document %r" % text)
    d = gen.same_doc(gen.ordered(want, "--keep-order" in c["opts"]), gen.parse_output(out))
    if d:
        fail("printed document differs at " + d, input=text, stdout=out)
    return {"accepted"}


def tolerated(r, text):
    if r.outcome != "ret:0" or not r.out:
        fail("document %r is not printed with -W" % text, outcome=r.outcome, stderr=r.err)
    return r.out.decode("utf-8")


def cut_case(tier):
    root = any_doc(tier).filter(lambda n: n[0] in "aos")
    return st.fixed_dictionaries({"doc": root, "style": gen.styles, "cut": st.integers(0, 5000), "src": st.sampled_from(("stdin", "file")),
                                  "opts": st.sampled_from([[], ["-W"], ["--compress"], ["--ascii"]])})


def cut(ctx, c):
    data = enc(gen.spell(c["doc"], gen.Style(c["style"]))).rstrip(b" \t\r\n")
    data = data[:c["cut"] % len(data)]
    rejected(feed(ctx, data, c["src"], c["opts"]), data)
    return {"!", "truncated"} if len(data) > 2 else {"truncated"}


def dup_case(tier):
    return st.fixed_dictionaries({"doc": gen.node(gen.text(4), gen.text(3), max_leaves=14), "style": gen.styles, "which": st.integers(0, 50),
                                  "frm": st.integers(0, 50), "to": st.integers(0, 50), "keep": st.booleans()})


def dup(ctx, c):
    objs = [x for x in gen.walk(c["doc"]) if x[0] == "o" and x[1]]
    if not objs:
        return {"no object"}
    o = objs[c["which"] % len(objs)]
    k, v = o[1][c["frm"] % len(o[1])]
    saved = list(o[1])
    o[1].insert(c["to"] % (len(o[1]) + 1), [k, ["n", "1"]])
    try:
        text = gen.spell(c["doc"], gen.Style(c["style"]))
    finally:
        o[1][:] = saved
    rejected(feed(ctx, text, "stdin", ["--keep-order"] if c["keep"] else []), enc(text))
    return {"!", "repeated key"}


def deep_case(tier):
    return st.fixed_dictionaries({"n": st.integers(500, 1020), "kinds": st.lists(st.booleans(), min_size=1, max_size=5), "flaw": st.integers(0, 5)})


def deep(ctx, c):
    n = c["n"]
    opn, cls = [], []
    for i in range(n):
        if c["kinds"][i % len(c["kinds"])]:
            opn.append('{"k":')
            cls.append("}")
        else:
            opn.append("[")
            cls.append("]")
    cls.reverse()
    if c["flaw"] == 1:
        cls.pop()
    elif c["flaw"] == 2:
        cls[0] = "}" if cls[0] == "]" else "]"
    elif c["flaw"] == 3:
        opn.append(",")
    text = "".join(opn) + "1" + "".join(cls)
    r = feed(ctx, text, "stdin", ["--compress"])
    if c["flaw"] in (1, 2, 3):
        rejected(r, enc(text[:80]))
    elif accepted(r) != text:
        fail("deep document is not printed as it was read", depth=n)
    return {"!"}


def large_case(tier):
    return st.tuples(large.case(tier), st.sampled_from(["cut", "?", "close", "comma", "key", "colon", "quote"]), st.integers(0, 9)).map(list)


def large_flaw(ctx, c):
    """a flaw at the end of, or right behind, something large"""
    what, flaw, i = c
    doc, text = large.build(what)
    if flaw == "cut":
        text = text.rstrip()[:-1 - i]
    elif flaw == "close":
        text = text.rstrip()[:-1] + ("]" if what["holder"] else "}")
    elif flaw == "quote":
        text = text.replace('"end"', '"end', 1)
    elif flaw == "key":
        if what["kind"] == "entries":
            first = text.index('"k0":')
            end = text.index("}", first)
            text = text[:end] + ',"k0":1' + text[end:]
        elif what["kind"] == "key":
            box = doc[1][1] if not what["holder"] else doc[1][1][1]
            box[1][1][0] = box[1][0][0]
            text = gen.compact(doc)
        else:
            text = text[:-1] + (',"a":1}' if what["holder"] else ',{"a":1,"a":2}]')
    else:
        at = text.rindex('"end"')
        text = text[:at] + {"?": "?", "comma": ",", "colon": ":"}[flaw] + text[at:]
    rejected(feed(ctx, text, what["src"], []), enc(text[:300]))
    return large.labels(what) | {flaw}


PARTS = [Part("tokens", case, check, 11000, examples=[
    {"doc": ["a", []], "edits": [["rep", 0, t]], "style": [], "src": "stdin", "opts": []} for t in BAD] + [
    {"doc": ["o", [["a", ["a", []]]]], "edits": [["rep", 3, t], ["del", 4]], "style": [], "src": "stdin", "opts": []} for t in BAD]),
    Part("characters", char_case, chars, 9000), Part("truncated", cut_case, cut, 4000), Part("repeated key", dup_case, dup, 3000), Part("deep", deep_case, deep, 200),
    Part("large", large_case, large_flaw, 400)]
