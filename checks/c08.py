from hypothesis import strategies as st

import gen
import large
from c05 import Bad, recognise
from common import any_doc, check_place, enc, fail, feed, input_name, messages
from core import Part

ID = "C08"
RULE = ("random documents laid out with random white space and line ends (LF, CR, CRLF, mixed, empty lines), long lines included, with one defect injected at a random token "
        "(illegal character, misplaced punctuation, invalid number, escape, hexadecimal digit, surrogate, literal, repeated key, truncation); line, column, excerpt and marker of the message "
        "are compared with those computed from the text; also behind lines, texts, lists and white space of up to 65536. Non-trivial: the defect is not on the first line, or beyond column 45.")

ILLEGAL = list("?'=()/\\#;<&_@$%*|~^!X`") + ["undefined", "//"]
NUMS = ["-", "1e", "1E+", ".", "1e400", "-1e999", "1.5e-", "-e5"]
#: token, bytes of it that are read before the complaint
STRS = [('"\\q"', 3), ('"ab\\x41"', 5), ('"\\u12g4"', 7), ('"a\\u 123z"', 8), ('"\\u00-1"', 7), ('"\\udc00"', 7), ('"\\ud800x"', 8), ('"\\ud800\\n"', 9), ('"é\\q"', 5),
        ('"\\ud800\\u0041"', 13)]
LITS = [("tru", 3), ("fals", 4), ("True", 4), ("FALSE", 5), ("nul,", 4), ("NULL", 4), ("nil?", 4), ("truee", 5), ("falsee", 6), ("trux", 4)]


def case(tier):
    big = gen.text(50 if tier == "thorough" else 30)
    doc = gen.node(st.one_of(gen.text(4), big), gen.text(5), max_leaves=24)
    return st.fixed_dictionaries({
        "doc": st.one_of(doc, doc.map(lambda n: ["o", [["r", n]]])), "style": gen.styles, "eol": st.sampled_from([None, "\n", "\r\n", "\r"]), "at": st.integers(0, 300),
        "defect": st.sampled_from(["illegal", "punct", "punct", "num", "str", "lit", "dup", "cut", "value"]), "n": st.integers(0, 300),
        "src": st.sampled_from(["stdin", "file", "args"]), "opts": st.sampled_from([[], ["--compress"], ["--keep-order"], ["-W"]])})


def value_slots(toks):
    """indices of tokens that start a scalar value (not a key)"""
    return [i for i, t in enumerate(toks) if t not in list("{}[],:") and not (i + 1 < len(toks) and toks[i + 1] == ":") and i > 0]


def check(ctx, c):
    sty = gen.Style(c["style"])
    toks = gen.toks(c["doc"], sty)
    kind, n = c["defect"], c["n"]
    slots = value_slots(toks)
    consumed = bad = None
    if kind == "illegal":
        i = c["at"] % len(toks)
        toks.insert(i, ILLEGAL[n % len(ILLEGAL)])
        bad = (i, 1)
    elif kind == "punct" or kind == "value":
        i = 1 + c["at"] % len(toks)
        toks.insert(i, [",", ":", "]", "}", "{", "["][n % 6] if kind == "punct" else ["1", '"x"', "null", "true", "-2.5"][n % 5])
        try:
            recognise([t if t[:1] != '"' else '"k%s"' % enc(t).hex() for t in toks])
            return {"still well-formed"}
        except Bad as e:
            if e.pos > len(toks):
                consumed = -1
            else:
                bad = (e.pos - 1, len(enc(toks[e.pos - 1])))
    elif kind in ("num", "str", "lit"):
        if not slots:
            return {"no slot"}
        i = slots[c["at"] % len(slots)]
        if kind == "num":
            toks[i] = NUMS[n % len(NUMS)]
            bad = (i, len(toks[i]))
        elif kind == "str":
            toks[i], off = STRS[n % len(STRS)]
            if "-W" in c["opts"] and ("\\q" in toks[i] or "\\x" in toks[i]):
                return {"tolerated"}
            bad = (i, off)
        else:
            t, off = LITS[n % len(LITS)]
            if "-W" in c["opts"] and t.lower() in ("true", "false", "null"):
                return {"tolerated"}
            # the complaint comes with the character that follows, except when the word alone shows it
            bad = (i, off + (1 if t in ("tru", "fals", "True", "FALSE") else 0))
            toks[i] = "nul" if t == "nul," else t
    elif kind == "dup":
        objs = [x for x in gen.walk(c["doc"]) if x[0] == "o" and x[1]]
        if not objs or "-W" in c["opts"]:
            return {"no object"}
        # repeat the first key of an object at its end
        o = objs[c["at"] % len(objs)]
        k = gen.plain_string(o[1][0][0])
        mark = '"@@dup@@"'
        o[1].append(["@@dup@@", ["z"]])
        toks = gen.toks(c["doc"], gen.Style([0]))
        o[1].pop()
        i = toks.index(mark)
        toks[i] = k
        bad = (i + 1, 1)
    data, spans = gen.lay_out(toks, sty, c["eol"])
    if kind == "cut":
        if toks[0] not in "[{":
            return {"scalar"}
        end = spans[-1][0]
        start = spans[0][1]
        consumed = start + c["at"] % max(1, end - start)
        data = data[:consumed]
    elif consumed == -1:
        consumed = len(data)
    else:
        consumed = spans[bad[0]][0] + bad[1]
    consumed = min(consumed, len(data))
    r = feed(ctx, data, c["src"], c["opts"])
    if r.outcome != "ret:0" or r.out:
        fail("malformed input is not just reported: " + r.outcome, input=data, stdout=r.out)
    msgs, rest = messages(r.err)
    if len(msgs) != 1 or rest:
        if kind in ("punct", "value", "cut") and b"EofException" in r.err and not msgs:
            return {"end of input"}
        fail("expected one located message", input=data, stderr=r.err)
    check_place(msgs[0], data, consumed, input_name(ctx, c["src"]), " (%s)" % kind)
    line, cur = gen.position(data, consumed)
    return {kind} | ({"!"} if line > 1 or len(cur) > 45 else set())


def large_case(tier):
    return st.tuples(large.case(tier), st.sampled_from(["end", "last", "front"])).map(list)


def far(ctx, c):
    """an illegal character behind (or before) something large"""
    what, where = c
    data = enc(large.build(what)[1])
    at = {"end": data.rindex(b'"end"'), "last": len(data) - 1, "front": 1}[where]
    data = data[:at] + b"?" + data[at:]
    src = what["src"]
    r = feed(ctx, data, src)
    msgs, rest = messages(r.err)
    if r.outcome != "ret:0" or r.out or len(msgs) != 1 or rest:
        fail("expected one located message: " + r.outcome, stderr=r.err)
    check_place(msgs[0], data, at + 1, input_name(ctx, src))
    return large.labels(what) | {where}


PARTS = [Part("defects", case, check, 9000), Part("large", large_case, far, 700)]
