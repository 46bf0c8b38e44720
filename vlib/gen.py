"""Generators of JSON documents (as plain lists, so that cases are JSON themselves), their
serialisation in many spellings, and the reference printer.

node: ["n", literal] ["s", text] ["b", bool] ["z"] ["a", [nodes]] ["o", [[key, node], ...]]
"""
import math
import re

from hypothesis import strategies as st

# ------------------------------------------------------------------ text
SPECIAL = ['"', "\\", "/", "\b", "\f", "\n", "\r", "\t", "\x00", "\x01", "\x1b", "\x1f", "\x7f", "{", "}", "[", "]",
           ":", ",", "'", " ", "u", "\\u", "~", "0", "-", "\u0080", "\u00e9", "\u07ff", "\u0800", "\u20ac", "\u2028", "\ud7ff", "\ue000",
           "\ufeff", "\uffff", "\U00010000", "\U0001f600", "\U0010ffff", "A", "a", "b", "Z"]


def text(max_size=8, ascii_only=False):
    plain = st.characters(min_codepoint=32, max_codepoint=126)
    if ascii_only:
        ch = plain
    else:
        ch = st.one_of(plain, st.sampled_from(SPECIAL),
                       st.characters(min_codepoint=1, max_codepoint=0x10ffff, exclude_categories=("Cs",)))
    return st.lists(ch, max_size=max_size).map("".join)


def word(max_size=6):
    return st.text(alphabet="abcdeABxyz019_-. ", max_size=max_size)


def cps(n):
    """a code point list -> str, so that the shrinker has something simple"""
    return "".join(map(chr, n))


# ------------------------------------------------------------------ numbers
INTS = [0, 1, -1, 9, 10, 2 ** 31 - 1, 2 ** 31, -2 ** 31, -2 ** 31 - 1, 2 ** 32, 2 ** 53, 2 ** 53 + 1, 2 ** 63 - 1, -2 ** 63,
        2 ** 63, -2 ** 63 - 1, 2 ** 64, 10 ** 30]
FLOATS = ["0.0", "-0.0", "1.5", "0.1", "1e0", "1E+2", "1e-2", "12.5e3", "1e22", "1e23", "1e300", "-1e-300", "1.7976931348623157e308",
          "2.2250738585072014e-308", "123456789.123456789", "0.1234567890123456789", "3.141592653589793", "1000000.0", "1e15", "1e16",
          "1e17", "123456.7", "1234567.8", "9007199254740993.0", "100000000000000000000.5", "0.30000000000000004", "5e-5", "-2.5e-07"]


def fmt_float(f):
    r = repr(f)
    return r if re.fullmatch(r"-?\d+(\.\d+)?(e[-+]?\d+)?", r) else "0.5"


def number(simple=False):
    small = st.integers(-99, 9999).map(str)
    if simple:
        return small
    digits = st.text(alphabet="0123456789", min_size=1, max_size=20)
    mixed = st.builds(lambda s, i, f, e: s + (i.lstrip("0") or "0") + f + e, st.sampled_from(["", "-"]), digits,
                      st.one_of(st.just(""), digits.map(lambda d: "." + d)),
                      st.one_of(st.just(""), st.builds(lambda c, s, n: c + s + str(n), st.sampled_from("eE"),
                                                      st.sampled_from(["", "+", "-"]), st.integers(0, 320))))
    floats = st.floats(allow_nan=False, allow_infinity=False).map(fmt_float)
    return st.one_of(small, st.integers(-2 ** 65, 2 ** 65).map(str), st.sampled_from(INTS).map(str), st.sampled_from(FLOATS),
                     floats, mixed)


def is_int(lit):
    return re.fullmatch(r"-?\d+", lit) is not None and -2 ** 63 <= int(lit) < 2 ** 63


def num_value(lit):
    return int(lit) if is_int(lit) else float(lit)


def same_num(a, b):
    if isinstance(a, int) or isinstance(b, int):
        return type(a) is type(b) and a == b
    return a == b and math.copysign(1, a) == math.copysign(1, b)


def usable_number(lit):
    """not beyond the largest double"""
    if is_int(lit):
        return True
    return math.isfinite(float(lit))


# ------------------------------------------------------------------ documents
def node(leaf_text, key_text, simple_numbers=False, max_leaves=20, max_items=5):
    leaf = st.one_of(
        number(simple_numbers).filter(usable_number).map(lambda n: ["n", n]),
        leaf_text.map(lambda s: ["s", s]),
        st.booleans().map(lambda b: ["b", b]),
        st.just(["z"]))
    def holders(kids, least=0):
        return st.one_of(
            st.lists(kids, min_size=least, max_size=max_items).map(lambda l: ["a", l]),
            st.lists(st.tuples(key_text, kids), min_size=least, max_size=max_items, unique_by=lambda kv: kv[0]).map(
                lambda l: ["o", [list(kv) for kv in l]]))
    inner = st.recursive(leaf, holders, max_leaves=max_leaves)
    return st.one_of(holders(inner, 2), holders(inner, 2), holders(inner), holders(inner, 1), inner)


def containers(n):
    return (n[0] in "ao") + sum(containers(k) for k in kids(n))


def kids(n):
    if n[0] == "a":
        return n[1]
    if n[0] == "o":
        return [v for _, v in n[1]]
    return []


def size(n):
    return 1 + sum(size(k) for k in kids(n))


def depth(n):
    return 1 + max([depth(k) for k in kids(n)], default=0)


def walk(n):
    yield n
    for k in kids(n):
        yield from walk(k)


def stretch(doc, knobs):
    """the same kind of document with something extreme in it: nesting, long texts, keys sharing a long prefix, many items"""
    for kind, n, i, fill in knobs:
        doc = copy(doc)
        spots = list(walk(doc))
        if kind == "wrap":
            for j in range(n):
                lone = fill if j % (i + 2) == 0 else None
                if (j + i) % 3:
                    doc = ["a", [doc] if lone is None else [lone, doc] if i % 2 else [doc, lone]]
                else:
                    doc = ["o", [["d", doc]] if lone is None else [["d", doc], ["l", lone]]]
        elif kind == "prefix":
            pre = ("prefix " * 99)[:n]
            for x in spots:
                if x[0] == "o":
                    x[1][:] = [[pre + k, v] for k, v in x[1]]
        elif kind == "text":
            texts = [x for x in spots if x[0] == "s" and x[1]]
            if texts:
                x = texts[i % len(texts)]
                x[1] = (x[1] * (n * 5))[:n * 5]
        elif kind == "key":
            objs = [x for x in spots if x[0] == "o" and x[1]]
            if objs:
                x = objs[i % len(objs)][1][-1]
                x[0] = "long " + (x[0] or "k") * n
        elif kind == "items":
            boxes = [x for x in spots if x[0] in "ao"]
            if boxes:
                x = boxes[i % len(boxes)]
                if x[0] == "a":
                    x[1] += [["n", str(j * 37 % 101)] if (j + i) % 4 else copy(fill) for j in range(n)]
                else:
                    have = {k for k, _ in x[1]}
                    x[1] += [[k, ["n", str(j)]] for j, k in ((j, "%d key" % (j * 31 % 263)) for j in range(min(n, 263))) if k not in have]
    return doc


def stretched(docs, fill, deepest=130):
    """mostly documents of docs, some of them stretched"""
    knob = st.one_of(st.tuples(st.just("wrap"), st.integers(1, deepest), st.integers(0, 5), fill), st.tuples(st.just("wrap"), st.integers(1, 20), st.integers(0, 5), fill),
                     st.tuples(st.sampled_from(["prefix", "text", "key", "items", "items"]), st.integers(1, 120), st.integers(0, 40), fill)).map(list)
    return st.one_of(docs, docs, docs, st.builds(stretch, docs, st.lists(knob, min_size=1, max_size=2)))


# ------------------------------------------------------------------ spelling
class Style:
    """an endless supply of small choices, made from a short drawn list"""

    def __init__(self, choices):
        self.c, self.i = list(choices) or [0], 0

    def pick(self, n):
        v = self.c[self.i % len(self.c)] % n
        self.i += 1
        return v


styles = st.lists(st.integers(0, 23), max_size=14)
WS = ["", " ", "\n", "\t", "\r\n", "  ", "\r", "\n\n  "]
SHORT = {'"': '\\"', "\\": "\\\\", "/": "\\/", "\b": "\\b", "\f": "\\f", "\n": "\\n", "\r": "\\r", "\t": "\\t"}


def u_escape(ch, upper=False):
    o = ord(ch)
    us = [o] if o < 0x10000 else [0xd800 + ((o - 0x10000) >> 10), 0xdc00 + ((o - 0x10000) & 0x3ff)]
    return "".join(("\\u%04X" if upper else "\\u%04x") % u for u in us)


def spell_string(s, sty):
    out = ['"']
    for ch in s:
        p = sty.pick(6)
        if p == 1:
            out.append(u_escape(ch))
        elif p == 2:
            out.append(u_escape(ch, True))
        elif ch in SHORT and (ch != "/" or p == 3):
            out.append(SHORT[ch])
        elif ord(ch) < 32:
            out.append(u_escape(ch))
        else:
            out.append(ch)
    out.append('"')
    return "".join(out)


def plain_string(s):
    return spell_string(s, Style([0]))


def spell(n, sty=None, ws=True):
    sty = sty or Style([0])
    out = []

    def w():
        if ws:
            out.append(WS[sty.pick(len(WS))])

    def rec(n):
        k = n[0]
        if k == "n":
            out.append(n[1])
        elif k == "s":
            out.append(spell_string(n[1], sty))
        elif k == "b":
            out.append("true" if n[1] else "false")
        elif k == "z":
            out.append("null")
        elif k == "a":
            out.append("[")
            w()
            for i, x in enumerate(n[1]):
                if i:
                    out.append(",")
                    w()
                rec(x)
                w()
            out.append("]")
        else:
            out.append("{")
            w()
            for i, (key, x) in enumerate(n[1]):
                if i:
                    out.append(",")
                    w()
                out.append(spell_string(key, sty))
                w()
                out.append(":")
                w()
                rec(x)
                w()
            out.append("}")
    w()
    rec(n)
    w()
    return "".join(out)


def compact(n):
    return spell(n, Style([0]), ws=False)


# ------------------------------------------------------------------ reference printer
def stored(s):
    """text of a string as the program keeps it: escapes other than the quote's stay escapes"""
    out = []
    for ch in s:
        if ch in SHORT and ch not in '"/':
            out.append(SHORT[ch])
        elif ord(ch) < 32:
            out.append("\\u%04x" % ord(ch))
        else:
            out.append(ch)
    return "".join(out)


def printed(s):
    return '"' + stored(s).replace('"', '\\"') + '"'


def sort_key(key):
    return stored(key).encode("utf-8", "surrogatepass")


def ordered(n, keep=False):
    """same document, entries in the order the program shows them"""
    if n[0] == "a":
        return ["a", [ordered(x, keep) for x in n[1]]]
    if n[0] == "o":
        e = [[k, ordered(v, keep)] for k, v in n[1]]
        return ["o", e if keep else sorted(e, key=lambda kv: sort_key(kv[0]))]
    return n


def scalar(n):
    k = n[0]
    if k == "s":
        return printed(n[1])
    if k == "b":
        return "true" if n[1] else "false"
    if k == "z":
        return "null"
    return None         # numbers: compared by value


NUM = re.compile(r"-?(0|[1-9]\d*)(\.\d+)?([eE][-+]?\d+)?")


class Mismatch(Exception):
    pass


def match_scalar(n, textual):
    """does the printed text stand for this scalar?"""
    if n[0] != "n":
        return scalar(n) == textual
    if not NUM.fullmatch(textual):
        return False
    lit = n[1]
    if is_int(lit):
        return textual == str(int(lit))
    if re.fullmatch(r"-?\d+", textual):
        return False    # a double stays recognisable as one
    return same_num(float(textual), float(lit))


def pretty_lines(n):
    """[(indent, leading text, scalar node or None)] of the prettified document"""
    out = []

    def rec(n, ind, pre):
        if n[0] in "ao":
            op, cl = "[]" if n[0] == "a" else "{}"
            out.append((ind, pre + op, None))
            if n[0] == "a":
                for i, x in enumerate(n[1]):
                    rec(x, ind + 1, "," if i else "")
            else:
                for i, (k, x) in enumerate(n[1]):
                    head = ("," if i else "") + printed(k) + ":"
                    if x[0] in "ao":
                        out.append((ind + 1, head, None))
                        rec(x, ind + 1, "")
                    else:
                        rec(x, ind + 1, head)
            out.append((ind, cl, None))
        else:
            out.append((ind, pre, n))
    rec(n, 0, "")
    return out


def check_pretty(n, text):
    """raises Mismatch unless text is the prettified form of n (whose entries are in output order)"""
    lines = text.split("\n")
    want = pretty_lines(n)
    if lines[-1] != "":
        raise Mismatch("output does not end with a new line")
    lines.pop()
    for i, (ind, head, sc) in enumerate(want):
        if i >= len(lines):
            raise Mismatch("line %d is missing, expected %r" % (i + 1, " " * 4 * ind + head))
        got = lines[i]
        pre = " " * (4 * ind) + head
        if sc is None:
            if got != pre:
                raise Mismatch("line %d is %r, expected %r" % (i + 1, got, pre))
        elif not got.startswith(pre) or not match_scalar(sc, got[len(pre):]):
            raise Mismatch("line %d is %r, expected %r" % (i + 1, got, pre + (scalar(sc) or sc[1])))
    if len(lines) > len(want):
        raise Mismatch("unexpected line %r" % lines[len(want)])


def from_json_pairs(v):
    """json.loads(object_pairs_hook=...) result -> node"""
    if isinstance(v, tuple) and v and v[0] == "o":
        return ["o", [[k, from_json_pairs(x)] for k, x in v[1]]]
    if isinstance(v, list):
        return ["a", [from_json_pairs(x) for x in v]]
    if isinstance(v, bool):
        return ["b", v]
    if v is None:
        return ["z"]
    if isinstance(v, str):
        return ["s", v]
    return ["N", v]


def same_doc(want, got, path="$"):
    """compares a node with a parsed output; None or a description"""
    if want[0] == "n":
        if got[0] != "N":
            return "%s: expected number %s, got %r" % (path, want[1], got)
        if not same_num(num_value(want[1]), got[1]):
            return "%s: expected number %s, got %r" % (path, want[1], got[1])
        return None
    if want[0] != got[0]:
        return "%s: expected %s, got %r" % (path, want[0], got[:1] + [str(got[1:])[:80]])
    if want[0] in "sb":
        if want[1] != got[1]:
            return "%s: expected %r, got %r" % (path, want[1], got[1])
    elif want[0] == "a":
        if len(want[1]) != len(got[1]):
            return "%s: expected %d items, got %d" % (path, len(want[1]), len(got[1]))
        for i, (a, b) in enumerate(zip(want[1], got[1])):
            r = same_doc(a, b, "%s[%d]" % (path, i))
            if r:
                return r
    elif want[0] == "o":
        if [k for k, _ in want[1]] != [k for k, _ in got[1]]:
            return "%s: expected keys %r, got %r" % (path, [k for k, _ in want[1]], [k for k, _ in got[1]])
        for (k, a), (_, b) in zip(want[1], got[1]):
            r = same_doc(a, b, "%s.%s" % (path, k))
            if r:
                return r
    return None


def parse_output(text):
    import json
    return from_json_pairs(json.loads(text, object_pairs_hook=lambda p: ("o", p)))


# ------------------------------------------------------------------ token streams (for defect injection)
def toks(n, sty):
    """tokens of a document, strings spelt by sty"""
    k = n[0]
    if k == "a":
        out = ["["]
        for i, x in enumerate(n[1]):
            out += ([","] if i else []) + toks(x, sty)
        return out + ["]"]
    if k == "o":
        out = ["{"]
        for i, (key, x) in enumerate(n[1]):
            out += ([","] if i else []) + [spell_string(key, sty), ":"] + toks(x, sty)
        return out + ["}"]
    if k == "s":
        return [spell_string(n[1], sty)]
    return [compact(n)]


EOLS = ["\n", "\r\n", "\r"]


def lay_out(tokens, sty, eol=None):
    """(bytes, [(start, end) of every token]): white space between tokens chosen by sty; line ends of one kind if given"""
    out, spans, pos = [], [], 0

    def put(b):
        nonlocal pos
        out.append(b)
        pos += len(b)

    def gap(must):
        w = ["", " ", "\n", "  ", "\n\n", "\n\t", "\t"][sty.pick(7)]
        if must and not w:
            w = " "
        if "\n" in w:
            w = w.replace("\n", eol if eol is not None else EOLS[sty.pick(3)])
        put(w.encode())
    for i, t in enumerate(tokens):
        b = t.encode("utf-8", "surrogatepass")
        word = lambda s: s and (s[-1] not in "{}[]:,")     # noqa: E731
        gap(i > 0 and word(tokens[i - 1]) and t[:1] not in "{}[]:,")
        spans.append((pos, pos + len(b)))
        put(b)
    gap(False)
    return b"".join(out), spans


def position(data, consumed):
    """(line, bytes of that line up to there) once that many bytes were read; a line end belongs to the line it ends"""
    line, cur, pend, cr = 1, bytearray(), False, False
    for c in data[:consumed]:
        if pend:
            if c == 10 and cr:
                cr = False
                continue
            line += 1
            cur.clear()
            pend = False
        if c in (10, 13):
            pend, cr = True, c == 13
        else:
            cur.append(c)
    return line, bytes(cur)


# ------------------------------------------------------------------ pairs of documents
def copy(n):
    if n[0] == "a":
        return ["a", [copy(x) for x in n[1]]]
    if n[0] == "o":
        return ["o", [[k, copy(v)] for k, v in n[1]]]
    return list(n)


def edit(doc, edits):
    """an edited copy; edits: [kind, number, number, node]"""
    doc = copy(doc)
    for kind, i, j, new in edits:
        spots = list(walk(doc))
        if kind == "rename" and not any(x[0] == "o" and x[1] for x in spots):
            kind = "ins"
        if kind in ("del", "swap", "set", "twin") and not any(x[0] in "ao" and x[1] for x in spots):
            kind = "ins"
        holders = [x for x in spots if x[0] in "ao" and (kind not in ("del", "swap", "rename", "set", "twin") or x[1])]
        if kind == "rename":
            holders = [x for x in holders if x[0] == "o"]
        if not holders:
            continue
        h = holders[i % len(holders)]
        n = len(h[1])
        new = copy(new)
        if kind == "ins":
            k = "k%d" % j
            if h[0] == "a":
                h[1].insert(j % (n + 1), new)
            elif k not in [x[0] for x in h[1]]:
                h[1].insert(j % (n + 1), [k, new])
        elif kind == "del":
            del h[1][j % n]
        elif kind == "swap":
            k = 1 + j % (n - 1) if n > 1 else 0
            h[1][0], h[1][k] = h[1][k], h[1][0]
        elif kind == "rename":
            k = h[1][j % n][0]
            k = [k + "~", k[:-1] + "~", "~" + k, "~" + k[1:], k[:-1], k[1:], k[:len(k) // 2] + "~" + k[len(k) // 2 + 1:], k + "~"][(i + j) % 8]
            if k not in [x[0] for x in h[1]]:
                h[1][j % n][0] = k
        elif kind == "set":
            if h[0] == "a":
                h[1][j % n] = new
            else:
                h[1][j % n][1] = new
        elif kind == "twin":
            if h[0] == "a":
                h[1][j % n] = twin(h[1][j % n], i + j)
            else:
                h[1][j % n][1] = twin(h[1][j % n][1], i + j)
        elif kind == "wrap":
            if h[0] == "a":
                h[1] = [["a", h[1]]]
    return doc


def twin(n, i):
    """something else that looks alike"""
    k, v = n[0], n[1] if len(n) > 1 else None
    if k == "z":
        return [["s", "null"], ["s", ""], ["b", False], ["n", "0"]][i % 4]
    if k == "b":
        return [["s", "true" if v else "false"], ["b", not v], ["n", "1" if v else "0"]][i % 3]
    if k == "n":
        small = is_int(v) and len(v) < 9      # written in the one way it is shown
        return [["s", v], ["n", v + ".0"] if small and v.strip("-0") else ["z"], ["n", "-" + v if v.isdigit() and v != "0" else "7"], ["n", v[:-1] + ("1" if v[-1] != "1" else "2")] if v[-1:].isdigit() and v != "0" else ["b", True]][i % 4]
    if k == "s":
        lit = {"null": ["z"], "true": ["b", True], "false": ["b", False]}
        other = lit.get(v) or (["n", v] if v.isdigit() and v[:1] != "0" or v == "0" else ["s", v.swapcase() if v.swapcase() != v else v + " "])
        return [other, ["s", v + " "], ["s", " " + v], ["a", [["s", v]]]][i % 4]
    if not v:
        return [["o", []] if k == "a" else ["a", []], ["z"], ["s", "[]" if k == "a" else "{}"]][i % 3]
    return ["a", [copy(x[1]) for x in v]] if k == "o" else ["o", [["%d" % j, copy(x)] for j, x in enumerate(v)]]


def edits(leaf, most=4, least=0):
    return st.lists(st.tuples(st.sampled_from(["ins", "del", "swap", "rename", "set", "set", "wrap", "twin", "twin"]), st.integers(0, 40), st.integers(0, 40), leaf).map(list), min_size=min(least, most), max_size=most)


def short_leaf(words=("a", "b", "abc", "abd", "hello world", "hello worle", "", "1", "true", "null", "1.5")):
    return st.one_of(st.sampled_from(words).map(lambda s: ["s", s]), st.sampled_from(["0", "1", "2", "10", "12345678901", "12345678902", "1.5", "1.0"]).map(lambda n: ["n", n]),
                     st.booleans().map(lambda b: ["b", b]), st.just(["z"]))


def small_doc(max_leaves=12, max_items=5, leaf=None, keys=("a", "b", "c", "d", "e", "abc", "longer key", "longer kex")):
    leaf = leaf if leaf is not None else short_leaf()

    def holders(kids, least=0):
        least = min(least, max_items)
        return st.one_of(st.lists(kids, min_size=least, max_size=max_items).map(lambda l: ["a", l]),
                         st.lists(st.tuples(st.sampled_from(keys), kids), min_size=least, max_size=max_items, unique_by=lambda kv: kv[0]).map(lambda l: ["o", [list(kv) for kv in l]]))
    inner = st.recursive(leaf, holders, max_leaves=max_leaves)
    return st.one_of(holders(inner, 3), holders(inner, 2), holders(inner, 4), holders(inner, 3), holders(inner, 2), holders(inner), inner)


@st.composite
def doc_pair(draw, max_leaves=12, max_items=5, long=False):
    """two documents: unrelated, edited copy, or the same; long: also texts and keys that have a lot in common"""
    kind = {}
    if long:
        n = draw(st.sampled_from([6, 7, 8, 14, 15, 16, 20, 30, 31, 32, 50, 62, 63, 64, 99, 126, 127, 128, 200, 254, 255, 256, 300]))
        most = draw(st.sampled_from(["x" * n, "ab " * (n // 3) + "x" * (n % 3)]))
        words = [most + "a", most + "b", most, "a" + most, "b" + most, most[:n // 2] + "-" + most[n // 2:]]
        kind = {"leaf": st.one_of(short_leaf(), short_leaf(words)), "keys": ["a", "b", "c"] + words}
    a = draw(small_doc(max_leaves, max_items, **kind))
    if draw(st.integers(0, 7)) == 0:
        return [a, draw(small_doc(max_leaves, max_items, **kind))]
    extra = st.one_of(kind.get("leaf", short_leaf()), short_leaf(), small_doc(4, 3, **kind))
    return [a, edit(a, draw(edits(extra, draw(st.integers(1, 4)), draw(st.sampled_from([1, 1, 2, 3, 0])))))]


def same(a, b):
    """same content; numbers by value and kind"""
    if a[0] != b[0]:
        return False
    if a[0] == "n":
        return is_int(a[1]) == is_int(b[1]) and same_num(num_value(a[1]), num_value(b[1]))
    if a[0] == "a":
        return len(a[1]) == len(b[1]) and all(map(same, a[1], b[1]))
    if a[0] == "o":
        return len(a[1]) == len(b[1]) and all(k == l and same(v, w) for (k, v), (l, w) in zip(a[1], b[1]))
    return a[1:] == b[1:]


def items(n):
    """the items of a document as the program numbers them: (kind, parent, key or None, node), in document order"""
    out = []

    def rec(n, parent):
        me = len(out)
        k = n[0]
        if k == "n":
            k = "n" if is_int(n[1]) else "d"
        out.append((k, parent, None, n))
        if n[0] == "a":
            for x in n[1]:
                rec(x, me)
        elif n[0] == "o":
            for key, x in n[1]:
                e = len(out)
                out.append(("e", me, key, x))
                rec(x, e)
    rec(n, -1)
    return out
