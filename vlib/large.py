"""Documents of which one dimension is large: around powers of two and of ten, where buffers and counters end."""
from hypothesis import strategies as st

import gen

KINDS = ["text", "wide text", "escapes", "key", "items", "entries", "boxes", "space", "lines", "digits", "fraction"]


def sizes(most=16):
    two = st.builds(lambda k, d: 2 ** k + d, st.integers(6, most), st.integers(-2, 2))
    ten = st.builds(lambda k, m, d: m * 10 ** k + d, st.integers(2, 3), st.sampled_from([1, 2, 5]), st.integers(-1, 1))
    top = st.builds(lambda d: 2 ** most + d, st.integers(-1, 3))
    return st.one_of(two, two, top, ten, st.integers(50, 5000))


def case(tier, kinds=KINDS):
    return st.fixed_dictionaries({"kind": st.sampled_from(kinds), "n": sizes(18 if tier == "thorough" else 16), "fill": st.integers(0, 20), "src": st.sampled_from(["stdin", "stdin", "file", "args"]),
                                  "holder": st.booleans()})


def build(c):
    """(document, source text)"""
    n, f = c["n"], c["fill"]
    ws = None
    words = "lorem Ipsum dolor-sit"[f % 5:] + " "
    if c["kind"] == "text":
        big = ["s", (words * n)[:n]]
    elif c["kind"] == "wide text":
        big = ["s", (["\u00e9x", "\u20ac", "\U0001f600a", "ab\u00e9"][f % 4] * n)[:n]]
    elif c["kind"] == "escapes":
        big = ["s", (["\n", "\\", '"', "\x01", "a\t"][f % 5] * n)[:n]]
    elif c["kind"] == "key":
        big = ["o", [[(words * n)[:n], ["n", "7"]], [(words * n)[:n - 1] + "~", ["z"]]]]
    elif c["kind"] == "items":
        big = ["a", [["n", str(i)] if i % (f + 2) else ["b", True] for i in range(n)]]
    elif c["kind"] == "entries":
        n = min(n, 3000)
        big = ["o", [["k%d" % (i * 7919 % 100003), ["n", str(i)]] for i in range(n)]]
    elif c["kind"] == "boxes":
        n = min(n, 20000)
        big = ["a", [["a", []] if i % 3 else ["o", [["a", ["n", str(i)]]]] for i in range(n)]]
    elif c["kind"] == "digits":
        big = ["n", ["", "-"][f % 2] + ("1234567890" * 31)[f % 9:][:min(n, 300)]]
    elif c["kind"] == "fraction":
        big = ["n", ["0.", "-1.", "12."][f % 3] + ("0" if f % 2 else "") + ("3141592653589793" * n)[:min(n, 20000)]]
    else:
        big = ["n", str(f)]
        ws = [" ", "\t"][f % 2] if c["kind"] == "space" else ["\n", "\r\n", "\n "][f % 3]
    if c["holder"]:
        doc = ["o", [["a", ["n", "1"]], ["b", big], ["c", ["a", [["s", "end"], ["z"]]]]]]
    else:
        doc = ["a", [["n", "1"], big, ["o", [["c", ["s", "end"]]]]]]
    text = gen.compact(doc)
    if ws is not None:
        at = [text.index(",") + 1, text.index(","), 1, len(text) - 1][f % 4]
        text = text[:at] + ws * n + text[at:]
    return doc, text


def labels(c):
    return {"!", c["kind"]} | {"size > %d" % s for s in (255, 4095, 65535) if c["n"] > s}
