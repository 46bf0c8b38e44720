from hypothesis import strategies as st

import gen
import view
from common import fail
from core import Part

ID = "C14"
RULE = ("random documents, and random patterns: texts of the document, parts of them, in another case, with spaces, escaped slashes, backslashes and unicode escapes, regular expressions made of them, invalid ones and unrelated ones, with every combination of the flags i, w, f, e, b, n, s, o; with and "
        "without --ascii. On a screen showing the whole document, exactly the lines of the items that match (by an independent implementation of the documented syntax) must be in the search colour, and repeated 'next' must select exactly them. Non-trivial: at least "
        "one item found and one not. Part 'unicode': texts, keys and patterns beyond ASCII, typed as they are or as escapes, in two locales.")
view.TRUST_REGEX = True

WORDS = ["a", "b", "ab", "Ab", "AB", "a b", "b a", "a  b", " a", "a ", "word", "Word up", "up word", "/", "a/b", "\\", "a.b", "axb", "12", "1", "true", "null", "x" * 12, "tab\tbed", "don't", "(a)", "[a]", "a+b", "aab", "{", "^", "$", "n", "\\u0041", "e1", "A"]


def doc_for(tier):
    text = st.one_of(st.sampled_from(WORDS), st.sampled_from(WORDS), st.text(alphabet="abAB /.1", max_size=6), st.lists(st.sampled_from(["a", "b", "ab", "A"]), min_size=1, max_size=4).map(" ".join))
    leaf = st.one_of(text.map(lambda s: ["s", s]), text.map(lambda s: ["s", s]), st.sampled_from(["1", "12", "121", "-1", "1.5", "2.5", "100", "12000000000", "-2147483649", "1e+100"]).map(lambda n: ["n", n]), st.booleans().map(lambda b: ["b", b]), st.just(["z"]))
    key = st.one_of(text, st.sampled_from(["a", "b", "true", "1"]))

    def holders(kids, least=0):
        return st.one_of(st.lists(kids, min_size=least, max_size=7).map(lambda l: ["a", l]),
                         st.lists(st.tuples(key, kids), min_size=least, max_size=7, unique_by=lambda kv: gen.stored(kv[0])).map(lambda l: ["o", [list(kv) for kv in l]]))
    inner = st.recursive(leaf, holders, max_leaves=30 if tier == "thorough" else 14)
    return st.one_of(*[holders(inner, n) for n in (2, 3, 4, 5, 3)], inner)


def esc_re(t):
    return "".join("\\" + c if c in ".^$*+?()[]{}|\\/" else c for c in t)


@st.composite
def regex(draw, texts, depth=2):
    k = draw(st.integers(0, 9))
    if k < 3 or depth == 0:
        t = draw(st.sampled_from(texts))
        if t:
            i = draw(st.integers(0, len(t) - 1))
            t = t[i:i + draw(st.integers(1, 3))]
        return esc_re("".join(c for c in t if 32 <= ord(c) < 127))
    sub = regex(texts, depth - 1)
    if k == 3:
        return draw(sub) + "." + draw(sub)
    if k == 4:
        return "(" + draw(sub) + "|" + draw(sub) + ")" + draw(st.sampled_from(["", "", "x"]))
    if k == 5:
        return draw(st.sampled_from(["a", "b", "(ab)", "[ab]", ".", "\\d", "\\w", " ", "[^a]", "[a-c1]"])) + draw(st.sampled_from(["*", "+", "?", "{2}", "{1,2}", "{2,}", ""]))
    if k == 6:
        return "^" + draw(sub)
    if k == 7:
        return draw(sub) + "$"
    if k == 8:
        return "^" + draw(sub) + draw(st.sampled_from([".*", "[ab]*", "", "\\w+"])) + "$"
    return draw(sub) + draw(sub)


INVALID = ["(", "[", "(a", "[a", "a)", "*a", "+", "a{2,1}", "[b-a]", "(?", "(a|b", "?"]


@st.composite
def case(draw, tier):
    doc = draw(doc_for(tier))
    texts = view.texts(doc) or ["a"]
    flags = "".join(draw(st.lists(st.sampled_from("iiwwffbnsoo xz"), max_size=4)))
    ascii_ = draw(st.integers(0, 3)) == 3
    kind = draw(st.sampled_from(["regex", "text", "text", "text", "text", "kind"]))
    scalars = [e for e in view.tree(gen.ordered(doc))[1] if e.kind in "snbz" and e.text]
    if kind == "kind" and scalars:
        # the text of one item, or a part of it, and the type of this item or of another one
        e = draw(st.sampled_from(scalars))
        t = e.text
        if draw(st.integers(0, 2)) == 2:
            t = t[:draw(st.integers(1, 3))]
        t = view.spelt(t)
        flags = draw(st.sampled_from([{"s": "s", "n": "n", "b": "b", "z": "n"}[e.kind]] * 3 + ["o", "s", "n", "b"])) + draw(st.sampled_from(["", "", "f", "i", "w"]))
    elif kind == "regex":
        t = draw(st.sampled_from(INVALID)) if draw(st.integers(0, 7)) == 7 else draw(regex(texts))
        flags = draw(st.sampled_from(["e" + flags, flags + "e"]))
    else:
        t = draw(view.literal(doc)) if draw(st.integers(0, 3)) else draw(st.sampled_from(WORDS))
        how = draw(st.integers(0, 7))
        if how == 0:
            t = t.swapcase()
        elif how == 1:
            t = t.upper()
        elif how == 2:
            t = t + draw(st.sampled_from([" ", "a", "\\", "/"]))
        elif how == 3:
            t = draw(st.sampled_from([" ", "  ", "\t", "\t ", " \t", "\\"])) + t
        elif how == 4 and t:
            i = draw(st.integers(0, len(t) - 1))
            t = t[:i] + "\\u%04x" % ord(t[i]) + t[i + 1:]
        t = t if draw(st.integers(0, 9)) == 0 else view.spelt(t)
    t = "".join(c for i, c in enumerate(t) if 32 <= ord(c) < 127 or c == "\t" and not t[:i].strip("\t "))
    return {"doc": doc, "typed": t + draw(st.sampled_from(["", "/"])) if not flags else t + "/" + flags, "ascii": ascii_, "jump": draw(st.booleans())}


def check(ctx, c):
    doc = c["doc"]
    ordered = gen.ordered(doc)
    root, items = view.tree(ordered)
    pat = view.Pattern(c["typed"], c["ascii"])
    found = [] if pat.empty() else view.matches(root, pat)
    w = view.width_for(doc, 60)
    h = 4 + sum(view.nrows(ln, w) for ln in view.lines(root, ()))
    typed = c["typed"]
    nexts = ["n"] * (len(found) if c["jump"] else 0)
    text = gen.compact(doc)
    path = ctx.file("in.json", text)
    keys = [ord(x) for x in "/" + typed] + [10, 2000000 + (w << 10) + h] + [ord(k) for k in nexts]
    r = ctx.stroll.tui((["--ascii"] if c["ascii"] else []) + [path], keys, size=(w, h))
    view.check_end(r, text, keys)
    if len(r.shots) != len(keys) + 1:
        fail("%d screens for %d keys" % (len(r.shots), len(keys)), document=text, typed=typed)
    s = view.State(root, path, w, h)
    s.sel = found[0] if found else root
    if found and found[0] is root:
        s.msg = None
    s.found = found
    # the resize wiped the message off
    shot = r.shots[len(typed) + 3]
    bad = view.mismatch(s, shot, 0xff)
    if bad:
        fail("pattern %r: the found items are not the %d matching ones (%s)" % (typed, len(found), bad), document=text, matching=[e.label() for e in found], screen="\n" + str(shot), ascii=c["ascii"])
    shot = r.shots[len(typed) + 2]
    msg = None if found and found[0] is not root else view.BOTTOM if found else None if pat.empty() else view.NOTHING
    bad = view.mismatch(s.copy(msg=msg), shot, 0xff)
    if bad:
        fail("pattern %r: wrong screen after the search (%s)" % (typed, bad), document=text, matching=[e.label() for e in found], screen="\n" + str(shot))
    for i in range(len(nexts)):
        s = view.to_next(s)
        bad = view.mismatch(s, r.shots[len(typed) + 4 + i], 0xff)
        if bad:
            fail("pattern %r: next match is not the expected one (%s)" % (typed, bad), document=text, expected=s.sel.label(), screen="\n" + str(r.shots[len(typed) + 4 + i]))
    out = {"regular expression"} if pat.e and pat.re else {"invalid expression"} if pat.e else {"text"}
    n = len([e for e in items if e.text is not None])
    if found and len(found) < n:
        out.add("!")
    if pat.empty():
        out.add("empty")
    for f in "iwf":
        if getattr(pat, f) and found:
            out.add("found with flag " + f)
    if pat.type and found:
        out.add("found with a type")
    return out


# no letters of other cases: the flag i may or may not know them
WIDE = ["\u00e9", "\u20ac", "\u65e5\u672c", "\U0001f600", "a\u00e9", "\u00e9 a", "\u00e9b\u20ac", "caf\u00e9 au lait", "\u00f1", "a", "cafe", "\u00df x", "\u00c3\u00a9", "\u00a9", "b \u20ac", "\u0fff"]


@st.composite
def unicode_case(draw, tier):
    texts = draw(st.lists(st.one_of(st.sampled_from(WIDE), st.lists(st.sampled_from(WIDE), min_size=1, max_size=3).map("".join), st.lists(st.sampled_from(WIDE), min_size=2, max_size=3).map(" ".join)), min_size=2, max_size=8))
    keys = draw(st.lists(st.sampled_from(WIDE + ["k", "b"]), min_size=len(texts), max_size=len(texts), unique=True)) if draw(st.booleans()) else None
    t = draw(st.sampled_from(texts + (keys or [])) if draw(st.integers(0, 5)) else st.sampled_from(WIDE))
    if draw(st.booleans()):
        i = draw(st.integers(0, len(t) - 1))
        t = t[i:i + draw(st.sampled_from([1, 1, 2, 3]))]
    return {"texts": texts, "keys": keys, "text": t, "spell": draw(st.sampled_from(["raw", "raw", "escapes", "first"])), "flags": draw(st.sampled_from(["", "", "", "f", "w", "s", "o", "i", "if", "e", "ws", "n"])),
            "locale": draw(st.sampled_from(["C", "C.UTF-8"])), "input": draw(st.sampled_from(["raw", "escapes"])), "ascii": draw(st.sampled_from([False, False, False, True]))}


def unicode_check(ctx, c):
    """texts beyond ASCII: which rows are in the search colour (one row for each item)"""
    esc = lambda s: "".join("\\u%04x" % (x[0] + 256 * x[1]) for x in zip(*[iter(s.encode("utf-16-le"))] * 2))     # noqa: E731
    src = (lambda s: '"' + esc(s) + '"') if c["input"] == "escapes" and not c["ascii"] else (lambda s: '"' + s + '"')
    items = [["s", t] for t in c["texts"]]
    if c["keys"]:
        pairs = sorted(zip(c["keys"], items), key=lambda kv: kv[0].encode())
        doc = ["o", [list(p) for p in pairs]]
        text = "{" + ",".join(src(k) + ":" + src(v[1]) for k, v in zip(c["keys"], items)) + "}"
    else:
        doc = ["a", items]
        text = "[" + ",".join(src(v[1]) for v in items) + "]"
    t = c["text"]
    if not c["ascii"] and max(map(ord, t)) < 0x10000:
        t = esc(t) if c["spell"] == "escapes" else esc(t[0]) + t[1:] if c["spell"] == "first" else t
    typed = t + ("/" + c["flags"] if c["flags"] else "")
    if "e" in c["flags"] and (not c["text"].strip() or "\\" in t):
        return {"skipped"}
    root, _ = view.tree(doc)
    pat = view.Pattern(view.raw(c["text"]).lstrip(" ") + ("/" + c["flags"] if c["flags"] else ""), True)
    if pat.empty():
        return {"skipped"}
    found = view.matches(root, pat)
    path = ctx.file("in.json", text.encode())
    keys = [ord("/")] + list(typed.encode()) + [10, 2000000 + (250 << 10) + 20]
    r = ctx.stroll.tui((["--ascii"] if c["ascii"] else []) + [path], keys, size=(250, 20), locale=c["locale"])
    view.check_end(r, text, keys)
    if len(r.shots) != len(keys) + 1:
        fail("%d screens for %d keys" % (len(r.shots), len(keys)), document=text, typed=typed)
    shot = r.shots[-1]
    rows = [y - 2 for y in range(1, 20) if any((a & 0x7f) == 51 for a in shot.rattr(y))]
    want = [i for i, k in enumerate(root.kids) if k in found]
    if rows != want:
        fail("pattern %r finds the items %s instead of %s" % (typed, rows, want), document=text, locale=c["locale"], screen="\n" + str(shot))
    return {c["locale"], c["spell"]} | ({"!"} if found and len(found) < len(items) else set())


PARTS = [Part("patterns", case, check, 6500), Part("unicode", unicode_case, unicode_check, 1500)]
