from hypothesis import strategies as st

import gen
import split
import view
from common import fail
from core import Part
from difflib2 import Diff

ID = "C21"
TARGETS = ("worker", "libworker")
RULE = ("random documents spelt twice: other white space, escapes instead of characters, and, without --keep-order, entries in another order; both texts are compared. Part 'library': every item of one must be reported unchanged and paired with the one at the same place in the other. "
        "Part 'screens': in the split viewer, through random moves, collapses, searches and side changes on screens of random sizes, both halves must be the same but for their titles, hold no mark, and highlight the same rows. Part 'wide': long arrays and objects. Non-trivial: a container with two items "
        "or more, and texts that differ.")
POOL = ["down", "down", "down", "up", "left", "right", "pgup", "pgdn", "j", "k"]


def shuffle(n, sty):
    if n[0] == "a":
        return ["a", [shuffle(x, sty) for x in n[1]]]
    if n[0] == "o":
        rest, out = list(n[1]), []
        while rest:
            k, v = rest.pop(sty.pick(len(rest)))
            out.append([k, shuffle(v, sty)])
        return ["o", out]
    return n


@st.composite
def library(draw, tier):
    key = st.one_of(st.text(alphabet="abAB_1 ", max_size=3), gen.text(5))
    return {"doc": draw(st.one_of(gen.node(gen.text(8), key, max_leaves=40 if tier == "thorough" else 20), view.docs(20, 6), gen.small_doc(16, 6))), "s1": draw(gen.styles), "s2": draw(gen.styles), "perm": draw(st.lists(st.integers(0, 40), max_size=12)), "sort": draw(st.booleans())}


def spellings(c):
    other = shuffle(c["doc"], gen.Style(c["perm"])) if c["sort"] else c["doc"]
    return gen.spell(c["doc"], gen.Style(c["s1"])), gen.spell(other, gen.Style(c["s2"]))


def labels(c, a, b):
    out = {"spelt differently"} if a != b else set()
    if c["sort"]:
        out.add("sorted")
    if a != b and any(n[0] in "ao" and len(n[1]) > 1 for n in gen.walk(c["doc"])):
        out.add("!")
    return out


def compare(ctx, c, a, b, doc):
    d = Diff(ctx, doc, doc, c["sort"], text=(a, b))
    for i, x in enumerate((d.a, d.b)):
        for n in range(len(x)):
            if x.op[n] != "equ":
                d.fail("%s is marked %r" % (d.name(i, n), x.op[n]))
            if x.eq[n] != n:
                d.fail("%s is paired with %s" % (d.name(i, n), "nothing" if x.eq[n] < 0 else d.name(1 - i, x.eq[n])))
    if d.dist or d.back or not d.equal:
        d.fail("the whole comparison reports a distance of %d" % d.dist)


def check_library(ctx, c):
    a, b = spellings(c)
    compare(ctx, c, a, b, c["doc"])
    return labels(c, a, b)


def wide(tier):
    return st.fixed_dictionaries({"n": st.integers(20, 600 if tier == "thorough" else 200), "m": st.integers(1, 30), "obj": st.booleans(), "perm": st.lists(st.integers(0, 99), min_size=1, max_size=8), "s1": gen.styles, "s2": gen.styles, "sort": st.booleans(),
                                  "nest": st.integers(0, 40)})


def check_wide(ctx, c):
    items = [["n", str(i * 7 % c["m"])] if i % 3 else ["s", "x" * (i % 11)] for i in range(c["n"])]
    if c["nest"]:
        items = [["a", items[i:i + c["nest"]]] for i in range(0, len(items), c["nest"])]
    doc = ["o", [["k%d" % (i * 13 % 997), x] for i, x in enumerate(items)]] if c["obj"] else ["a", items]
    c = dict(c, doc=doc)
    a, b = spellings(c)
    compare(ctx, c, a, b, doc)
    return labels(c, a, b)


SIZES = st.tuples(st.sampled_from([12, 16, 20, 30, 60]), st.sampled_from([4, 5, 6, 8, 10, 14, 40, 100])).map(list)


@st.composite
def screens(draw, tier):
    doc = draw(view.docs(20 if tier == "thorough" else 12))
    return {"doc": doc, "s1": draw(gen.styles), "s2": draw(gen.styles), "perm": draw(st.lists(st.integers(0, 40), max_size=12)), "sort": draw(st.booleans()), "size": draw(SIZES),
            "keys": draw(view.search_keys(doc, 14, pool=POOL, extra=[["^W", "w"], ["left", "pgdn"], ["down", "left"]], first=False))}


def check_screens(ctx, c):
    a, b = spellings(c)
    iw = split.inner_width((c["doc"],), c["size"][0])
    size = (split.screen_width(iw), c["size"][1])
    keys = c["keys"] + (["esc"] if view.typing(c["keys"]) else [])
    names = [ctx.file("a.json", a), ctx.file("b.json", b)]
    opts = [] if c["sort"] else ["--keep-order"]
    r = ctx.stroll.tui(opts + ["--diff"] + names, [view.code(k) for k in keys], size=size)
    view.check_end(r, (a, b), keys)
    if len(r.shots) < len(keys) + 1:
        fail("the viewer ends before all keys are typed", documents=(a, b), keys=keys)
    high = 0
    for n, shot in enumerate(r.shots[:len(keys) + 1]):
        def bad(msg):
            fail(msg, documents=(a, b), options=opts, size="%dx%d" % size, keys=keys[:n], screen="\n" + str(shot))
        x, y = split.Half(shot, 0), split.Half(shot, 1)
        for i, (p, q) in enumerate(zip(x.rows, y.rows)):
            if p[0] != q[0]:
                bad("row %d is %r and %r" % (i, p[0].rstrip(), q[0].rstrip()))
            if p[1] != q[1]:
                bad("row %d, %r, is not drawn the same way on both sides" % (i, p[0].rstrip()))
            marks = {t & 0x7f for t in p[1]} & {60, 61, 62}
            if marks:
                bad("row %d, %r, has a mark" % (i, p[0].rstrip()))
            high += any(t & 0x80 for t in p[1])
    out = labels(c, a, b)
    if not high:
        out.discard("!")
    return out


PARTS = [Part("library", library, check_library, 3000), Part("screens", screens, check_screens, 2600), Part("wide", wide, check_wide, 60, 1000)]
