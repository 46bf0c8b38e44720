from hypothesis import strategies as st

import gen
import split
import view
from common import fail
from core import Part

ID = "C28"
TARGETS = ("worker", "libworker")
RULE = ("random documents of every type of item on random screens, with random moves, collapses and searches, and with no colour option, --color, --color=always or --color=never: the colour of every cell of every screen (title, keys, values, found items, messages, prompt) must "
        "be the one of the reference rendering; part 'never': the same session with and without colours must show the same characters, and no type, title or message colour without. Part 'split': comparisons, where every cell of both halves must have the colour "
        "of the type of what is drawn there. Non-trivial: at least 3 types of values.")
COLORS = [[], ["--color"], ["--color=always"], ["--color=never"], ["--color=never"], ["--color=never", "--color"]]


@st.composite
def case(draw, tier):
    doc = draw(view.docs(30 if tier == "thorough" else 14))
    return {"doc": doc, "size": draw(view.SIZE), "color": draw(st.sampled_from(COLORS)), "keys": draw(view.search_keys(doc, 8, extra=[["/", "enter"], [[80, 30]], ["/", "a", "timeout", "esc"]]))}


def fit(c):
    w, h = c["size"]
    w = view.width_for(c["doc"], w)
    return (w, h), [[max(k[0], w)] + k[1:] if isinstance(k, list) else k for k in c["keys"]]


def types(doc):
    return {n[0] for n in gen.walk(doc)}


def check(ctx, c):
    size, keys = fit(c)
    on = not (c["color"] and c["color"][-1].endswith("never"))
    trace, r = view.session(ctx, c["doc"], size, keys, opts=c["color"], mask=0xff, color=on)
    out = {"!"} if len(types(c["doc"])) > 3 else set()
    if any(t[0].found for t in trace):
        out.add("found items")
    return out | {"colours" if on else "no colours"}


def never(ctx, c):
    size, keys = fit(c)
    path = ctx.file("in.json", gen.compact(c["doc"]))
    if view.typing(keys):
        keys.append("esc")
    a = ctx.stroll.tui([path], [view.code(k) for k in keys], size=size)
    b = ctx.stroll.tui(["--color=never", path], [view.code(k) for k in keys], size=size)
    if (a.outcome, len(a.shots)) != (b.outcome, len(b.shots)):
        fail("--color=never changes the session: %s/%d screens, %s/%d" % (a.outcome, len(a.shots), b.outcome, len(b.shots)), document=gen.compact(c["doc"]), keys=keys)
    for i, (x, y) in enumerate(zip(a.shots, b.shots)):
        if x.chars != y.chars:
            fail("--color=never changes the characters shown", document=gen.compact(c["doc"]), keys=keys[:i], with_colours="\n" + str(x), without="\n" + str(y))
        left = {t & 0x7f for t in y.attrs} - {0, view.SEARCH}
        if left:
            fail("--color=never leaves colours %s" % left, document=gen.compact(c["doc"]), keys=keys[:i])
    return {"!"} if len(types(c["doc"])) > 3 else set()


@st.composite
def compared(draw, tier):
    docs = [draw(view.docs(16)), draw(view.docs(16))]
    if draw(st.integers(0, 2)):
        docs = draw(gen.doc_pair(14, 5))
    return {"docs": docs, "w": draw(st.sampled_from([12, 16, 20, 30, 60])), "h": draw(st.sampled_from([6, 10, 14, 40, 100])), "color": draw(st.sampled_from(COLORS)), "sort": draw(st.booleans()),
            "keys": draw(view.search_keys(docs[0], 6, pool=["down", "down", "left", "up", "right", "pgdn"], extra=[["^W", "w"], ["/", "enter"]]))}


def halves(ctx, c):
    on = not (c["color"] and c["color"][-1].endswith("never"))
    size = (split.screen_width(split.inner_width(c["docs"], c["w"])), c["h"])
    trace, r = split.session(ctx, c["docs"][0], c["docs"][1], size, c["keys"], opts=c["color"], sort=c["sort"], color=on)
    out = {"!"} if len(types(c["docs"][0]) | types(c["docs"][1])) > 3 else set()
    if any(t.found[0] or t.found[1] for t in trace):
        out.add("found items")
    return out | {"colours" if on else "no colours"}


PARTS = [Part("screens", case, check, 3000), Part("never", case, never, 800), Part("split", compared, halves, 1400)]
