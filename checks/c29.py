from hypothesis import strategies as st

import gen
import split
import view
from core import Part

ID = "C29"
TARGETS = ("worker", "libworker")
RULE = ("pairs of random documents (an edited copy, or unrelated ones) on screens of several sizes, and random keys of every kind: moves, collapses, ^W with w, h, l and arrows, searches and resizes. A model follows the selection of both sides, what is collapsed on both, the active side and the "
        "found items of each; after every key, each half must show a contiguous window of its own document with exactly the predicted highlight, marks, colours, title and message, the selection (and its counterpart) on the screen. Non-trivial: at least 3 different items "
        "were selected, or sides were switched, on documents that differ. Part 'far': the same for documents of up to 260 items or rows, screens up to 250 columns.")
POOL = ["down", "down", "down", "j", "up", "k", "left", "h", "right", "l", "pgup", "pgdn", "down", "x"]
WIN = [["^W", "w"], ["^W", "w"], ["^W", "l"], ["^W", "right"], ["^W", "h"], ["^W", "left"], ["^W", "W"], ["^W", "x"], ["^W", "timeout", "w"], ["^X", "w"], ["^W", "^W", "w"]]


@st.composite
def case(draw, tier):
    docs = draw(gen.doc_pair(16 if tier == "thorough" else 10, 5))
    keys = draw(view.search_keys(docs[draw(st.integers(0, 1))], 18 if tier == "thorough" else 12, pool=POOL, extra=WIN * 3 + [["size", 0], ["size", 1]] + [["pgdn", "left", "pgdn"], ["pgdn", "right", "down"], ["left", "down"]] * 3 + [ ["/", "a", "esc"], ["/", "enter"]], first=draw(st.booleans())))
    return {"docs": docs, "keys": keys, "size": draw(SIZES), "size2": draw(SIZES), "sort": draw(st.booleans())}


SIZES = st.tuples(st.sampled_from([12, 16, 20, 30, 60]), st.sampled_from([4, 5, 6, 8, 10, 14, 40, 100])).map(list)


def fit(c):
    iw = split.inner_width(c["docs"], c["size"][0])
    sizes = [[split.screen_width(max(iw, s[0])) + s[0] // 2 % 2, s[1]] for s in (c["size"], c["size2"])]
    keys, skip = [], False
    for k in c["keys"]:
        if k == "size":
            skip = True
        elif skip:
            keys.append(sizes[k])
            skip = False
        else:
            keys.append(k)
    return sizes[0], keys


@st.composite
def far_case(draw, tier):
    """lists of up to hundreds of items, long texts, deep nesting"""
    a = draw(view.far_doc(260))
    docs = [a, gen.edit(a, draw(gen.edits(st.one_of(gen.short_leaf(), st.just(["s", "needle 9"]), gen.small_doc(6, 3)), 6).map(lambda l: [[k, i * 5, j * 7, new] for k, i, j, new in l])))]
    if draw(st.booleans()):
        docs.reverse()
    keys = draw(view.far_keys(POOL, WIN[:7] * 2 + [["size", 0], ["size", 1]]))
    return {"docs": docs, "keys": keys, "size": draw(FAR_SIZES), "size2": draw(FAR_SIZES), "sort": draw(st.booleans())}


FAR_SIZES = st.tuples(st.sampled_from([16, 30, 60, 100, 160, 250]), st.sampled_from([4, 6, 10, 24, 50, 120])).map(list)


def check(ctx, c):
    size, keys = fit(c)
    a, b = c["docs"]
    trace, r = split.session(ctx, a, b, size, keys, sort=c["sort"])
    out = set()
    if len({t.last[t.win].n for t in trace}) > 2:
        out.add("moves")
    if len({t.win for t in trace}) > 1:
        out.add("switches")
    if any(len(t.collapsed) for t in trace):
        out.add("collapses")
    if any(t.sel[1 - t.win] is None for t in trace):
        out.add("no counterpart")
    if any(t.found[0] or t.found[1] for t in trace):
        out.add("found")
    if out & {"moves", "switches"} and trace[0].docs.diff.dist:
        out.add("!")
    return out


PARTS = [Part("keys", case, check, 4000), Part("far", far_case, check, 240, 3000)]
