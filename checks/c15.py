from hypothesis import strategies as st

import view
from core import Part

ID = "C15"
RULE = ("random documents (nested up to 5 levels) on 60 screen sizes from 10x2, and random histories of searches (texts taken from the document, or not; flags i, o, s), 'next' keys, abandoned and empty searches, moves, collapses and resizes; a model of the "
        "document says after every key which item is selected, what is collapsed, which message or typed text stands on the bottom row, and every screen must be the one it predicts (search colours included). Part 'visit': one search and as many "
        "'next' as there are items: the selections must be exactly the found items, in order and round and round. Part 'far': documents of up to 1000 items, texts and keys of thousands of characters. Non-trivial: a search with at least 2 found items after which at least two selections were made by search.")

ABORT = [["/", "esc"], ["/", "a", "esc"], ["/", "enter"], ["/", " ", "enter"], ["/", "a", "b", "backspace", "enter"], ["/", "backspace", "a", "backspace", "backspace", "enter"], ["/", "timeout", "down", "a", "pgup", "enter"], ["/", "n", "q", "enter"],
         ["/", "/", "enter"], ["sigcont"], ["^W", "n"]]


@st.composite
def case(draw, tier):
    doc = draw(view.docs(30 if tier == "thorough" else 14))
    return {"doc": doc, "size": draw(view.SIZE), "keep": draw(st.booleans()), "keys": draw(view.search_keys(doc, 14 if tier == "thorough" else 9, extra=ABORT + [[[80, 24]], [[31, 6]]])),
            "ascii": draw(st.booleans())}


def fit(c):
    w, h = c["size"]
    w = view.width_for(c["doc"], w)
    return (w, h), [[max(k[0], w)] + k[1:] if isinstance(k, list) else k for k in c["keys"]]


def check(ctx, c):
    size, keys = fit(c)
    trace, r = view.session(ctx, c["doc"], size, keys, opts=["--ascii"] if c["ascii"] else [], mask=0xff, keep=c["keep"])
    out, jumps = set(), 0
    for i, k in enumerate(keys):
        a, b = trace[i][0], trace[i + 1][0]
        if len(b.found) > 1:
            out.add("several found")
        if (k == "n" or (k == "enter" and a.typed is not None)) and b.found:
            jumps += 1
            if b.collapsed != a.collapsed:
                out.add("unfolds")
            if b.msg == view.BOTTOM:
                out.add("wraps")
            if b.s != a.s:
                out.add("scrolls")
    if jumps > 1 and "several found" in out:
        out.add("!")
    return out


@st.composite
def visit_case(draw, tier):
    doc = draw(view.docs(24 if tier == "thorough" else 14))
    return {"doc": doc, "size": draw(view.SIZE), "fold": draw(view.keys(6, ["down", "down", "left", "right", "down"])), "search": draw(view.phrase(doc))}


def visit(ctx, c):
    w, h = c["size"]
    root, items = view.tree(c["doc"])
    keys = list(c["fold"]) + list(c["search"]) + ["n"] * (len(items) + 1)
    trace, r = view.session(ctx, c["doc"], (view.width_for(c["doc"], w), h), keys, mask=0x80)
    # the model's own claim, checked here against its list of found items
    at = len(c["fold"]) + len(c["search"])
    found = trace[at][0].found
    if found:
        seq = [t[0].sel.n for t in trace[at:]]
        order = [e.n for e in found]
        i = order.index(seq[0])
        assert seq == [order[(i + j) % len(order)] for j in range(len(seq))]
    return {"!" if len(found) > 1 else "few", "collapsed" if trace[at - 1][0].collapsed else "open"}


PARTS = [Part("history", case, check, 6000), Part("visit", visit_case, visit, 1600), Part("far", view.far_case, view.far, 300)]
