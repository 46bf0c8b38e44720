from hypothesis import strategies as st

import view
from common import fail
from core import Part

ID = "C17"
RULE = ("random documents (nested up to 5 levels, texts that wrap), 60 screen sizes from 10x2, and random key sequences of every navigation key and synonym (runs of up to 8); a model of the visible items says which item must be selected after every key, and every "
        "screen must show it. Part 'sweep': Down until nothing changes, then Up, over the whole document. Part 'far': documents of up to 1000 items, texts and keys of thousands of characters. Non-trivial: at least 4 different selections.")


def case(tier):
    return st.fixed_dictionaries({"doc": view.docs(30 if tier == "thorough" else 14), "size": view.SIZE, "keep": st.booleans(),
                                  "keys": view.keys(30 if tier == "thorough" else 14, view.NAV + ["timeout", "x", "5", "pgdn", "pgup"], least=6)})


def size_of(c):
    w, h = c["size"]
    return view.width_for(c["doc"], w), h


def check(ctx, c):
    trace, r = view.session(ctx, c["doc"], size_of(c), c["keys"], keep=c["keep"])
    sels = {s.sel.n for t in trace for s in t}
    out = {"scrolled"} if any(s.s for t in trace for s in t) else set()
    if len({id(s.sel) for s in trace[-1]}) > 1:
        out.add("ambiguous")
    return out | ({"!"} if len(sels) > 3 else {"few selections"})


def sweep_case(tier):
    return st.fixed_dictionaries({"doc": view.docs(24 if tier == "thorough" else 12), "size": view.SIZE, "keep": st.booleans(), "fold": view.keys(4, ["down", "down", "left", "left", "right"])})


def sweep(ctx, c):
    """from anywhere, repeated Down and Up visit every visible item"""
    size = size_of(c)
    root, items = view.tree(c["doc"])
    down = ["down"] * (3 * len(items) + 6)
    up = ["up"] * (len(items) + 2)
    keys = list(c["fold"]) + up + down + up
    trace, r = view.session(ctx, c["doc"], size, keys, keep=c["keep"])
    end = trace[len(c["fold"]) + len(up) + len(down)]
    for s in end:
        vis = view.selectables(s.root, s.collapsed)
        if s.sel is vis[-1]:
            break
    else:
        fail("repeated Down never reaches the last item, but stays on %s" % end[0].sel.label(), document=c["doc"], keys=keys, screen="\n" + str(r.shots[len(c["fold"]) + len(up) + len(down)]))
    if not any(s.sel is s.root for s in trace[-1]):
        fail("repeated Up never reaches the first item", document=c["doc"], keys=keys)
    return {"!" if len(items) > 4 else "small", "scrolled" if any(s.s for s in end) else "fits"}


PARTS = [Part("keys", case, check, 5000), Part("sweep", sweep_case, sweep, 1600), Part("far", view.far_case, view.far, 300)]
