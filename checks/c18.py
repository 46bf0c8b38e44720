from hypothesis import strategies as st

import view
from common import fail
from core import Part

ID = "C18"
RULE = ("random nested documents on 60 screen sizes from 10x2, and random histories of moves, collapses and expansions (h, l and the arrow keys); a model keeps the set of collapsed containers and says what every screen must show after every key. "
        "Part 'restore': after a random history, a container is collapsed and, later or at once, expanded: on a screen where everything fits, the same rows must be back, inner collapsed containers included. Part 'far': documents of up to 1000 items, texts and keys of thousands of characters. Non-trivial: at least 2 containers were collapsed at the "
        "same time, or one was expanded again.")
POOL = ["left", "left", "left", "h", "right", "right", "l", "down", "down", "up", "H", "L", "pgdn", "pgup", "j"]


def case(tier):
    return st.fixed_dictionaries({"doc": view.docs(30 if tier == "thorough" else 16), "size": view.SIZE, "keep": st.booleans(), "keys": view.keys(30 if tier == "thorough" else 16, POOL, least=5)})


def check(ctx, c):
    w, h = c["size"]
    trace, r = view.session(ctx, c["doc"], (view.width_for(c["doc"], w), h), c["keys"], keep=c["keep"])
    out = set()
    for a, b in zip(trace, trace[1:]):
        if len(b[0].collapsed) > 1:
            out |= {"!", "several collapsed"}
        if a[0].collapsed - b[0].collapsed:
            out |= {"!", "expanded again"}
        if a[0].s != b[0].s and len(a[0].collapsed) != len(b[0].collapsed):
            out.add("scrolls")
    return out


def restore_case(tier):
    return st.fixed_dictionaries({"doc": view.docs(24 if tier == "thorough" else 14), "before": view.keys(12, POOL, least=2), "then": view.keys(4, ["pgdn", "pgup", "down", "timeout"])})


def restore(ctx, c):
    w = view.width_for(c["doc"], 60)
    size = (w, 3 + sum(view.nrows(ln, w) for ln in view.lines(view.tree(c["doc"])[0], ())))
    # find the state, then go to an expanded container
    trace, _ = view.session(ctx, c["doc"], size, c["before"])
    before, s = list(c["before"]), trace[-1][0]
    for _ in range(2):
        b = s.sel.body()
        if b in s.collapsed:
            key = "right"
        elif not b.kids and s.sel.parent is not None:
            key = "left"
        else:
            break
        before.append(key)
        s = view.step(s, key)[0]
    if len(trace[-1]) > 1 or not s.sel.body().kids:
        return {"not on a container"}
    keys = before + ["left"] + list(c["then"]) + ["timeout"]
    t2, r2 = view.session(ctx, c["doc"], size, keys)
    shot0, shot1 = r2.shots[len(before)], r2.shots[len(before) + 1]
    rows0, rows1 = [x for x in shot0.rows() if x], [x for x in shot1.rows() if x]
    gone = len(rows0) - len(rows1)
    if gone <= 0:
        fail("collapsing hides nothing", document=c["doc"], keys=keys)
    # back on it, expand: everything must be as before
    t3, r3 = view.session(ctx, c["doc"], size, before + ["left", "right"])
    if r3.shots[-1].chars != shot0.chars or r3.shots[-1].attrs != shot0.attrs:
        fail("expanding does not restore the screen", document=c["doc"], keys=before + ["left", "right"], before="\n" + str(shot0), after="\n" + str(r3.shots[-1]))
    return {"!", "inner collapsed" if s.collapsed else "nothing else collapsed"}


PARTS = [Part("history", case, check, 4500), Part("restore", restore_case, restore, 1200), Part("far", lambda tier: view.far_case(tier, pool=POOL), view.far, 300)]
