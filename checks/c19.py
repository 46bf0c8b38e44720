from hypothesis import strategies as st

import gen
import split as split_model
import view
from common import fail
from core import Part

ID = "C19"
TARGETS = ("worker", "libworker")
RULE = ("random documents, keys, searches (also half typed) and resizes, at any moment, to sizes from 1x1 to 200x60, on the simple and on the split viewer. On sizes on which every line starts on the screen, every screen must be the one the model of the viewer "
        "predicts: same selection, collapsed items, search results and typed text, drawn for the new size; on smaller ones only survival is required, and what is shown once the screen is large again. Part 'split': survival on the split viewer, and the same "
        "selected item after a resize there and back. Part 'halves': on the split viewer with sizes that are large enough, both halves are what the model of the split viewer predicts, after each key and each resize. A size also changes while the program is stopped (no SIGWINCH, only SIGCONT). Part 'far': documents of up to 1000 items, texts and keys of thousands of characters. Non-trivial: at least 2 resizes and another selection than the first one.")

def stopped(sizes):
    """some of these sizes are changed while the program is stopped"""
    return st.tuples(sizes, st.sampled_from([[], [], ["cont"]])).map(lambda t: t[0] + t[1])


TINY = stopped(st.tuples(st.sampled_from([1, 2, 3, 4, 5, 7, 9, 12]), st.sampled_from([1, 2, 3, 4, 30])).map(list))
BIG = stopped(st.tuples(st.sampled_from([14, 20, 24, 31, 40, 80, 132, 200]), st.sampled_from([2, 3, 4, 5, 7, 10, 12, 24, 60])).map(list))


@st.composite
def case(draw, tier):
    doc = draw(view.docs(30 if tier == "thorough" else 14))
    size = draw(BIG)[:2]
    out = []
    for _ in range(draw(st.integers(2, 16 if tier == "thorough" else 10))):
        k = draw(st.integers(0, 9))
        if k < 2:
            out.append(draw(BIG))
        elif k == 2:
            # there and back; nothing but resizes, signals and keys without effect there
            out += draw(st.lists(st.one_of(TINY, st.sampled_from(["timeout", "x", "sigcont", "5"])), min_size=1, max_size=4)) + [draw(BIG)]
        elif k == 3:
            p = draw(view.phrase(doc))
            i = draw(st.integers(1, len(p) - 1))
            out += p[:i] + draw(st.lists(st.one_of(BIG, st.just("timeout"), TINY), min_size=1, max_size=3)) + [draw(BIG)] + p[i:]
        elif k == 4:
            out += draw(view.phrase(doc)) + [draw(BIG)]
        elif k == 5:
            out += ["n", draw(BIG), "n"]
        elif k == 6:
            out += ["^W", draw(BIG), "x"]
        else:
            out += [draw(st.sampled_from(view.NAV))] * draw(st.sampled_from([1, 2, 4]))
    return {"doc": doc, "size": size, "keys": out}


def loose(st_, shot, mask, history, text):
    """states of the right content, wherever it is scrolled to"""
    out, why = [], None
    lns = st_.lines()
    top = st_.top()
    for s in range(top + 1):
        y = 1 + sum(view.nrows(x, st_.w) for x in lns[s:top])
        if y > st_.h - 1 and s != top:
            continue
        x = st_.copy(s=s)
        bad = view.mismatch(x, shot, mask)
        if bad is None:
            out.append(x)
        elif s == top:
            why = bad
    if not out:
        fail("after a resize, the screen is not one of the expected selection: %s" % why, document=text, size="%dx%d" % (st_.w, st_.h), keys=history, expected_selection=st_.sel.label(), screen="\n" + str(shot))
    return out


def tiny(k, need):
    return k[0] < need or k[1] < 2


def check(ctx, c):
    doc, keys = c["doc"], list(c["keys"])
    need = 3
    keys = [[max(k[0], need)] + k[1:] if isinstance(k, list) and k[0] >= 14 and k[1] >= 2 else k for k in keys]
    if view.typing(keys):
        keys.append("esc")
    text = gen.compact(doc)
    path = ctx.file("in.json", text)
    size = (max(c["size"][0], need), c["size"][1])
    r = ctx.stroll.tui([path], [view.code(k) for k in keys], size=size)
    view.check_end(r, text, keys)
    if len(r.shots) < len(keys) + 1:
        fail("the viewer ends before all keys are typed", document=text, keys=keys)
    s0, _ = view.start(doc, path, size)
    states = view.follow([s0.settle()], r.shots[0], [], text, 0xff)
    small, blind, sizes, sels = False, 0, 0, set()
    for i, k in enumerate(keys):
        shot = r.shots[i + 1]
        if isinstance(k, list):
            sizes += 1
            if (shot.w, shot.h) != tuple(k[:2]):
                fail("screen is %dx%d after a resize to %dx%d" % (shot.w, shot.h, k[0], k[1]), document=text, keys=keys[:i + 1])
            if tiny(k, need):
                small = True
                blind += 1
                states = [s.copy(w=k[0], h=k[1], msg=None) for s in states]
                continue
            if small:
                small = False
                one = states[0].copy(w=k[0], h=k[1], msg=None)
                states = loose(one, shot, 0xff, keys[:i + 1], text)
                continue
        if small:
            states = [x for s in states for x in quiet(s, k)]
            continue
        states = view.follow([x for s in states for x in view.step(s, k)], shot, keys[:i + 1], text, 0xff)
        sels.add(states[0].sel.n)
    out = {"tiny"} if blind else set()
    if sizes > 1 and len(sels) > 1:
        out.add("!")
    return out


def quiet(s, k):
    """what is sent on tiny screens never scrolls"""
    if s.typed is not None or s.prefix:
        return view.step(s, k)
    return [s]


def split_case(tier):
    return st.fixed_dictionaries({"docs": gen.doc_pair(10, 4), "size": BIG.map(lambda s: s[:2]), "tiny": st.lists(st.one_of(TINY, BIG, st.sampled_from(["timeout"])), max_size=5),
                                  "keys": view.keys(10, ["down", "down", "down", "up", "left", "right", "pgdn", "pgup", "^W", "w", "n"], extra=[TINY, BIG])})


def split(ctx, c):
    """the selected rows are the same after going to other sizes and back"""
    a, b = (gen.compact(d) for d in c["docs"])
    pa, pb = ctx.file("a.json", a), ctx.file("b.json", b)
    keys = list(c["keys"])
    if keys and keys[-1] == "^W":
        keys.append("x")
    size = [120, 60]
    big = [size, "timeout"]
    keys = keys + ["x"] + big + list(c["tiny"]) + big
    r = ctx.stroll.tui(["--diff", pa, pb], [view.code(k) for k in keys], size=c["size"])
    view.check_end(r, [a, b], keys)
    if len(r.shots) < len(keys) + 1:
        fail("the viewer ends before all keys are typed", documents=[a, b], keys=keys)
    for k, shot in zip(keys, r.shots[1:]):
        if isinstance(k, list) and [shot.w, shot.h] != k[:2]:
            fail("screen is %dx%d after a resize to %r" % (shot.w, shot.h, k), documents=[a, b], keys=keys)
    s1, s2 = r.shots[-1 - len(big) - len(c["tiny"])], r.shots[-1]
    lit = [sorted({s.row(y)[x0:x1].rstrip() for y in range(1, s.h) if any(t & 0x80 for t in s.rattr(y)[x0 + 3:x1 - 1])}) for s in (s1, s2) for x0, x1 in ((0, 59), (60, 118))]
    if lit[:2] != lit[2:]:
        fail("the selection is another one after resizes", documents=[a, b], keys=keys, before="\n" + str(s1), after="\n" + str(s2))
    return {"!"} if len(c["tiny"]) > 1 and any(k == "down" for k in c["keys"]) else set()


WIDE = stopped(st.tuples(st.sampled_from([12, 14, 16, 20, 24, 30, 44, 60]), st.sampled_from([4, 5, 6, 8, 10, 14, 24, 40, 60])).map(list))


@st.composite
def halves_case(draw, tier):
    docs = draw(gen.doc_pair(12 if tier == "thorough" else 8, 4))
    keys = []
    for _ in range(draw(st.integers(2, 14 if tier == "thorough" else 8))):
        k = draw(st.integers(0, 9))
        if k < 4:
            keys.append(draw(WIDE))
        elif k == 4:
            keys += ["^W", draw(WIDE), "w"]
        elif k == 5:
            p = draw(view.phrase(docs[draw(st.integers(0, 1))]))
            i = draw(st.integers(1, len(p)))
            keys += p[:i] + [draw(WIDE)] + p[i:]
        elif k == 6:
            keys += ["^W", "w"]
        else:
            keys += [draw(st.sampled_from(["down", "down", "down", "up", "left", "right", "pgdn", "pgup", "n"]))] * draw(st.sampled_from([1, 1, 2, 3]))
    return {"docs": docs, "keys": keys + [draw(WIDE)], "size": draw(WIDE)[:2]}


def halves(ctx, c):
    """both halves are redrawn for the new size"""
    def fit(s):
        return [split_model.screen_width(split_model.inner_width(c["docs"], s[0])) + s[0] // 2 % 2] + s[1:]
    keys = [fit(k) if isinstance(k, list) else k for k in c["keys"]]
    trace, r = split_model.session(ctx, c["docs"][0], c["docs"][1], fit(c["size"]), keys)
    out = set()
    if len({(t.w, t.h) for t in trace}) > 2 and len({t.last[t.win].n for t in trace}) > 1:
        out.add("!")
    return out


PARTS = [Part("resizes", case, check, 5000), Part("split", split_case, split, 1200), Part("halves", halves_case, halves, 1600), Part("far", lambda tier: view.far_case(tier, extra=[[[w, h]] for w, h in ((200, 60), (40, 10), (24, 5), (80, 24), (132, 43), (30, 200))]), check, 240)]
