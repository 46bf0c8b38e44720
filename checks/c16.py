from hypothesis import strategies as st

import gen
import view
from common import fail
from core import Part

ID = "C16"
RULE = ("random documents (nested up to 5 levels, texts that wrap, up to several hundreds of lines in part 'long') on screens from 10x2 to 200x60, and random keys. Nothing is assumed about what the keys do, except that Left and Right alone may collapse or expand "
        "the selected container: after every key, the rows below the title must be a contiguous window of the document's rendering, with exactly one item highlighted, whose first row is on the screen, and the title row must be the name of the input. Non-trivial: at "
        "least 3 different windows were shown.")


def rows_of(root, collapsed, w):
    """(rows of the whole document, index of the first row of every line, lines)"""
    lns = view.lines(root, collapsed)
    rows, firsts = [], []
    for ln in lns:
        firsts.append(len(rows))
        c = " " * (ln.indent % w) + ln.text()
        n = view.nrows(ln, w)
        c = c.ljust(n * w)
        rows += [(c[i * w:(i + 1) * w], ln, i) for i in range(n)]
    return rows, firsts


def windows(root, collapsed, shot, cache):
    """all (scroll, selection) for which the screen is right"""
    w, h = shot.w, shot.h
    if (collapsed, w) not in cache:
        cache[(collapsed, w)] = rows_of(root, collapsed, w)
    rows, firsts = cache[(collapsed, w)]
    body = [shot.row(y) for y in range(1, h)]
    out, why = [], None
    for f in firsts:
        want = rows[f:f + h - 1]
        if any(body[i] != x[0] for i, x in enumerate(want)) or any(b.strip() for b in body[len(want):]):
            continue
        lit = []
        for i in range(h - 1):
            for x, a in enumerate(shot.rattr(i + 1)):
                if a & 0x80:
                    lit.append((i, x))
        owners = {want[i][1].owner for i, _ in lit if i < len(want)}
        if not owners:
            # an empty text has no character to highlight
            empty = {ln.owner for _, ln, _ in want if not ln.text()} if rows else {root}
            out += [(f, e) for e in empty]
            if not empty:
                why = why or "nothing is highlighted"
            continue
        if len(owners) != 1:
            why = why or "several items are highlighted"
            continue
        sel = owners.pop()
        exp = [(i, x) for i, (c, ln, part) in enumerate(want) if ln.owner is sel for x in range(w) if 0 <= part * w + x - ln.indent % w < len(ln.text())]
        if lit != exp:
            why = why or "the highlight does not cover exactly the selected item"
            continue
        if not any(ln.owner is sel and ln.first and part == 0 for c, ln, part in want):
            why = why or "the first row of the selected item is not on the screen"
            continue
        out.append((f, sel))
    return out, why


def run(ctx, doc, size, keys, keep):
    text = gen.compact(doc)
    path = ctx.file("in.json", text)
    r = ctx.stroll.tui((["--keep-order"] if keep else []) + [path], [view.code(k) for k in keys], size=size)
    view.check_end(r, text, keys)
    if len(r.shots) != len(keys) + 1:
        fail("%d screens for %d keys" % (len(r.shots), len(keys)), document=text, keys=keys)
    root, _ = view.tree(gen.ordered(doc, keep))
    cands = [(frozenset(), None)]
    seen, cache = set(), {}
    for i, shot in enumerate(r.shots):
        if shot.row(0) != path[:shot.w].ljust(shot.w) or any(a & 0x80 for a in shot.rattr(0)):
            fail("the title row is %r instead of %r" % (shot.row(0), path[:shot.w]), document=text, keys=keys[:i])
        tries = {c for c, _ in cands}
        if i and keys[i - 1] in ("left", "h", "H", "right", "l", "L"):
            for c, sel in cands:
                b = sel.body() if sel else None
                if b is not None and b.kind in "ao":
                    tries.add(c - {b} if b in c else c | {b})
        found, whys = {}, []
        for c in tries:
            ok, why = windows(root, c, shot, cache)
            whys += [why] if why else []
            for f, sel in ok:
                found[(c, sel)] = f
        if not found:
            fail("screen shows no window of the document: %s" % (whys[0] if whys else "its rows are not contiguous rows of the rendering"), document=text, size="%dx%d" % size, keys=keys[:i], screen="\n" + str(shot),
                 rendering="\n" + "\n".join(x[0].rstrip() for x in rows_of(root, cands[0][0], shot.w)[0][:60]))
        cands = list(found)
        if len(cands) > 40:
            return {"ambiguous"}        # too many places of the document look like this
        seen.add((min(found.values()), len(tries), cands[0][1].n))
    return {"!" if len(seen) > 2 else "few windows", "scrolled" if any(s[0] for s in seen) else "unscrolled"}


def case(tier):
    return st.fixed_dictionaries({"doc": view.docs(40 if tier == "thorough" else 16), "size": view.SIZE, "keep": st.booleans(),
                                  "keys": view.keys(24 if tier == "thorough" else 12, view.NAV + ["x", "timeout"], least=3)})


def check(ctx, c):
    w, h = c["size"]
    return run(ctx, c["doc"], (view.width_for(c["doc"], w), h), c["keys"], c["keep"])


def long_case(tier):
    inner = st.recursive(view.leaf(), lambda k: st.one_of(st.lists(k, max_size=4).map(lambda l: ["a", l]), st.lists(k, max_size=4).map(lambda l: ["o", [["k%d" % i, x] for i, x in enumerate(l)]])), max_leaves=4)
    return st.fixed_dictionaries({"items": st.lists(inner, min_size=1, max_size=8), "times": st.integers(5, 60), "object": st.booleans(),
                                  "size": st.tuples(st.sampled_from([40, 80, 132, 200]), st.sampled_from([5, 10, 24, 50, 60])).map(list),
                                  "keys": st.lists(st.tuples(st.sampled_from(["down", "pgdn", "down", "down", "up", "pgup", "left", "right"]), st.sampled_from([1, 2, 5, 10, 25, 40])).map(list), min_size=2, max_size=7)})


def long_check(ctx, c):
    items = c["items"] * c["times"]
    doc = ["o", [["%03d" % i, x] for i, x in enumerate(items)]] if c["object"] else ["a", items]
    w, h = c["size"]
    return run(ctx, doc, (view.width_for(doc, w), h), [k for k, n in c["keys"] for _ in range(n)], False)


def far_case(tier):
    return view.far_case(tier, pool=["down", "down", "pgdn", "up", "pgup", "left", "right"], searches=False)


def far_check(ctx, c):
    """documents far larger than the screen, texts and keys longer than it, very wide and very high screens"""
    w, h = c["size"]
    out = run(ctx, c["doc"], (view.width_for(c["doc"], w), h), c["keys"], c["keep"])
    return out | {"columns > %d" % x for x in (127, 255, 511) if w > x} | {"rows > %d" % x for x in (99, 255) if h > x}


PARTS = [Part("screens", case, check, 9000), Part("long", long_case, long_check, 500, 7000), Part("far", far_case, far_check, 240, 3000)]
