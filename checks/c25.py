import itertools

from hypothesis import strategies as st

import gen
import split
import view
from common import fail
from core import Part

ID = "C25"
TARGETS = ("worker", "libworker")
RULE = ("pairs of random documents (an edited copy, or unrelated), with and without --keep-order and colours, on screens on which they fit, of any width, after random moves, collapses and searches on both sides. Both halves must show exactly the reference rendering of their own document, below the name of their file, with the mark of "
        "every item on its first row; predicate on rows: items and their counterparts start on the same row, as do the closing brackets of containers that are counterparts; each row of an item without counterpart faces an empty row marked --; such rows, and empty ones, appear nowhere else. Part 'scrolled': on small screens both halves must still be contiguous windows of these renderings, standing in the same places. Part 'wide': lists and objects of 20-300 items (520 in the thorough tier), with items of hundreds of rows on one side only. Non-trivial: both counterparts and items without any on the screen.")
MOVES = ["down", "down", "down", "up", "left", "left", "right", "pgdn", "pgup"]


@st.composite
def case(draw, tier):
    docs = draw(gen.doc_pair(24 if tier == "thorough" else 12, 5))
    return {"docs": docs, "w": draw(st.sampled_from([12, 14, 17, 20, 30, 60])), "sort": draw(st.booleans()), "color": draw(st.sampled_from([True, True, False])), "spare": draw(st.sampled_from([0, 1, 7])),
            "keys": draw(view.search_keys(docs[draw(st.integers(0, 1))], 7, pool=MOVES, extra=[["^W", "w"], ["left", "n"]], first=False))}


def closes(ln):
    return ln.found.kind in "ao" and ln.text() in ("]", "}")


def label(e, closing=False):
    return ("end of " if closing else "") + e.label()


def shares(runs, m, rest):
    """the ways to have m empty rows of the document at the ends of these runs of empty rows, or fewer (rest), if the document may go on below"""
    if not runs:
        return [[]] if not m or rest else []
    out = []
    for k in range(min(m, len(runs[0])) + 1):
        out += [runs[0][len(runs[0]) - k:] + more for more in itertools.islice(shares(runs[1:], m - k, rest), 20)]
    return out


def rows_of(half, want, first):
    """[[(kind, line, part)] of the rows of a half showing the document from a row on (kind: item, gap or blank), and where it stops], for every way to tell the rows of empty
    texts from those left empty below an item shorter than its counterpart; or what is wrong"""
    out, at = [([], first)], first
    y, n = 0, len(half.rows)
    while y < n:
        # the empty rows and gaps from here on
        end, runs, fresh = y, [], True
        while end < n and (half.gap(end) or not half.rows[end][0].strip()):
            if half.gap(end):
                fresh = True
            elif fresh:
                runs.append([end])
                fresh = False
            else:
                runs[-1].append(end)
            end += 1
        if end > y:
            m = 0
            while at + m < len(want) and not want[at + m][0].strip():
                m += 1
            # the end of the item above
            head, left = [], [list(x) for x in runs]
            while len(head) < m and want[at + len(head)][3] and left and left[0][:1] == [y + len(head)]:
                head.append(left[0].pop(0))
            if end == n and at + m == len(want):
                ways = [[x for run in left for x in run][:m - len(head)]]
            else:
                ways = shares(left, m - len(head), end == n)
            more = []
            for way in ways[:20]:
                taken = head + way
                if any(list(want[at + j][1])[:half.iw] != list(half.rows[z][1])[:half.iw] for j, z in enumerate(taken)):
                    continue
                for rows, k in out:
                    rows = list(rows)
                    for z in range(y, end):
                        if half.gap(z):
                            rows.append(("gap", None, 0))
                        elif z in taken:
                            rows.append(("item", want[k][2], want[k][3]))
                            k += 1
                        else:
                            rows.append(("blank", None, 0))
                    more.append((rows, k))
            if not more:
                return "row %d: %d rows of empty texts are not shown" % (y, m)
            out, at, y = more[:100], at + m, end
            continue
        c, a = half.rows[y]
        if at >= len(want):
            return "row %d, %r, comes after the end of the document" % (y, c.rstrip())
        if want[at][0] != c:
            return "row %d is %r instead of %r" % (y, c.rstrip(), want[at][0].rstrip())
        x = [j for j in range(half.iw) if want[at][1][j] != a[j]]
        if x:
            return "row %d, %r, column %d: colour/highlight %#x instead of %#x" % (y, c.rstrip(), x[0], a[x[0]], want[at][1][x[0]])
        out = [(rows + [("item", want[at][2], want[at][3])], k + 1) for rows, k in out]
        at += 1
        y += 1
    return out


def aligned(docs, rows):
    """what is wrong with these rows, standing side by side"""
    where = [{}, {}]
    for i in (0, 1):
        for y, (kind, ln, part) in enumerate(rows[i]):
            if kind == "item" and part == 0:
                where[i].setdefault((ln.found, closes(ln)), y)
    for (e, closing), y in where[0].items():
        f = docs.eq[e]
        z = where[1].get((f, closing), y)
        if z != y:
            return "%s is on row %d, and %s, its counterpart, on row %d" % (label(e, closing), y, label(f, closing), z)
    return None


def facing(docs, rows, open_boxes):
    """open_boxes: containers drawn on several rows"""
    for i in (0, 1):
        for y, (kind, ln, part) in enumerate(rows[i]):
            kind2, ln2, part2 = rows[1 - i][y]
            if kind == "item":
                e = ln.found
                alone = docs.eq[e] is None or closes(ln) and docs.eq[e] not in open_boxes
                # the bracket opening the value of an entry is drawn along with the entry
                opening = e.parent is not None and e.parent.kind == "e" and e.kind in "ao" and ln.text() in ("[", "{")
                if opening:
                    alone = docs.eq[e.parent] is None
                if alone and kind2 != "gap":
                    return "row %d: %s has no counterpart, and faces %s" % (y, label(e), "an empty row" if kind2 == "blank" else label(ln2.found))
                if not alone and kind2 == "gap":
                    return "row %d: %s has a counterpart, and faces a gap" % (y, label(e))
                if not alone and kind2 == "blank" and part == 0 and not opening:
                    return "row %d: %s has a counterpart, and faces an empty row" % (y, label(e))
            elif kind == "gap" and kind2 != "item":
                return "row %d: a gap faces %s" % (y, kind2)
            elif kind == "blank" and kind2 == "blank" and any(r[0] != "blank" for r in rows[i][y:] + rows[1 - i][y:]):
                return "row %d is empty on both sides" % y
    return None


def run(ctx, c, height):
    """for every screen: model state, halves, rows to be shown, open containers, and how to complain"""
    a, b = c["docs"]
    docs = split.Docs(ctx, a, b, c["sort"])
    iw = split.inner_width(c["docs"], c["w"])
    keys = c["keys"] + (["esc"] if view.typing(c["keys"]) else [])
    size = (split.screen_width(iw), height(docs, iw))
    names = [ctx.file("a.json", docs.text[0]), ctx.file("b.json", docs.text[1])]
    opts = ([] if c["sort"] else ["--keep-order"]) + ([] if c["color"] else ["--color=never"])
    r = ctx.stroll.tui(opts + ["--diff"] + names, [view.code(k) for k in keys], size=size)
    view.check_end(r, docs.text, keys)
    if len(r.shots) < len(keys) + 1:
        fail("the viewer ends before all keys are typed", documents=docs.text, keys=keys)
    s = split.State(docs, names, *size)
    for n, shot in enumerate(r.shots[:len(keys) + 1]):
        if n:
            s = split.step(s, keys[n - 1])

        def bad(msg):
            fail(msg, documents=docs.text, options=opts, size="%dx%d" % size, keys=keys[:n], screen="\n" + str(shot))
        if s.typed is None and s.msg is None:
            split.check_frame(shot, names, s.win, docs, keys[:n], color=c["color"])
        lns = [view.lines(x, s.collapsed, 0) for x in docs.roots]
        boxes = {ln.found for l in lns for ln in l if closes(ln)}
        want = [split.drawn(lns[i], docs, iw, s.sel[i], s.found[i], c["color"]) for i in (0, 1)]
        yield s, (split.Half(shot, 0), split.Half(shot, 1)), want, boxes, bad


def labels(docs, seen, last):
    out = set()
    if any(docs.eq.values()) and any(e is None for e in docs.eq.values()) and seen:
        out.add("!")
    if any(last.found):
        out.add("found items")
    if last.collapsed:
        out.add("collapsed")
    return out


def check(ctx, c):
    def height(docs, iw):
        return sum(-(-(ln.indent + 2 + len(ln.text())) // iw) for r in docs.roots for ln in view.lines(r, (), 0)) + 4 + c["spare"]
    for s, halves, want, boxes, bad in run(ctx, c, height):
        rows = []
        for i in (0, 1):
            got = rows_of(halves[i], want[i], 0)
            side = ("left", "right")[i] + " half: "
            if isinstance(got, str):
                bad(side + got)
            short = min(len(want[i]) - k for x, k in got)
            if short:
                bad(side + "%r is not shown" % want[i][-short][0].rstrip())
            rows.append([x for x, k in got if k == len(want[i])])
        whys = []
        for pair in itertools.product(*rows):
            whys.append(aligned(s.docs, pair) or facing(s.docs, pair, boxes))
            if whys[-1] is None:
                break
        else:
            bad(whys[0])
    return labels(s.docs, True, s)


@st.composite
def scrolled(draw, tier):
    c = draw(case(tier))
    c["h"] = draw(st.sampled_from([4, 5, 6, 8, 10, 14]))
    return c


def check_scrolled(ctx, c):
    moved = False
    for s, halves, want, boxes, bad in run(ctx, c, lambda docs, iw: c["h"]):
        found = ([], [])
        whys = []
        for i in (0, 1):
            side = ("left", "right")[i] + " half: "
            for f in [k for k, r in enumerate(want[i]) if r[3] == 0] + [len(want[i])]:
                got = rows_of(halves[i], want[i], f)
                if isinstance(got, str):
                    whys.append(side + got)
                else:
                    found[i].extend((k < len(want[i]), x) for x, k in got)
            if not found[i]:
                bad(max(whys, key=len))
        # the same rows may be met several times in a document
        whys = []
        for f, x in found[0]:
            for g, y in found[1]:
                whys.append(aligned(s.docs, (x, y)) or facing(s.docs, (x, y), boxes))
                if whys[-1] is None and (f or g) and x[-1][0] == y[-1][0] == "blank":
                    whys[-1] = "the last rows are empty, but there is more to show"
                moved |= whys[-1] is None and (f or g)
        if None not in whys:
            bad(whys[0])
    return labels(s.docs, moved, s)


@st.composite
def wide(draw, tier):
    """lists of hundreds of items"""
    n = draw(st.sampled_from([20, 60, 130, 255, 257, 270, 300, 520 if tier == "thorough" else 280]))
    obj = draw(st.booleans())
    a = [["n", str(i * 1117 % 99991)] for i in range(n)]
    b = list(a)
    for kind, i, leaf in draw(st.lists(st.tuples(st.sampled_from(["ins", "del", "set", "box", "big", "long"]), st.integers(0, 10000), gen.short_leaf()), min_size=1, max_size=5)):
        i %= len(b)
        new = {"box": ["a", [leaf, leaf]], "big": ["a", [leaf] * (n // 2 + i)], "long": ["s", "lorem ipsum " * (n // 4 + i % 200)]}.get(kind, leaf)
        b[i:i + (kind not in ("ins", "big", "long"))] = [] if kind == "del" else [new]
    if obj:
        docs = [["o", [["k%03d" % i, x] for i, x in enumerate(d)]] for d in (a, b)]
    else:
        docs = [["a", a], ["a", b]]
    if draw(st.booleans()):
        docs.reverse()
    return {"docs": docs, "w": 20, "sort": draw(st.booleans()), "color": True, "spare": 1, "keys": draw(st.lists(st.sampled_from(["down", "pgdn", "up", "left", "right"]), max_size=3)), "h": draw(st.sampled_from([0, 0, 12]))}


def check_wide(ctx, c):
    return check_scrolled(ctx, c) if c["h"] else check(ctx, c)


PARTS = [Part("fits", case, check, 2000), Part("scrolled", scrolled, check_scrolled, 2000), Part("wide", wide, check_wide, 60, 1500)]
