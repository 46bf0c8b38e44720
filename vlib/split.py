"""Reference model of the split viewer (--diff)."""
import zlib
import gen
import view
from common import fail
from difflib2 import Diff

ADD, MOD, GAP = ("++", 60), ("!!", 61), ("--", 62)
MARK = {"equ": None, "mod": MOD, "add": ADD, "rem": GAP, "none": ADD}


class Docs:
    """both documents and how they compare, as the library reports it"""

    def __init__(self, ctx, a, b, sort=True):
        self.diff = Diff(ctx, a, b, sort)
        self.text = self.diff.text
        self.roots, self.items = [], []
        for d in (a, b):
            r, it = view.tree(gen.ordered(d, not sort))
            self.roots.append(r)
            self.items.append(it)
        self.ops, self.eq = {}, {}
        for i, x in enumerate((self.diff.a, self.diff.b)):
            for e in self.items[i]:
                self.ops[e] = x.op[e.n]
                self.eq[e] = self.items[1 - i][x.eq[e.n]] if x.eq[e.n] >= 0 else None

    def side(self, e):
        while e.parent is not None:
            e = e.parent
        return self.roots.index(e)


def inner_width(docs, w):
    """the smallest width of a half, not below w, that the model covers"""
    if zlib.crc32(repr(docs).encode()) % 5 == 0:
        return max(w, 10)
    return max(view.width_for(d, w - 2) + 2 for d in docs)


def screen_width(iw):
    return 2 * (iw + 2)


class Half:
    """what one half of a screen shows"""
    GAPS = (0x80 | 62,)     # attributes of the mark of a gap

    def __init__(self, shot, i):
        self.iw = shot.w // 2 - 2
        x0 = i * (shot.w // 2 - 1)
        self.h = shot.h
        cut = lambda s: s[x0 + 1:x0 + 1 + self.iw]       # noqa: E731
        self.title, self.tattr = cut(shot.row(1)), cut(shot.rattr(1))
        self.rows = [(cut(shot.row(y)), cut(shot.rattr(y))) for y in range(2, shot.h - 1)]
        self.border = [shot.row(y)[x] for y in range(shot.h - 1) for x in (x0, x0 + self.iw + 1)] + list(shot.row(0)[x0:x0 + self.iw + 2])

    def gap(self, y):
        c, a = self.rows[y]
        return c[:2] == "--" and a[0] == a[1] and a[0] in self.GAPS and not c[2:].strip()

    def blank(self, y):
        return not self.rows[y][0].strip()


def drawn(lns, docs, iw, sel, found, color=True):
    """[(chars, attributes, line, part)] of all the rows of one document"""
    out = []
    for ln in lns:
        it = ln.found
        mark = MARK[docs.ops[it]]
        hi = 0x80 if ln.owner is sel and sel is not None else 0
        c = "  " + " " * (ln.indent % (iw - 2))
        a = [0] * len(c)
        if mark:
            c = mark[0] + c[2:]
            a[0] = a[1] = 0x80 | mark[1]
        for t, col in ln.segs:
            if it in found:
                col = view.SEARCH
            c += t
            a += [hi | (col if color or col == view.SEARCH else 0)] * len(t)
        n = -(-len(c) // iw)
        c = c.ljust(n * iw)
        a += [0] * (n * iw - len(a))
        for i in range(n):
            out.append((c[i * iw:(i + 1) * iw], a[i * iw:(i + 1) * iw], ln, i))
    return out


def blank_row(c, a):
    return not c.strip()


def check_frame(shot, names, active, docs, keys, mask=0xff, color=True):
    for i in (0, 1):
        h = Half(shot, i)
        name = names[i][:h.iw].ljust(h.iw)
        if h.title != name:
            fail("title of half %d is %r instead of %r" % (i, h.title, name), documents=docs.text, keys=keys, screen="\n" + str(shot))
        col = (view.ACTIVE if i == active else view.INPUTNAME) if color else 0
        if any((t & mask) != (col & mask) for t in h.tattr):
            fail("title of half %d, %s, has colours %s" % (i, "active" if i == active else "not active", sorted(set(h.tattr))), documents=docs.text, keys=keys)
        if any(c != "\x01" for c in h.border):
            fail("the frame of half %d is broken" % i, documents=docs.text, keys=keys, screen="\n" + str(shot))


def match(half, want, mask, must, sel):
    """None, or why these rows are no window of the document's; must: is the first row of the selection to be shown?"""
    got = [(c, a) for y, (c, a) in enumerate(half.rows) if not half.gap(y) and c.strip()]
    want = [r for r in want if r[0].strip()]
    why = "its rows are not those of the document"
    starts = [i for i, r in enumerate(want) if r[3] == 0] or [0]
    for f in starts:
        part = want[f:f + len(got)]
        if len(part) != len(got) or any(p[0] != g[0] for p, g in zip(part, got)):
            continue
        bad = None
        for p, g in zip(part, got):
            x = [i for i in range(half.iw) if (p[1][i] ^ g[1][i]) & mask]
            if x:
                bad = "row %r, column %d: colour/highlight %#x instead of %#x" % (g[0].rstrip(), x[0], g[1][x[0]] & mask, p[1][x[0]] & mask)
                break
        if bad is None and must and not any(p[2].owner is sel and p[2].first and p[3] == 0 for p in part):
            if any(r[2].owner is sel and r[2].first for r in want):
                bad = "the selected item is not on the screen"
        if bad is None:
            return None
        why = bad
    return why


class State:
    def __init__(self, docs, names, w, h):
        self.docs, self.names, self.w, self.h = docs, names, w, h
        self.win = 0
        self.last = tuple(docs.roots)
        self.sel = tuple(docs.roots)
        self.collapsed = frozenset()
        self.found = ([], [])
        self.msg, self.typed, self.prefix, self.over, self.ascii = None, None, False, False, False
        self.pick(docs.roots[0])

    def copy(self, **kw):
        o = State.__new__(State)
        o.__dict__.update(self.__dict__)
        o.__dict__.update(kw)
        return o

    def pick(self, e):
        other = self.docs.eq[e]
        sel, last = [e, other], [e, other or self.last[1 - self.win]]
        if self.win:
            sel.reverse()
            last.reverse()
        self.sel, self.last = tuple(sel), tuple(last)
        return self

    def select(self, e):
        return self.copy(msg=None).pick(e)

    def mismatch(self, shot, mask=0xff, color=True):
        if (shot.w, shot.h) != (self.w, self.h):
            return "the screen is %dx%d instead of %dx%d" % (shot.w, shot.h, self.w, self.h)
        bottom = "/" + self.typed if self.typed is not None else self.msg
        if bottom is not None and shot.row(shot.h - 1) != bottom[:shot.w].ljust(shot.w):
            return "the bottom row is %r instead of %r" % (shot.row(shot.h - 1).rstrip(), bottom)
        tint = (view.SEARCH if self.typed is not None else view.ERROR) & mask if color else 0
        if bottom is not None and mask & 0x7f and any(t & mask != tint for t in shot.rattr(shot.h - 1)):
            return "the bottom row %r has colours %s" % (bottom, sorted(set(shot.rattr(shot.h - 1))))
        if bottom is None and shot.row(shot.h - 1)[:self.w // 2 * 2 - 1].strip("\x01"):
            return "the bottom row is %r" % shot.row(shot.h - 1)
        for i in (0, 1):
            half = Half(shot, i)
            want = drawn(view.lines(self.docs.roots[i], self.collapsed, 0), self.docs, half.iw, self.sel[i], self.found[i], color)
            bad = match(half, want, mask, self.sel[i] is not None, self.sel[i])
            if bad:
                return "%s half: %s (selected there: %s)" % (("left", "right")[i], bad, self.sel[i].label() if self.sel[i] else "nothing")
        return None


def to_next(st):
    found = st.found[st.win]
    if not found:
        return st.copy(msg=view.NOTHING)
    later = [e for e in found if e.n > st.last[st.win].n]
    e = (later or found)[0]
    o = st.select(e)
    up = set(view.ancestors(e))
    up |= {st.docs.eq[x] for x in up}
    return o.copy(collapsed=o.collapsed - up, msg=None if later else view.BOTTOM)


def change(st, win):
    o = st.copy(win=win, msg=None)
    if o.sel[win] is None:
        o.pick(o.last[win])
    return o


def step(st, key):
    """the state after a key"""
    if isinstance(key, (tuple, list)):
        if len(key) > 2 and [st.w, st.h] == list(key[:2]):
            return st
        return st.copy(w=key[0], h=key[1], msg=None)
    if key in ("sigint", "sigterm"):
        return st.copy(over=True)
    if key in ("timeout", "sigcont"):
        return st
    if st.typed is not None:
        if key == "enter":
            pat = view.Pattern(st.typed, st.ascii)
            st = st.copy(typed=None, msg=None)
            if pat.empty():
                return st.copy(found=([], []))
            return to_next(st.copy(found=tuple(view.matches(r, pat) for r in st.docs.roots)))
        if key == "esc":
            return st.copy(typed=None, msg=None)
        if key == "backspace":
            return st.copy(typed=st.typed[:-1])
        if len(key) == 1:
            return st.copy(typed=st.typed + key)
        if key in view.PREFIX:
            raise view.Skip()
        return st
    if st.prefix == "^W" and key in ("w", "W"):
        return change(st.copy(prefix=False), 1 - st.win)
    if st.prefix == "^W" and key in ("l", "L", "right"):
        return change(st.copy(prefix=False), 1) if st.win == 0 else st.copy(prefix=False)
    if st.prefix == "^W" and key in ("h", "H", "left"):
        return change(st.copy(prefix=False), 0) if st.win == 1 else st.copy(prefix=False)
    if st.prefix:
        return st.copy(prefix="several") if key in view.PREFIX else st.copy(prefix=False)
    if key in view.PREFIX:
        return st.copy(prefix=key)
    if key in ("q", "Q"):
        return st.copy(over=True)
    if key == "/":
        return st.copy(typed="")
    if key in ("n", "N"):
        return to_next(st)
    sel = st.sel[st.win]
    if key in ("up", "k", "K", "down", "j", "J"):
        vis = view.selectables(st.docs.roots[st.win], st.collapsed)
        if sel not in vis:
            raise AssertionError("the selection is hidden in the model")
        at = vis.index(sel) + (-1 if key in ("up", "k", "K") else 1)
        return st.select(vis[min(max(at, 0), len(vis) - 1)])
    if key == "pgup":
        e = sel.prev() or sel.holder()
        return st.select(e) if e else st
    if key == "pgdn":
        e = sel.next()
        return st.select(e) if e else st
    b = sel.body()
    both = {b, st.docs.eq[b]} - {None}
    if key in ("right", "l", "L"):
        if b in st.collapsed:
            return st.copy(collapsed=st.collapsed - both, msg=None)
        return st.select(b.kids[0]) if b.kids else st
    if key in ("left", "h", "H"):
        if b.parent is not None and (b.kind not in "ao" or not b.kids or b in st.collapsed):
            return st.select(sel.holder())
        if b.kind not in "ao":
            return st.copy(msg=None)
        return st.copy(collapsed=st.collapsed | {x for x in both if x.kind in "ao"}, msg=None)
    return st


def session(ctx, a, b, size, keys, opts=(), sort=True, mask=0xff, color=True, keep_going=False):
    docs = Docs(ctx, a, b, sort)
    keys = list(keys)
    if view.typing(keys):
        keys.append("esc")
    names = [ctx.file("a.json", docs.text[0]), ctx.file("b.json", docs.text[1])]
    r = ctx.stroll.tui(list(opts) + ([] if sort else ["--keep-order"]) + ["--diff"] + names, [view.code(k) for k in keys], size=size)
    view.check_end(r, docs.text, keys)
    if len(r.shots) < len(keys) + 1:
        fail("the viewer ends before all keys are typed", documents=docs.text, keys=keys)
    st = State(docs, names, *size)
    trace = []
    for i, shot in enumerate(r.shots[:len(keys) + 1]):
        if i:
            st = step(st, keys[i - 1])
        bad = st.mismatch(shot, mask, color)
        if bad:
            fail(bad, documents=docs.text, size="%dx%d" % tuple(size), keys=keys[:i], screen="\n" + str(shot))
        if st.typed is None and st.msg is None:
            check_frame(shot, names, st.win, docs, keys[:i], mask, color)
        trace.append(st)
    return trace, r
