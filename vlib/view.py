"""Reference model of the viewer: what a document looks like on a screen, and what every key does."""
import zlib
import functools
import re

import gen
from common import fail
from core import Skip
from worker import KEY, resize

STRING, NUMBER, BOOL, OBJKEY, NULL, SEARCH, ERROR, INPUTNAME, ACTIVE = 1, 2, 3, 5, 7, 51, 52, 53, 54
COLOR = {"s": STRING, "n": NUMBER, "b": BOOL, "z": NULL}


class El:
    """an item; entries have a value, and are the parent of it"""
    __slots__ = ("kind", "parent", "kids", "value", "text", "n", "node")

    def __init__(self, kind, parent, text, node):
        self.kind, self.parent, self.text, self.node = kind, parent, text, node
        self.kids, self.value = [], None

    def body(self):
        return self.value if self.kind == "e" else self

    def holder(self):
        """the selectable item around"""
        p = self.parent
        if p is not None and p.parent is not None and p.parent.kind == "e":
            return p.parent
        return p

    def next(self):
        p = self.parent
        if p is None:
            return None
        if p.kind == "e":
            return p.next()
        i = p.kids.index(self) + 1
        return p.kids[i] if i < len(p.kids) else p.next()

    def prev(self):
        p = self.parent
        if p is None or p.kind == "e":
            return None
        i = p.kids.index(self)
        return p.kids[i - 1] if i else None

    def label(self):
        return "%s %r" % (self.kind, self.text if self.text is not None else gen.compact(self.node)[:40])


def raw(t):
    """the bytes of a text, one character each: that many cells it takes, as the terminal library is not the one for wide characters"""
    return t.encode("utf-8", "surrogatepass").decode("latin-1")


def tree(node):
    """(root, all items in document order)"""
    out = []

    def rec(n, parent):
        k = n[0]
        text = None
        if k == "s":
            text = raw(gen.stored(n[1]))
        elif k == "n":
            text = n[1]
        elif k == "b":
            text = "true" if n[1] else "false"
        elif k == "z":
            text = "null"
        e = El(k, parent, text, n)
        e.n = len(out)
        out.append(e)
        if k == "a":
            e.kids = [rec(x, e) for x in n[1]]
        elif k == "o":
            for key, x in n[1]:
                ent = El("e", e, raw(gen.stored(key)), x)
                ent.n = len(out)
                out.append(ent)
                ent.value = rec(x, ent)
                e.kids.append(ent)
        return e
    return rec(node, None), out


class Line:
    __slots__ = ("indent", "segs", "owner", "found", "first", "str")

    def __init__(self, indent, segs, owner, found, first):
        # owner: the selectable item highlighting it; found: the item whose being found colours it; first: is it where owner starts
        self.indent, self.segs, self.owner, self.found, self.first = indent, segs, owner, found, first
        self.str = "".join(t for t, _ in segs)

    def text(self):
        return self.str


def lines(root, collapsed, inner=2):
    return _lines(root, frozenset(collapsed), inner)


@functools.lru_cache(32)
def _lines(root, collapsed, inner):
    """inner: how far a container held by an entry stands from its key"""
    out = []

    def box(e, ind, owner, first):
        op, cl = "[]" if e.kind == "a" else "{}"
        if e in collapsed:
            out.append(Line(ind, [(op + " ... " + cl, 0)], owner, e, first))
            return
        out.append(Line(ind, [(op, 0)], owner, e, first))
        for k in e.kids:
            item(k, ind + 4)
        out.append(Line(ind, [(cl, 0)], owner, e, False))

    def item(e, ind):
        if e.kind in "ao":
            box(e, ind, e, True)
        elif e.kind == "e":
            v = e.value
            key = [(e.text, OBJKEY), (": ", 0)]
            if v.kind not in "ao":
                out.append(Line(ind, key + [(v.text, COLOR[v.kind])], e, e, True))
            elif v in collapsed or not v.kids:
                op, cl = "[]" if v.kind == "a" else "{}"
                out.append(Line(ind, key + [(op + (" ... " if v in collapsed else " ") + cl, 0)], e, e, True))
            else:
                out.append(Line(ind, key, e, e, True))
                box(v, ind + inner, e, False)
        else:
            out.append(Line(ind, [(e.text, COLOR[e.kind])], e, e, True))
    item(root, 0)
    return out


def nrows(ln, w):
    return max(1, -(-(ln.indent % w + len(ln.str)) // w))


def selectables(root, collapsed):
    return _selectables(root, frozenset(collapsed))


@functools.lru_cache(32)
def _selectables(root, collapsed):
    """selectable items that are not inside of a collapsed one, in document order"""
    out = []

    def rec(e):
        out.append(e)
        b = e.body()
        if b not in collapsed:
            for k in b.kids:
                rec(k)
    rec(root)
    return out


def paint(lns, w, h, s, sel, found=(), color=True, width=None):
    """rows 1..h-1: (chars, attributes)"""
    chars, attrs = [], []
    for i in range(s, len(lns)):
        if len(chars) >= h - 1:
            break
        ln = lns[i]
        c = " " * (ln.indent % w) + ln.text()
        a = [0] * (ln.indent % w)
        hi = 0x80 if ln.owner is sel else 0
        for t, col in ln.segs:
            if ln.found in found:
                col = SEARCH
            a += [hi | (col if color or col == SEARCH else 0)] * len(t)
        n = nrows(ln, w)
        c = c.ljust(n * w)
        a += [0] * (n * w - len(a))
        for i in range(n):
            chars.append(c[i * w:(i + 1) * w])
            attrs.append(a[i * w:(i + 1) * w])
    while len(chars) < h - 1:
        chars.append(" " * w)
        attrs.append([0] * w)
    return chars[:h - 1], attrs[:h - 1]


class State:
    def __init__(self, root, name, w, h):
        self.root, self.name, self.w, self.h = root, name, w, h
        self.sel, self.collapsed, self.s = root, frozenset(), 0
        self.found, self.msg = [], None
        self.typed = None       # text of the search being typed
        self.over = False       # the session of this input is over
        self.prefix = False     # ^W was typed
        self.ascii = False      # escapes are not decoded

    def copy(self, **kw):
        o = State.__new__(State)
        o.__dict__.update(self.__dict__)
        o.__dict__.update(kw)
        return o

    def lines(self):
        return lines(self.root, self.collapsed)

    def top(self):
        """index of the first line of the selection"""
        return first_line(self.root, self.collapsed, self.sel)

    def row(self, i, s=None):
        """screen row at which line i starts (0 and below: above the screen)"""
        s = self.s if s is None else s
        lns = self.lines()
        if i < s:
            return i - s + 1 if i - s + 1 <= 0 else 0
        return 1 + sum(nrows(x, self.w) for x in lns[s:i])

    def settle(self):
        """scrolls when, and only when, the selection is not on the screen"""
        i = self.top()
        lns = self.lines()
        s = self.s
        if i < s:
            s = i
        else:
            y = 1 + sum(nrows(x, self.w) for x in lns[s:i])
            while y > self.h - 1 and s < i:
                y -= nrows(lns[s], self.w)
                s += 1
        self.s = s
        return self

    def shows_end(self):
        lns = self.lines()
        y = 1
        for i in range(self.s, len(lns)):
            y += nrows(lns[i], self.w)
            if y > self.h - 1:
                return False
        return y <= self.h - 1


@functools.lru_cache(32)
def starts(root, collapsed):
    """index of the line at which every selectable item starts"""
    out = {}
    for i, ln in enumerate(lines(root, collapsed)):
        if ln.first:
            out.setdefault(ln.owner, i)
    return out


def first_line(root, collapsed, sel):
    at = starts(root, collapsed)
    if sel not in at:
        raise AssertionError("the selection is not visible in the model")
    return at[sel]


def moved(st, sel):
    return st.copy(sel=sel, msg=None).settle()


BOTTOM, NOTHING = "Search hit BOTTOM, continuing at TOP", "Pattern not found"


# regular expressions that surely mean the same for std::regex and Python; c14 makes its own ones
TRUST_REGEX = False
PLAIN = re.compile(r"[A-Za-z0-9 _.,:;\"'~<>=!@#%&-]*")


class Pattern:
    """text/flags: i letter case ignored, w words, f whole text, e regular expression; b n s o restrict to a type"""
    TYPES = {"b": "b", "n": "n", "s": "s", "o": "e"}

    def __init__(self, typed, ascii_mode=False):
        s = typed if ascii_mode else extract(typed)
        s = s.lstrip(" \t")
        out, flags, i = [], "", 0
        while i < len(s):
            if s[i] == "\\":
                if i + 1 < len(s):
                    out.append("/" if s[i + 1] == "/" else s[i:i + 2])
                i += 2
                continue
            if s[i] == "/":
                flags = s[i + 1:]
                break
            out.append(s[i])
            i += 1
        self.text = "".join(out)
        self.i, self.w, self.f, self.e = ("i" in flags), ("w" in flags), ("f" in flags), ("e" in flags)
        self.type = None
        for c in flags:
            self.type = self.TYPES.get(c, self.type)
        self.re = None
        if self.e:
            if not (TRUST_REGEX or PLAIN.fullmatch(self.text)):
                raise Skip()
            try:
                self.re = re.compile(self.text, re.ASCII | (re.I if self.i else 0))
            except re.error:
                pass

    def empty(self):
        return not self.text

    def match(self, e):
        if self.type and e.kind != self.type:
            return False
        t, p = e.text, self.text
        if self.e:
            return bool(self.re and self.re.search(t))
        if self.i:
            t, p = lower(t), lower(p)
        if self.f:
            return t == p
        if self.w:
            return " " + p + " " in " " + t + " "
        return p in t


def lower(s):
    return "".join(chr(ord(c) + 32) if "A" <= c <= "Z" else c for c in s)


def extract(s):
    """unicode escapes of printable characters"""
    return re.sub(r"\\(?:u([0-9a-fA-F]{4})|(.))", lambda m: (raw(chr(int(m.group(1), 16))) if int(m.group(1), 16) != 92 else "\\\\") if m.group(1) else m.group(0), s)


def matches(root, pat):
    """found items, in document order: values, and entries for their key or value"""
    out = []

    def rec(e):
        if e.kind in "ao":
            for k in e.kids:
                rec(k)
        elif e.kind == "e":
            v = e.value
            if pat.match(e) or (v.kind not in "ao" and pat.match(v)):
                out.append(e)
            if v.kind in "ao":
                rec(v)
        elif pat.match(e):
            out.append(e)
    rec(root)
    return out


def ancestors(e):
    p = e.parent
    while p is not None:
        yield p
        p = p.parent


def to_next(st):
    """goes on to the next found item"""
    if not st.found:
        return st.copy(msg=NOTHING).settle()
    later = [e for e in st.found if e.n > st.sel.n]
    sel = (later or st.found)[0]
    return st.copy(sel=sel, collapsed=st.collapsed - set(ancestors(sel)), msg=None if later else BOTTOM).settle()


def end_search(st):
    pat = Pattern(st.typed, st.ascii)
    st = st.copy(typed=None, msg=None)
    if pat.empty():
        return st.copy(found=[]).settle()
    return to_next(st.copy(found=matches(st.root, pat)))


PREFIX = ("^W", "esc", "enter", "^X")


def step(st, key):
    """all states allowed after a key; st itself when it has no effect"""
    if isinstance(key, (tuple, list)):
        if len(key) > 2 and (st.w, st.h) == tuple(key[:2]):
            return [st]
        # the message of the last search does not survive
        return [st.copy(w=key[0], h=key[1], msg=None).settle()]
    if key in ("sigint", "sigterm"):
        return [st.copy(over=True)]
    if key in ("timeout", "sigcont"):
        return [st]
    if st.typed is not None:
        if key == "enter":
            return [end_search(st)]
        if key == "esc":
            return [st.copy(typed=None, msg=None)]
        if key == "backspace":
            return [st.copy(typed=st.typed[:-1])]
        if len(key) == 1:
            return [st.copy(typed=st.typed + key)]
        if key in PREFIX:
            raise Skip()
        return [st]
    if st.prefix:
        return [st if key in PREFIX else st.copy(prefix=False)]
    if key in PREFIX:
        return [st.copy(prefix=True)]
    if key in ("q", "Q"):
        return [st.copy(over=True)]
    if key == "/":
        return [st.copy(typed="")]
    if key in ("n", "N"):
        return [to_next(st)]
    vis = None
    if key in ("up", "k", "K", "down", "j", "J"):
        vis = selectables(st.root, st.collapsed)
        at = vis.index(st.sel)
    if key in ("up", "k", "K"):
        return [moved(st, vis[max(at - 1, 0)])]
    if key in ("down", "j", "J"):
        out = []
        nxt = vis[at + 1] if at + 1 < len(vis) else None
        if nxt is None:
            out.append(st)                      # no effect
            out.append(st.copy(msg=None))
        else:
            out.append(moved(st, nxt))
            n = first_line(st.root, st.collapsed, nxt)
        top = st.top()
        if st.s < top and not st.shows_end() and (nxt is None or st.row(n) > st.h - 1):
            for s in range(st.s + 1, top + 1):
                out.append(st.copy(s=s, msg=None).settle())
        return out
    if key == "pgup":
        p = st.sel.prev() or st.sel.holder()
        return [moved(st, p)] if p else [st]
    if key == "pgdn":
        n = st.sel.next()
        return [moved(st, n)] if n else [st]
    b = st.sel.body()
    if key in ("right", "l", "L"):
        if b in st.collapsed:
            return [st.copy(collapsed=st.collapsed - {b}, msg=None).settle()]
        if not b.kids:
            return [st]
        return [moved(st, b.kids[0])]
    if key in ("left", "h", "H"):
        up = st.sel.holder()
        if b.kind in "ao" and b.kids and b not in st.collapsed:
            return [st.copy(collapsed=st.collapsed | {b}, msg=None).settle()]
        if up:
            return [moved(st, up)]
        # the whole document, not to be collapsed (any further)
        out = [st.copy(msg=None).settle(), st]
        if b.kind in "ao":
            out.append(st.copy(collapsed=st.collapsed | {b}, msg=None).settle())
        return out
    return [st]


def code(key):
    """what the keyboard sends"""
    if isinstance(key, (tuple, list)):
        return resize(*key)
    if isinstance(key, int):
        return key
    named = {"down": KEY["down"], "up": KEY["up"], "left": KEY["left"], "right": KEY["right"], "pgup": KEY["ppage"], "pgdn": KEY["npage"], "^W": 23,
             "timeout": -1, "sigint": KEY["sigint"], "sigterm": KEY["sigterm"], "sigcont": KEY["sigcont"], "enter": 10, "^X": 24, "esc": 27, "backspace": KEY["backspace"]}
    return named[key] if key in named else ord(key)


def mismatch(st, shot, mask=0x80, title=ACTIVE, color=True):
    """None when the screen is the one of this state"""
    w, h = st.w, st.h
    if (shot.w, shot.h) != (w, h):
        return "the screen is %dx%d instead of %dx%d" % (shot.w, shot.h, w, h)
    name = st.name[:w].ljust(w)
    if h > 1 and shot.row(0) != name:
        return "the title is %r instead of %r" % (shot.row(0).rstrip(), name.rstrip())
    chars, attrs = paint(st.lines(), w, h, st.s, st.sel, st.found, color)
    bottom, bcol = None, 0
    if st.typed is not None:
        bottom, bcol = "/" + st.typed, SEARCH
    elif st.msg:
        bottom, bcol = st.msg, ERROR
    for i in range(h - 1):
        y = i + 1
        c, a = chars[i], attrs[i]
        if y == h - 1 and bottom is not None:
            c, a = bottom[:w].ljust(w), [bcol if color else 0] * w
        if shot.row(y) != c:
            return "row %d is %r instead of %r" % (y, shot.row(y).rstrip(), c.rstrip())
        got = [x & mask for x in shot.rattr(y)]
        exp = [x & mask for x in a]
        if got != exp:
            x = [p != q for p, q in zip(got, exp)].index(True)
            return "row %d %r, column %d: highlight/colour is %#x instead of %#x" % (y, c.rstrip(), x, got[x], exp[x])
    if mask & 0x7f:
        exp = (title if color else 0) & mask
        if any((x & mask) != exp for x in shot.rattr(0)):
            return "the title has colours %s" % sorted(set(shot.rattr(0)))
    return None


def start(doc, name, size, keep=False):
    root, items = tree(gen.ordered(doc, keep))
    return State(root, name, *size), items


def follow(states, shot, history, doc, mask=0x80, color=True):
    """the states that the screen allows"""
    bad = [mismatch(s, shot, mask, color=color) for s in states]
    ok = [s for s, b in zip(states, bad) if b is None]
    if not ok:
        s = states[0]
        fail("screen does not show the document: %s" % bad[0] if len(states) == 1 else "screen is none of the %d possible ones; the first: %s" % (len(states), bad[0]),
             document=doc, size="%dx%d" % (s.w, s.h), keys=history, expected_selection=s.sel.label(), screen="\n" + str(shot))
    seen, out = set(), []
    for s in ok:
        k = (s.sel.n, s.collapsed, s.s, s.msg)
        if k not in seen:
            seen.add(k)
            out.append(s)
    return out


def session(ctx, doc, size, keys, opts=(), mask=0x80, color=True, keep=False):
    """runs one document and a list of keys, following every screen; returns (states after every key, result)"""
    text = gen.compact(doc)
    keys = list(keys)
    if typing(keys):
        keys.append("esc")
    path = ctx.file("in.json", text)
    r = ctx.stroll.tui(list(opts) + (["--keep-order"] if keep else []) + [path], [code(k) for k in keys], size=size)
    check_end(r, text, keys)
    if len(r.shots) < len(keys) + 1:
        fail("the viewer ends before all keys are typed", document=text, keys=keys)
    st, _ = start(doc, path, size, keep)
    st.ascii = "--ascii" in opts
    states = follow([st.settle()], r.shots[0], [], text, mask, color)
    trace = [states]
    for i, k in enumerate(keys):
        nxt = [x for s in states for x in step(s, k)]
        states = follow(nxt, r.shots[i + 1], keys[:i + 1], text, mask, color)
        trace.append(states)
    return trace, r


def typing(keys):
    """is a search being typed after those keys?"""
    t, prefix = False, False
    for k in keys:
        if isinstance(k, (tuple, list)) or k in ("timeout", "sigcont"):
            continue
        if t:
            t = k not in ("enter", "esc", "sigint", "sigterm")
        elif prefix:
            prefix = k in PREFIX
        elif k in PREFIX:
            prefix = True
        else:
            t = k == "/"
    return t


def check_end(r, text, keys):
    if r.outcome != "ret:0":
        fail("program ends with %s" % r.outcome, document=text, keys=keys, stderr=r.err)
    if r.err:
        fail("unexpected message", document=text, keys=keys, stderr=r.err)


# ------------------------------------------------------------------ generators
def width_for(doc, w):
    """for a quarter of the documents, w; otherwise the smallest width not below w where every line starts on its first row"""
    if zlib.crc32(repr(doc).encode()) % 4 == 0:
        return w
    need = 8

    def rec(n, ind):
        nonlocal need
        need = max(need, ind + 8)
        if n[0] == "a":
            for x in n[1]:
                rec(x, ind + 4)
        elif n[0] == "o":
            for k, x in n[1]:
                need = max(need, ind + 5)
                if x[0] in "ao":
                    rec(x, ind + 6)
    rec(doc, 0)
    return max(w, need)


NAV = ["down", "down", "down", "j", "up", "k", "left", "h", "right", "l", "pgup", "pgdn", "down", "up", "J", "K", "H", "L"]


from hypothesis import strategies as st      # noqa: E402

WORDS = ["a", "b", "ab", "", "key", "true", "hello world", "The quick brown fox jumps over the lazy dog", "x" * 30, "[", "{ }", "{ ... }", ": ", "a b c d", "\\", '"q"', "/", "1", "null", "Z9~", "  two spaces",
         "\u00e9", "n\u00e1 \u00f1", "\u4e2d\u5b63" * 7, "\u00fc" * 19 + "ber"]     # no byte of them is a control character of Latin-1


def word(most=40):
    return st.one_of(st.sampled_from(WORDS), st.sampled_from(WORDS), st.text(alphabet=st.characters(min_codepoint=32, max_codepoint=126), max_size=most))


def leaf():
    return st.one_of(word().map(lambda s: ["s", s]), st.integers(-5, 99).map(lambda n: ["n", str(n)]), st.sampled_from(["1.5", "-0.25", "12.5", "100.0", "123456789012"]).map(lambda n: ["n", n]),
                     st.booleans().map(lambda b: ["b", b]), st.just(["z"]))


def docs(max_leaves=14, max_items=5):
    key = st.one_of(st.sampled_from(["a", "b", "c", "key", "", "long key", "d", "a key that is longer", "x" * 33, "several words " * 5, "\u00e9t\u00e9", "cl\u00e9 " * 9]), st.text(alphabet=st.characters(min_codepoint=32, max_codepoint=126), max_size=8),
                    st.tuples(st.sampled_from("kz"), st.sampled_from(range(6, 90))).map(lambda x: x[0] * x[1]))

    def holders(kids, least=0):
        return st.one_of(st.lists(kids, min_size=least, max_size=max_items).map(lambda l: ["a", l]),
                         st.lists(st.tuples(key, kids), min_size=least, max_size=max_items, unique_by=lambda kv: gen.stored(kv[0])).map(lambda l: ["o", [list(kv) for kv in l]]))
    inner = st.recursive(leaf(), holders, max_leaves=max_leaves)
    return st.one_of(*[holders(inner, n) for n in (3, 3, 4, 4, 3, 2, 2, 1)], inner)


SIZE = st.tuples(st.sampled_from([10, 20, 24, 31, 40, 80]), st.sampled_from([3, 4, 5, 6, 7, 8, 10, 12, 24, 2])).map(list)


def keys(most, pool=NAV, extra=(), least=0):
    """runs of keys, so that long ways are walked"""
    run = st.tuples(st.sampled_from(pool), st.sampled_from([1, 1, 1, 2, 3, 5, 8])).map(lambda t: [t[0]] * t[1])
    one = [run] + [e.map(lambda k: [k]) for e in extra]
    return st.lists(st.one_of(*one), min_size=least, max_size=most).map(lambda l: [k for r in l for k in r])


def texts(doc):
    """what can be searched"""
    return [e.text for e in tree(doc)[1] if e.text is not None]


@st.composite
def literal(draw, doc):
    """text to search, most often some of the document, spelt for the search prompt"""
    all_ = texts(doc) or ["a"]
    how = draw(st.integers(0, 9))
    t = draw(st.sampled_from(all_)) if how else raw(draw(word(4)))
    if how in (1, 2, 6, 7) and t:
        i = draw(st.integers(0, len(t) - 1))
        t = t[i:i + draw(st.sampled_from([1, 1, 1, 2, 3]))]
    elif how in (3, 4):
        t = t[:draw(st.integers(1, 2))]
    elif how == 5:
        t = t[-2:]
    return t


def spelt(t):
    """no slash ends it, no escape is decoded; what it stands for may not be exactly this text"""
    return t.replace("/", "\\/")


@st.composite
def phrase(draw, doc, flags=("", "", "", "", "/i", "/o", "/s", "/")):
    """the keys of a search"""
    t = spelt(draw(literal(doc))) + draw(st.sampled_from(flags))
    return ["/"] + list(t) + ["enter"]


@st.composite
def search_keys(draw, doc, most, pool=NAV, flags=("", "", "", "", "/i", "/o", "/s", "/"), extra=(), first=True):
    """runs of moves, searches and nexts"""
    out = []
    for i in range(draw(st.integers(2, most))):
        k = draw(st.integers(0, 5))
        if k == 0 or (first and i == 0):
            out += draw(phrase(doc, flags))
        elif k in (1, 2):
            out += ["n"] * draw(st.sampled_from([1, 1, 2, 3, 6]))
        elif extra and k == 3:
            out += draw(st.sampled_from(extra))
        else:
            out += [draw(st.sampled_from(pool))] * draw(st.sampled_from([1, 1, 2, 4]))
    return out


@st.composite
def far_doc(draw, most=1025):
    """documents much larger than the screen, with some texts called 'needle N' in them"""
    # the program takes a time that is quadratic in the number of lines to get to one of them
    kind = draw(st.sampled_from(["list", "list", "object", "boxes", "text", "key", "deep"]))
    fill = draw(st.lists(st.one_of(leaf(), st.just(["a", []]), st.just(["o", [["k", ["z"]], ["l", ["a", [["n", "1"]]]]]])), min_size=1, max_size=4))
    n = draw(st.one_of(st.sampled_from([62, 63, 64, 126, 127, 128, 129, 254, 255, 256, 257, 258, 511, 513]), st.integers(40, 400), st.sampled_from([100, 200, 300, 400, 500, 1000, 1025])).filter(lambda n: n <= most))
    needles = [["s", "needle %d" % i] for i in range(draw(st.integers(1, 4)))]
    if kind == "deep":
        doc = ["a", needles + fill]
        for i in range(draw(st.integers(8, 45))):
            doc = ["a", [doc] + fill[:i % 2]] if i % 3 else ["o", [["d", doc], ["e", fill[0]]]]
        return doc
    if kind == "text":
        doc = ["a", fill + [["s", ("lorem ipsum " * n)[:n * 8]]] + needles + [["s", "x" * n]] + fill]
        return doc if draw(st.booleans()) else ["o", [["k%d" % i, x] for i, x in enumerate(doc[1])]]
    if kind == "key":
        return ["o", [["a" * n + str(i), x] for i, x in enumerate(fill + needles)] + [["b" * n * 3, ["a", list(needles[:1])]], ["c", ["a", fill]]]]
    if kind == "boxes":
        m = draw(st.integers(3, 30))
        items = [["a", [fill[(i + j) % len(fill)] for j in range(n // m)]] for i in range(m)]
        for i, x in enumerate(needles):
            box = items[draw(st.integers(0, m - 1))][1]
            box.insert(draw(st.integers(0, len(box))), x)
    else:
        n = n * len(fill) // sum(map(gen.size, fill))
        items = (fill * n)[:n]
        for x in needles:
            items.insert(draw(st.integers(0, len(items))), x)
    return ["a", items] if kind != "object" else ["o", [["%05d" % i, x] for i, x in enumerate(items)]]


# the screens are handed over entirely: not both wide and high
FAR_SIZE = st.one_of(st.tuples(st.sampled_from([24, 40, 80, 132]), st.sampled_from([4, 6, 10, 24, 50, 100, 300])), st.tuples(st.sampled_from([150, 200, 258, 300, 520]), st.sampled_from([4, 6, 10, 24, 40]))).map(list)


@st.composite
def far_case(draw, tier, pool=NAV, extra=(), searches=True):
    return {"doc": draw(far_doc()), "size": draw(FAR_SIZE), "keep": draw(st.booleans()), "keys": draw(far_keys(pool, extra, searches))}


@st.composite
def far_keys(draw, pool=NAV, extra=(), searches=True):
    start = [["down"] * 100, ["right"] + ["pgdn"] * 70 + ["right"], []]
    if searches:
        start += [["/"] + list("needle") + ["enter"], ["down", "/"] + list("needle") + ["enter", "n"]]
    keys_ = list(draw(st.sampled_from(start)))
    for _ in range(draw(st.integers(3, 9))):
        how = draw(st.sampled_from(("ss" if searches else "") + "kkk" + ("x" if extra else "")))
        if how == "x":
            keys_ += draw(st.sampled_from(extra))
        elif how == "s":
            keys_ += draw(st.sampled_from([["/"] + list(t) + ["enter"] for t in ("needle", "needle 1", "eedle/i", "needle 0/f", "no such text")] + [["n"], ["n"] * 5]))
        else:
            keys_ += [draw(st.sampled_from(pool))] * draw(st.sampled_from([1, 2, 5, 20, 60, 130, 280] if draw(st.booleans()) else [1, 1, 2, 3]))
    return keys_


def far(ctx, c):
    """every screen must be the one the model predicts"""
    w, h = c["size"]
    trace, r = session(ctx, c["doc"], (width_for(c["doc"], w), h), c["keys"], mask=0xff, keep=c["keep"])
    out = {"!"} if len({s.sel.n for t in trace for s in t}) > 3 else {"few selections"}
    most = max(s.s for t in trace for s in t)
    return out | {"scrolled > %d" % x for x in (63, 255, 1000) if most > x} | ({"several possible"} if any(len(t) > 1 for t in trace) else set())
