from hypothesis import strategies as st

from common import fail
from core import Part

ID = "C26"
TARGETS = ("libworker",)
RULE = ("random sequences of up to 60 operations (put, put of a batch of 0 to 3 times the capacity, pop_back, reset) on buffers of 9 capacities from 1 to 45, and (put, batch, pop_back over texts with all kinds of line ends) on the line history; plus insertions of up to 131073 items at once (part 'many'); oracle: a Python deque, checked after every operation. "
        "Non-trivial: more than the capacity was put (part 'ring'), more than 255 items were put (part 'many') or a line end was read (part 'lines').")
CAPS = [1, 2, 3, 4, 5, 7, 10, 16, 45]


@st.composite
def ring(draw, tier):
    cap = draw(st.sampled_from(CAPS))
    ch = st.sampled_from("abcdefgh\n\0z")
    op = st.one_of(ch.map(lambda c: "p" + c), ch.map(lambda c: "p" + c), ch.map(lambda c: "p" + c), st.text(alphabet="ABCDEFGHijkl", max_size=min(3 * cap, 60)).map(lambda s: "P" + s), st.just("b"), st.just("b"), st.sampled_from(["b", "b", "r"]))
    return {"cap": cap, "ops": draw(st.lists(op, max_size=150 if tier == "thorough" else 60))}


def replies(f, i):
    return [int(x) for x in f[1 + 2 * i].split()], f[2 + 2 * i].decode("latin-1")


def check_ring(ctx, c):
    f = ctx.lib.ask("buf", c["cap"], *[o.encode() for o in c["ops"]])
    cap, model, total, over = c["cap"], "", 0, False
    for i, o in enumerate(c["ops"]):
        if o[0] in "pP":
            model += o[1:]
            total += len(o) - 1
            over |= total > cap
            model = model[-cap:]
        elif o == "b":
            if model:
                model = model[:-1]
                total -= 1
                if not model:
                    pass
        else:
            model, total = "", 0
        (size, tot), text = replies(f, i)
        if text != model:
            fail("buffer of %d holds %r instead of %r" % (cap, text, model), operations=c["ops"][:i + 1])
        if size != len(model):
            fail("buffer of %d says %d items instead of %d" % (cap, size, len(model)), operations=c["ops"][:i + 1])
        if tot != total:
            fail("total is %d instead of %d" % (tot, total), operations=c["ops"][:i + 1])
    return {"cap %d" % cap} | ({"!", "wrapped"} if over else set())


@st.composite
def lines(draw, tier):
    ch = st.sampled_from("abc\n\r\n\r xyz\t")
    op = st.one_of(ch.map(lambda c: "p" + c), ch.map(lambda c: "p" + c), st.text(alphabet="abcdefgh\r\n", max_size=70).map(lambda s: "P" + s), st.just("b"))
    return draw(st.lists(op, max_size=120 if tier == "thorough" else 50))


def check_lines(ctx, ops):
    f = ctx.lib.ask("hist", *[o.encode() for o in ops])
    cap = int(f[0])
    line, cur, total, pend, cr, seen = 1, "", 0, False, False, False
    for i, o in enumerate(ops):
        if o == "b":
            if pend:
                pend = cr = False
            elif cur:
                cur = cur[:-1]
                total -= 1
            # what was dropped from the front does not come back
        else:
            for ch in o[1:]:
                if pend:
                    if ch == "\n" and cr:
                        cr = False
                        continue
                    line, cur, total, pend = line + 1, "", 0, False
                cr = ch == "\r"
                if ch in "\r\n":
                    pend = seen = True
                else:
                    cur = (cur + ch)[-cap:]
                    total += 1
        (size, tot, ln), text = replies(f, i)
        if text != cur or size != len(cur) or tot != total:
            fail("history is %r (%d of %d) instead of %r (%d of %d)" % (text, size, tot, cur, len(cur), total), operations=ops[:i + 1])
        if ln != line:
            fail("line is %d instead of %d" % (ln, line), operations=ops[:i + 1])
    return {"!", "lines"} if seen else {"one line"}


@st.composite
def many(draw, tier):
    """counts instead of texts: far more items than any small counter holds"""
    cap = draw(st.sampled_from(CAPS))
    n = st.one_of(st.integers(0, 100), st.sampled_from([127, 128, 255, 256, 257, 1000, 32767, 32768, 65535, 65536, 65537, 70000, 131073]))
    return {"cap": cap, "counts": draw(st.lists(st.tuples(st.sampled_from("PPPpb"), n).map(list), min_size=1, max_size=4))}


def check_many(ctx, c):
    ops = []
    for o, n in c["counts"]:
        if o == "P":
            ops.append("P" + ("abcdefghijklmnopqrstuvwxyz" * (n // 26 + 1))[:n])
        else:
            ops += ["b" if o == "b" else "p" + "0123456789"[i % 10] for i in range(min(n, 300))]
    check_ring(ctx, {"cap": c["cap"], "ops": ops})
    n = sum(len(o) - 1 for o in ops if o[0] != "b")
    return ({"!"} if n > 255 else set()) | ({"more than 65535 items"} if n > 65535 else set())


PARTS = [Part("many", many, check_many, 1200), Part("ring", ring, check_ring, 12000), Part("lines", lines, check_lines, 9000)]
