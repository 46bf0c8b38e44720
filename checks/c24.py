from hypothesis import strategies as st

from common import fail
from core import Part

ID = "C24"
TARGETS = ("libworker",)
RULE = ("random pairs and triples of byte strings (related by edits or not; alphabets of 1, 2, 4 and 256 characters; 0-40 bytes, part 'long' up to 700); oracle: independent dynamic programme over two rows, ratio recomputed in double precision, metric laws. "
        "Non-trivial: both texts non-empty and different.")


def reference(a, b):
    row = list(range(len(b) + 1))
    for i, x in enumerate(a, 1):
        prev, row[0] = row[0], i
        for j, y in enumerate(b, 1):
            prev, row[j] = row[j], min(row[j] + 1, row[j - 1] + 1, prev + (x != y))
    return row[-1]


def apply(s, ops):
    s = list(s)
    for kind, i, ch in ops:
        if kind == 0:
            s.insert(i % (len(s) + 1), ch)
        elif s and kind == 1:
            del s[i % len(s)]
        elif s:
            s[i % len(s)] = ch
    return s


@st.composite
def pair(draw, most):
    alpha = draw(st.sampled_from([[97], [97, 98], [97, 98, 99, 32], list(range(256))]))
    ch = st.sampled_from(alpha)
    if most > 100:
        base = draw(st.lists(ch, min_size=1, max_size=40))
        a = (base * 60)[:draw(st.integers(0, most))]
    else:
        a = draw(st.lists(ch, max_size=most))
    if draw(st.booleans()):
        b = apply(a, draw(st.lists(st.tuples(st.integers(0, 2), st.integers(0, 999), ch), max_size=6)))
    else:
        b = draw(st.lists(ch, max_size=min(most, 60)))
    return [list(a), list(b)]


def ask(ctx, *pairs):
    f = ctx.lib.ask("lev", *[bytes(x) for p in pairs for x in p])[1:]
    return [(int(f[i]), float.fromhex(f[i + 1].decode())) for i in range(0, len(f), 2)]


def check(ctx, c):
    a, b = c
    (d, p), (back, pback), (da, pa) = ask(ctx, (a, b), (b, a), (a, a))
    want = reference(a, b)
    if d != want:
        fail("distance is %d, expected %d" % (d, want), a=bytes(a), b=bytes(b))
    if back != d or abs(pback - p) > 1e-6:
        fail("not symmetric: %d and %d, %g and %g" % (d, back, p, pback), a=bytes(a), b=bytes(b))
    if da != 0 or pa != 1:
        fail("a text is at distance %d (ratio %g) of itself" % (da, pa), a=bytes(a))
    ratio = 1 - want / max(len(a), len(b)) if a or b else 1
    if not abs(p - ratio) < 1e-5:
        fail("ratio is %g, expected %g" % (p, ratio), a=bytes(a), b=bytes(b))
    return {"!" if a and b and a != b else "trivial", "distance>9" if d > 9 else "distance<=9"}


PARTS = [Part("short", lambda t: pair(40), check, 24000), Part("long", lambda t: pair(700), check, 250, 4000)]
