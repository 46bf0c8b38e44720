from hypothesis import strategies as st

import gen
from core import Part
from difflib2 import Diff

ID = "C23"
TARGETS = ("libworker",)
RULE = ("the document pairs of C22, and (part 'big') with lists of 63-600 items in them, facing a value, another container or such a list; oracle: structural invariants of the reported pairing (one-to-one, mutual, root with root, parents paired, siblings in order, keyed entries' values follow them) and equal distance in both directions. "
        "Non-trivial: at least three pairs and the documents differ.")


def case(tier):
    return st.fixed_dictionaries({"p": gen.doc_pair(40 if tier == "thorough" else 18), "sort": st.booleans()})


def check(ctx, c):
    a, b = c["p"]
    d = Diff(ctx, a, b, c["sort"])
    if d.dist != d.back:
        d.fail("distance is %d one way and %d the other way" % (d.dist, d.back))
    for side, x, y in ((0, d.a, d.b), (1, d.b, d.a)):
        last = {}
        for i in range(len(x)):
            j = x.eq[i]
            if j < 0:
                continue
            if y.eq[j] != i:
                d.fail("%s has counterpart %s, which has another one (%d)" % (d.name(side, i), d.name(1 - side, j), y.eq[j]))
            p, q = x.parent[i], y.parent[j]
            if (p < 0) != (q < 0) or (p >= 0 and x.eq[p] != q):
                d.fail("%s and %s are counterparts, what holds them is not" % (d.name(side, i), d.name(1 - side, j)))
            if (x.kind[i] == "e") != (y.kind[j] == "e"):
                d.fail("%s and %s are counterparts, an entry and an item" % (d.name(side, i), d.name(1 - side, j)))
            if last.get(p, -1) >= j:
                d.fail("%s comes after one whose counterpart is after its own" % d.name(side, i))
            last[p] = j
        for i in range(len(x)):
            p = x.parent[i]
            if p >= 0 and x.eq[i] < 0 and x.kind[p] == "e" and x.eq[p] >= 0:
                j = x.eq[p]
                if x.items[p][2] == y.items[j][2] and x.kind[i] == y.kind[j + 1] and x.kind[i] not in "ao":
                    d.fail("%s and %s are counterparts, not their values" % (d.name(side, p), d.name(1 - side, j)))
    n = sum(e >= 0 for e in d.a.eq)
    same = gen.same(gen.ordered(a, not c["sort"]), gen.ordered(b, not c["sort"]))
    if same and n != len(d.a):
        d.fail("the same documents are not paired entirely")
    if d.dist == 0 and a[0] in "ao" and a[0] == b[0] and len(a[1]) != len(b[1]):
        d.fail("distance 0 between containers of different sizes")
    return {"pairs>=3" if n >= 3 else "few pairs"} | ({"!"} if n >= 3 and not same else set())


def big(tier):
    most = st.sampled_from([63, 64, 127, 128, 200, 253, 254, 255, 256, 257, 300, 510, 511, 512, 600])
    return st.fixed_dictionaries({"p": gen.doc_pair(7, 4), "sort": st.booleans(), "grow": st.lists(st.tuples(st.integers(0, 1), st.integers(0, 9), most, st.integers(0, 3)).map(list), min_size=1, max_size=2)})


def check_big(ctx, c):
    """lists of hundreds of items, here and there, on one side or on both: distances beyond 255"""
    docs = [gen.copy(x) for x in c["p"]]
    spots = [[x for x in gen.walk(d) if x[0] != "o" or not x[1]] for d in docs]
    for side, i, n, step in c["grow"]:
        x = spots[side][i % len(spots[side])] if spots[side] else docs[side]
        x[:] = ["a", (x[1] if x[0] == "a" else []) + [["n", str(j * (step + 1))] for j in range(n)]]
    return check(ctx, {"p": docs, "sort": c["sort"]}) | {"items>=255" if max(len(x[1]) for d in docs for x in gen.walk(d) if x[0] in "ao") >= 255 else "fewer"}


PARTS = [Part("pairs", case, check, 9000), Part("big", big, check_big, 600, 9000)]
