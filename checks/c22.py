import hashlib

from hypothesis import strategies as st

import gen
from core import Part
from difflib2 import Diff

ID = "C22"
TARGETS = ("libworker",)
RULE = ("pairs of random documents (5-item containers, deliberately similar texts and keys, some of up to 300 common characters; also 60-300 item arrays), the second an edited copy (insert, delete, swap, rename, replace, wrap, replace by something that looks alike) or unrelated; oracle: an item is reported unchanged exactly when its counterpart "
        "has the same kind, key and content, changed when it differs, and added or removed when there is none. Part 'single': one change in a container of clearly different values must leave every item not containing it unchanged, and so in part 'one' for lists of 60-340 items (700 in the thorough tier). Non-trivial: the documents differ.")
WORDS = ["aaaa", "bbbbbb", "cc", "dddd", "eeeee", "ffff", "gg gg", "hhhhhhhh"]
DIFFERENT = [["s", w] for w in WORDS] + [["n", n] for n in ("1", "22", "333", "4444", "5.5", "-66", "7e77")] + [["b", True], ["b", False], ["z"]]


def marks(d):
    for side, x, y in ((0, d.a, d.b), (1, d.b, d.a)):
        for i in range(len(x)):
            j = x.eq[i]
            if j < -1:
                d.fail("%s is paired with something outside of the other document" % d.name(side, i))
            if j == -1:
                if x.op[i] not in ("add", "rem", "none"):
                    d.fail("%s has no counterpart and is marked %r" % (d.name(side, i), x.op[i]))
                continue
            same = d.same(i, j) if side == 0 else d.same(j, i)
            if same and x.op[i] != "equ":
                d.fail("%s is marked %r, its counterpart %s is the same" % (d.name(side, i), x.op[i], d.name(1 - side, j)))
            if not same and x.op[i] != "mod":
                d.fail("%s is marked %r, its counterpart %s differs" % (d.name(side, i), x.op[i], d.name(1 - side, j)))


def case_pairs(tier):
    n = 30 if tier == "thorough" else 14
    return st.fixed_dictionaries({"p": st.one_of(gen.doc_pair(n), gen.doc_pair(n), gen.doc_pair(n, long=True)), "sort": st.booleans()})


def check_pairs(ctx, c):
    a, b = c["p"]
    d = Diff(ctx, a, b, c["sort"])
    marks(d)
    same = gen.same(gen.ordered(a, not c["sort"]), gen.ordered(b, not c["sort"]))
    if a[0] in "ao" and b[0] in "ao" or gen.same(a, b):
        if d.equal != same:
            d.fail("the whole comparison says %s" % ("equal" if d.equal else "different"))
    if same and any(o != "equ" for o in d.a.op + d.b.op):
        d.fail("the same documents show a difference", marks=d.a.op)
    ops = set(d.a.op + d.b.op)
    return {"has " + o for o in ops} | ({"same"} if same else {"!"}) | ({"paired and differing"} if "mod" in ops else set())


@st.composite
def single(draw, tier):
    words = draw(st.lists(st.sampled_from(DIFFERENT), min_size=3, max_size=9))
    obj = draw(st.booleans())
    keys = ["kk", "llllll", "mmm", "n", "oooo", "pp", "qqqqqqq", "r", "sssss"]
    return {"words": words, "obj": obj, "keys": draw(st.permutations(keys)), "kind": draw(st.sampled_from(["ins", "del", "set"])), "at": draw(st.integers(0, 20)), "new": draw(st.integers(0, 40)),
            "path": draw(st.lists(st.tuples(st.sampled_from("ao"), st.lists(gen.small_doc(3, 2), min_size=1, max_size=3), st.integers(0, 9)).map(list), max_size=3)), "back": draw(st.booleans())}


def check_single(ctx, c):
    def holder(vals, keys):
        return ["o", [list(x) for x in zip(keys, vals)]] if c["obj"] else ["a", list(vals)]
    vals, keys = list(c["words"]), list(c["keys"][:len(c["words"])])
    old = holder(vals, keys)
    at, kind = c["at"] % len(vals), c["kind"]
    if kind == "del":
        del vals[at], keys[at]
    elif kind == "set":
        # a value unlike any other of the list, so that only that place can have changed
        vals[at] = ["s", "zzzzzzzzzzzzzz"]
    else:
        vals.insert(at, ["s", "zzzzzzzzzzzzzz"])
        keys.insert(at, "yyyyyyyyyyyyyyyyyyyyyyy")
    new = holder(vals, keys)
    for k, others, where in c["path"]:
        def wrap(x):
            v = [gen.copy(o) for o in others]
            v.insert(where % (len(v) + 1), x)
            return ["a", v] if k == "a" else ["o", [["key%d" % i, y] for i, y in enumerate(v)]]
        old, new = wrap(old), wrap(new)
    a, b = (new, old) if c["back"] else (old, new)
    d = Diff(ctx, a, b, False)
    marks(d)

    def mods(side):
        """how many items are not unchanged"""
        return sum(o != "equ" for o in side.op)
    up = len(c["path"]) + 1 + sum(k == "o" for k, _, _ in c["path"])      # the containers around, and the entries holding them
    item = 2 if c["obj"] else 1
    more, less = (0, item) if kind == "ins" else (item, 0) if kind == "del" else (item, item)
    if c["back"]:
        more, less = less, more
    if mods(d.a) != up + more or mods(d.b) != up + less:
        d.fail("one %s in a list of different values marks %d and %d items, expected %d and %d" % (kind, mods(d.a), mods(d.b), up + more, up + less), left=d.a.op, right=d.b.op)
    return {"!", kind, "object" if c["obj"] else "array", "depth %d" % len(c["path"])}


def wide(tier):
    n = st.integers(60, 300 if tier == "thorough" else 150)
    return st.fixed_dictionaries({"n": n, "keep": n, "shift": st.integers(0, 5), "tail": st.integers(0, 300), "mod": st.integers(2, 400)})


def check_wide(ctx, c):
    """long arrays: distances beyond 127 and 255"""
    a = ["a", [["n", str(i * 1117 % 99991)] for i in range(c["n"])]]
    b = ["a", [["n", str(i * 1117 % 99991)] for i in range(c["shift"], c["n"]) if i % c["mod"] != 1] + [["s", "x" * (i % 7)] for i in range(c["tail"])]]
    d = Diff(ctx, a, b, False)
    marks(d)
    return {"!", "sum>=255" if len(a[1]) + len(b[1]) >= 255 else "sum<255"}


def one_case(tier):
    return st.fixed_dictionaries({"n": st.one_of(st.integers(60, 340 if tier == "quick" else 700), st.sampled_from([126, 127, 128, 129, 254, 255, 256, 257])), "seed": st.integers(0, 99999), "box": st.sampled_from([0, 0, 2, 3, 10]), "obj": st.booleans(),
                                  "kind": st.sampled_from(["ins", "del", "set"]), "at": st.one_of(st.integers(0, 700), st.sampled_from([0, -1])), "holder": st.booleans(), "back": st.booleans()})


def check_one(ctx, c):
    """one item of a long list of clearly different ones"""
    def text(i):
        return ["s", hashlib.md5(b"%d %d" % (c["seed"], i)).hexdigest()[:12]]

    def item(i):
        return ["a", [text(i), text(-i)]] if c["box"] and i % c["box"] == 1 else text(i)
    ids = list(range(1, c["n"] + 1))
    new = list(ids)
    at = c["at"] % len(ids) if c["at"] >= 0 else len(ids) - 1
    if c["kind"] == "del":
        del new[at]
    else:
        new[at:at + (c["kind"] == "set")] = [0]
    docs = []
    for l in (ids, new):
        d = ["o", [[text(100000 + i)[1], item(i)] for i in l]] if c["obj"] else ["a", [item(i) for i in l]]
        docs.append(["a", [["n", "1"], d, ["z"]]] if c["holder"] else d)
    if c["back"]:
        docs.reverse()
    d = Diff(ctx, docs[0], docs[1], False)
    marks(d)
    up = 1 + c["holder"]

    def size(i):
        return 1 + c["obj"] + 2 * (item(i)[0] == "a")
    for side, l, other in ((0, ids, new), (1, new, ids)):
        x = (d.a, d.b)[side != c["back"]]
        gone = [i for i in l if i not in other]
        want = up + sum(map(size, gone))
        got = sum(o != "equ" for o in x.op)
        if got != want:
            d.fail("one %s in a list of %d different items: %d marks instead of %d" % (c["kind"], c["n"], got, want))
    return {"!", c["kind"], "object" if c["obj"] else "array"} | ({"size > 127"} if c["n"] > 127 else set()) | ({"size > 255"} if c["n"] > 255 else set())


PARTS = [Part("pairs", case_pairs, check_pairs, 6000), Part("single", single, check_single, 3500), Part("wide", wide, check_wide, 80, 1500), Part("one", one_case, check_one, 120, 2500)]
