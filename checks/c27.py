from hypothesis import strategies as st

import gen
from common import any_doc, enc, fail
from core import Part

ID = "C27"
TARGETS = ("libworker",)
RULE = ("random documents in random spellings, entries sorted or not; every accessor of every item (kind, parent, level, previous and next sibling, size, first child, value, text) and every lookup of present and absent keys is compared with the reference document. "
        "Non-trivial: at least 3 items.")


def case(tier):
    return st.fixed_dictionaries({"doc": st.one_of(any_doc(tier), gen.small_doc(20)), "style": gen.styles, "sort": st.booleans(), "absent": st.lists(gen.text(4), max_size=3)})


def check(ctx, c):
    text = gen.spell(c["doc"], gen.Style(c["style"]))
    doc = gen.ordered(c["doc"], not c["sort"])
    want = gen.items(doc)
    keys = []
    for k, p, key, n in want:
        if k == "e" and key not in keys and len(keys) < 12:
            keys.append(key)
    absent = [k for k in c["absent"] if k not in keys]
    probes = keys + absent
    f = ctx.lib.ask("tree", enc(text), int(c["sort"]), *[enc(gen.stored(k)) for k in probes])
    if f[0] != b"ok":
        fail("document is not read: %s" % f[0].decode(errors="replace"), document=text)
    if int(f[1]) != len(want):
        fail("tree has %d items instead of %d" % (int(f[1]), len(want)), document=text)

    def bad(i, what, got, exp):
        fail("item %d (%s) %s: %s, expected %s" % (i, want[i][0], what, got, exp), document=text)
    # reference relations
    kids = {}
    for i, (k, p, _, _) in enumerate(want):
        kids.setdefault(p, []).append(i)

    def after(i):
        while i >= 0:
            p = want[i][1]
            sib = kids[p]
            if p >= 0 and want[p][0] != "e" and sib.index(i) + 1 < len(sib):
                return sib[sib.index(i) + 1]
            i = p
        return -1
    for i, (k, p, key, n) in enumerate(want):
        nums = f[2 + 2 * i].decode().split()
        shown = f[3 + 2 * i].decode("utf-8", "surrogateescape")
        kind, vals = nums[0], [int(x) for x in nums[1:]]
        parent, level, prev, nxt, size, first, value, length = vals[:8]
        if kind != k:
            bad(i, "kind", kind, k)
        if parent != p:
            bad(i, "parent", parent, p)
        lv, j = 0, i
        while j >= 0:
            lv, j = lv + 1, want[j][1]
        if level != lv:
            bad(i, "level", level, lv)
        sib = kids[p]
        at = sib.index(i)
        if prev != (sib[at - 1] if at and want[p][0] in "ao" else -1):
            bad(i, "previous", prev, sib[at - 1] if at else -1)
        if nxt != after(i):
            bad(i, "next", nxt, after(i))
        mine = kids.get(i, [])
        if k in "ao":
            if size != len(mine):
                bad(i, "size", size, len(mine))
            exp = -1 if not mine else mine[0] if k == "a" else mine[0] + 1
            if first != exp:
                bad(i, "first child", first, exp)
        if k == "e" and value != i + 1:
            bad(i, "value", value, i + 1)
        exp = key if k == "e" else n[1] if k == "s" else None
        if exp is not None and shown != gen.stored(exp):
            bad(i, "text", repr(shown), repr(gen.stored(exp)))
        if k in "ndbz" and not gen.match_scalar(n, shown):
            bad(i, "text", repr(shown), n)
        if k in "ao" and shown != ("[ ]" if k == "a" else "{ }"):
            bad(i, "text", repr(shown), "brackets")
        if shown.isascii() and "\0" not in shown and length != len(shown):
            bad(i, "length", length, len(shown))
        if k == "o":
            have = {want[e][2]: e for e in mine}
            for q, probe in enumerate(probes):
                there, got, it = vals[8 + 3 * q:11 + 3 * q]
                e = have.get(probe)
                exp = [0, -1, -1] if e is None else [1, e + 1, e]
                if [there, got, it] != exp:
                    bad(i, "lookup of key %r" % probe, [there, got, it], exp)
    kinds = {k for k, _, _, _ in want}
    return {"has " + k for k in kinds} | ({"!"} if len(want) > 2 else set()) | ({"absent key"} if absent and "o" in kinds else set())


PARTS = [Part("trees", case, check, 12000)]
