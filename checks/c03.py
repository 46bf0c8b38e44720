from hypothesis import strategies as st

import gen
import large
from common import SOURCES, accepted, doc_labels, fail, feed
from core import Part

ID = "C03"
RULE = ("random documents whose objects have up to 9 (wide part: 60) keys, many sharing prefixes; printed by default (keys must come in byte "
        "order in every object), with --keep-order (source order), and after shuffling every object's entries (default output must "
        "not change, --keep-order output must follow); also up to 3000 keys, keys of up to 4096 characters, 1000 levels. Array order must never change. Non-trivial: an object with two keys or more.")


def keys():
    return st.one_of(st.text(alphabet="abAB_10 ~", max_size=4), gen.text(5), st.integers(0, 99).map(str))


def case(tier):
    docs = gen.stretched(gen.node(gen.word(3), keys(), simple_numbers=True, max_leaves=30, max_items=9), st.just(["z"]), 40)
    return st.fixed_dictionaries({"doc": docs,
                                  "style": gen.styles, "src": st.sampled_from(SOURCES), "perm": st.lists(st.integers(0, 40), max_size=12),
                                  "compress": st.booleans()})


def shuffle(n, sty):
    if n[0] == "a":
        return ["a", [shuffle(x, sty) for x in n[1]]]
    if n[0] == "o":
        rest, out = list(n[1]), []
        while rest:
            k, v = rest.pop(sty.pick(len(rest)))
            out.append([k, shuffle(v, sty)])
        return ["o", out]
    return n


def compare(doc, keep, out, text):
    try:
        got = gen.parse_output(out)
    except ValueError as e:
        fail("printed text is not JSON: %s" % e, input=text, stdout=out)
    d = gen.same_doc(gen.ordered(doc, keep), got)
    if d:
        fail("%s output differs at %s" % ("--keep-order" if keep else "sorted", d), input=text, stdout=out)


def check(ctx, c):
    doc = c["doc"]
    text = gen.spell(doc, gen.Style(c["style"]))
    opt = ["--compress"] if c["compress"] else []
    a = accepted(feed(ctx, text, c["src"], opt))
    compare(doc, False, a, text)
    compare(doc, True, accepted(feed(ctx, text, c["src"], opt + ["--keep-order"])), text)
    other = shuffle(doc, gen.Style(c["perm"] or [1, 3, 2]))
    otext = gen.compact(other)
    b = accepted(feed(ctx, otext, "stdin", opt))
    if a != b:
        fail("order of the entries in the source changes the sorted output", first=text, second=otext, stdout1=a, stdout2=b)
    compare(other, True, accepted(feed(ctx, otext, "stdin", ["--keep-order"] + opt)), otext)
    l = doc_labels(doc) - {"!"}
    return l | ({"!"} if "multi-key object" in l else set())


def wide_case(tier):
    names = st.lists(st.one_of(st.integers(0, 150).map(str), st.text(alphabet="ab", max_size=6), gen.text(3)), min_size=10,
                     max_size=200 if tier == "thorough" else 60, unique=True)
    pre = st.one_of(st.just(0), st.integers(0, 300)).map(lambda n: ("shared " * 50)[:n])
    return st.builds(lambda p, l: [p + k for k in l], pre, names)


def wide(ctx, ks):
    doc = ["o", [[k, ["n", str(i)]] for i, k in enumerate(ks)]]
    text = gen.compact(doc)
    compare(doc, False, accepted(feed(ctx, text, "stdin", ["--compress"])), text)
    compare(doc, True, accepted(feed(ctx, text, "stdin", ["--compress", "--keep-order"])), text)
    return {"!"}


def large_case(tier):
    return st.fixed_dictionaries({"n": large.sizes(12), "of": st.sampled_from(["count", "length", "prefix", "depth"]), "mul": st.sampled_from([7, 31, 7919]), "vals": st.integers(0, 3), "compress": st.booleans()})


def large_keys(ctx, c):
    """many keys, long keys, keys sharing a long prefix, objects deep inside"""
    n = c["n"]
    names = ["%d" % (i * c["mul"] % 10007) for i in range(min(n, 3000) if c["of"] == "count" else 7)]
    names = list(dict.fromkeys(names))
    if c["of"] == "length":
        names = [k * n for k in names]
    elif c["of"] == "prefix":
        names = ["k" * n + k for k in names]
    vals = [["n", "1"], ["a", []], ["s", "x" * 60], ["o", [["z", ["z"]], ["a", ["z"]]]]]
    doc = ["o", [[k, vals[c["vals"]]] for k in names]]
    if c["of"] == "depth":
        for i in range(min(n, 1000)):
            doc = ["o", [["z", ["n", "1"]], ["y", doc]]] if i % 2 else ["a", [doc]]
    text = gen.compact(doc)
    opt = ["--compress"] if c["compress"] else []
    compare(doc, False, accepted(feed(ctx, text, "stdin", opt)), text)
    compare(doc, True, accepted(feed(ctx, text, "stdin", opt + ["--keep-order"])), text)
    return {"!", c["of"]}


PARTS = [Part("documents", case, check, 4000), Part("wide", wide_case, wide, 800), Part("large", large_case, large_keys, 240)]
