from hypothesis import strategies as st

import gen
import large
from common import SOURCES, accepted, any_doc, doc_labels, fail, feed
from core import Part

ID = "C01"
RULE = ("random JSON documents (nested objects/arrays, every scalar type, texts over the whole of Unicode, duplicate-free keys), "
        "each written in a random spelling (white space, escapes) and given by stdin, file or command line; the printed text is parsed "
        "by Python's json and compared, value by value; also documents with one dimension (text, key, items, entries, white space, digits) around powers of two up to 65536. Non-trivial: at least 3 nodes.")


def case(tier):
    return st.fixed_dictionaries({"doc": any_doc(tier), "style": gen.styles, "src": st.sampled_from(SOURCES),
                                  "keep": st.booleans(), "lenient": st.booleans()})


def check(ctx, c):
    doc = c["doc"]
    opts = (["--keep-order"] if c["keep"] else []) + (["-W"] if c["lenient"] else [])
    text = gen.spell(doc, gen.Style(c["style"]))
    out = accepted(feed(ctx, text, c["src"], opts))
    want = gen.ordered(doc, c["keep"])
    try:
        got = gen.parse_output(out)
    except ValueError as e:
        fail("printed text is not JSON: %s" % e, input=text, stdout=out)
    d = gen.same_doc(want, got)
    if d:
        fail("printed document differs at " + d, input=text, stdout=out)
    return doc_labels(doc) | {c["src"]}


def wide_case(tier):
    n = st.integers(5, 400 if tier == "thorough" else 120)
    return st.fixed_dictionaries({"n": n, "kind": st.sampled_from("ao"), "mod": st.integers(2, 37), "deep": st.integers(0, 300)})


def wide(ctx, c):
    """wide and deep documents, built from a few numbers"""
    n, mod = c["n"], c["mod"]
    if c["kind"] == "a":
        doc = ["a", [["n", str(i)] if i % mod else ["s", "x" * i] for i in range(n)]]
    else:
        doc = ["o", [["k%d" % (i * 7919 % 10007), ["n", str(i)] if i % mod else ["a", [["s", "y" * (i % 90)]]]] for i in range(n)]]
    for i in range(c["deep"]):
        doc = ["a", [doc]] if i % 2 else ["o", [["d", doc]]]
    text = gen.compact(doc)
    out = accepted(feed(ctx, text, "stdin"))
    d = gen.same_doc(gen.ordered(doc), gen.parse_output(out))
    if d:
        fail("printed document differs at " + d)
    return {"!"} | ({"wide"} if n > 60 else set()) | ({"deep"} if c["deep"] > 50 else set())


def large_doc(ctx, c):
    doc, text = large.build(c)
    out = accepted(feed(ctx, text, c["src"]), "%s of %d" % (c["kind"], c["n"]))
    try:
        d = gen.same_doc(gen.ordered(doc), gen.parse_output(out))
    except ValueError as e:
        d = "(not JSON: %s)" % e
    if d:
        fail("printed document differs at " + d)
    return large.labels(c)


PARTS = [Part("documents", case, check, 9000), Part("wide", wide_case, wide, 600), Part("large", large.case, large_doc, 600)]
