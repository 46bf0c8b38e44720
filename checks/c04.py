from hypothesis import strategies as st

import gen
import large
from common import SOURCES, accepted, any_doc, doc_labels, fail, feed
from core import Part

ID = "C04"
RULE = ("random documents in random spellings; the prettified text is compared line by line with a reference layout (one bracket, key or value per "
        "line, 4 spaces per level, leading commas, final new-line), must not depend on the spelling of the source, and must be "
        "left as it is when printed again; also documents with one dimension around powers of two up to 65536. Non-trivial: at least 3 nodes.")


def case(tier):
    return st.fixed_dictionaries({"doc": any_doc(tier), "style": gen.styles, "src": st.sampled_from(SOURCES), "keep": st.booleans()})


def check(ctx, c):
    doc, keep = c["doc"], ["--keep-order"] if c["keep"] else []
    text = gen.spell(doc, gen.Style(c["style"]))
    out = accepted(feed(ctx, text, c["src"], keep))
    try:
        gen.check_pretty(gen.ordered(doc, c["keep"]), out)
    except gen.Mismatch as e:
        fail("layout: %s" % e, input=text, stdout=out)
    again = accepted(feed(ctx, out, "stdin", keep))
    if again != out:
        fail("printing the prettified output again changes it", first=out, second=again)
    plain = accepted(feed(ctx, gen.compact(doc), "stdin", keep))
    if plain != out:
        fail("output depends on how the source is spelled", input=text, other=gen.compact(doc), stdout=out, stdout2=plain)
    return doc_labels(doc)


def large_doc(ctx, c):
    doc, text = large.build(c)
    out = accepted(feed(ctx, text, c["src"]), "%s of %d" % (c["kind"], c["n"]))
    try:
        gen.check_pretty(gen.ordered(doc), out)
    except gen.Mismatch as e:
        fail("layout: %s" % e)
    if accepted(feed(ctx, out, "stdin")) != out:
        fail("printing the prettified output again changes it")
    return large.labels(c)


PARTS = [Part("documents", case, check, 5000), Part("large", large.case, large_doc, 500)]
