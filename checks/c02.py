from hypothesis import strategies as st

import gen
import large
from common import SOURCES, accepted, any_doc, doc_labels, fail, feed
from core import Part

ID = "C02"
RULE = ("random documents in random spellings, printed with --compress: output must be the document, on one line, without any white "
        "space outside of texts and nothing else, and must equal the prettified output once its structural white space is removed "
        "(numbers included); also documents with one dimension around powers of two up to 65536. Non-trivial: at least 3 nodes.")


def strip_ws(text):
    out, instr, esc = [], False, False
    for ch in text:
        if instr:
            out.append(ch)
            if esc:
                esc = False
            elif ch == "\\":
                esc = True
            elif ch == '"':
                instr = False
        elif ch == '"':
            instr = True
            out.append(ch)
        elif ch not in " \t\r\n":
            out.append(ch)
    return "".join(out)


def case(tier):
    return st.fixed_dictionaries({"doc": any_doc(tier), "style": gen.styles, "src": st.sampled_from(SOURCES), "keep": st.booleans(),
                                  "pretty_too": st.booleans()})


def check(ctx, c):
    doc, keep = c["doc"], ["--keep-order"] if c["keep"] else []
    text = gen.spell(doc, gen.Style(c["style"]))
    out = accepted(feed(ctx, text, c["src"], keep + ["--compress"]))
    if strip_ws(out) != out:
        fail("compressed output holds white space", input=text, stdout=out)
    try:
        got = gen.parse_output(out)
    except ValueError as e:
        fail("compressed output is not JSON: %s" % e, input=text, stdout=out)
    d = gen.same_doc(gen.ordered(doc, c["keep"]), got)
    if d:
        fail("compressed document differs at " + d, input=text, stdout=out)
    if c["pretty_too"]:
        pretty = accepted(feed(ctx, text, c["src"], keep))
        if strip_ws(pretty) != out:
            fail("compressed and prettified outputs differ by more than white space", input=text, compressed=out, pretty=pretty)
        again = accepted(feed(ctx, out, "stdin", keep + ["--compress"]))
        if again != out:
            fail("compressing twice changes the document", first=out, second=again)
    return doc_labels(doc)


def large_doc(ctx, c):
    doc, text = large.build(c)
    out = accepted(feed(ctx, text, c["src"], ["--compress"]), "%s of %d" % (c["kind"], c["n"]))
    if strip_ws(out) != out:
        fail("compressed output holds white space")
    try:
        d = gen.same_doc(gen.ordered(doc), gen.parse_output(out))
    except ValueError as e:
        d = "(not JSON: %s)" % e
    if d:
        fail("compressed document differs at " + d)
    if strip_ws(accepted(feed(ctx, text, "stdin"))) != out:
        fail("compressed and prettified outputs differ by more than white space")
    return large.labels(c)


PARTS = [Part("documents", case, check, 7000), Part("large", large.case, large_doc, 300)]
