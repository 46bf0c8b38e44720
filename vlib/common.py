"""helpers shared by the checks"""
import re

from hypothesis import strategies as st

import gen
from core import Violation


def show(b, n=400):
    s = b.decode("utf-8", "backslashreplace") if isinstance(b, bytes) else str(b)
    return s if len(s) <= n else s[:n] + "...(%d more)" % (len(s) - n)


def fail(msg, **kw):
    raise Violation(msg + "".join("\n  %s: %s" % (k, show(v) if isinstance(v, bytes) else v) for k, v in kw.items()))


SOURCES = ("stdin", "file", "args")


def enc(s):
    return s.encode("utf-8", "surrogatepass")


def feed(ctx, text, src, opts=(), locale="C"):
    """runs the program on one document, taken from stdin, a file or the command line"""
    data = text if isinstance(text, bytes) else enc(text)
    if src == "stdin":
        return ctx.stroll.main(list(opts), stdin=data, locale=locale)
    if src == "file":
        return ctx.stroll.main(list(opts) + [ctx.file("in.json", data)], locale=locale)
    return ctx.stroll.main(list(opts) + ["--"] + data.split(b" "), locale=locale)


def input_name(ctx, src):
    return {"stdin": "STDIN", "args": "ARGS"}.get(src) or ctx.dir + "/in.json"


def accepted(r, what="valid document"):
    """the run must succeed, silently; returns stdout as text"""
    if r.outcome != "ret:0":
        fail("%s: program ended with %s" % (what, r.outcome), stdout=r.out, stderr=r.err)
    if r.err:
        fail("%s: unexpected message" % what, stdout=r.out, stderr=r.err)
    try:
        return r.out.decode("utf-8")
    except UnicodeDecodeError:
        fail("%s: output is not UTF-8" % what, stdout=r.out)


def rejected(r, text=b""):
    if not (r.outcome.startswith("ret:") or r.outcome.startswith("exit:")):
        fail("malformed input: program ended with %s" % r.outcome, input=text, stderr=r.err)
    if r.out:
        fail("malformed input is printed", input=text, stdout=r.out, stderr=r.err)
    if not r.err.strip():
        fail("malformed input is dropped without any message", input=text)


def any_doc(tier, ascii_only=False, **kw):
    big = 60 if tier == "thorough" else 24
    t = gen.text(10, ascii_only)
    return gen.stretched(gen.node(t, gen.text(6, ascii_only), max_leaves=big, **kw), st.one_of(st.just(["z"]), st.just(["a", []]), t.map(lambda s: ["s", s])))


def doc_labels(doc):
    out = set()
    n = 0
    for x in gen.walk(doc):
        n += 1
        if x[0] == "o" and len(x[1]) > 1:
            out.add("multi-key object")
        if x[0] == "a" and len(x[1]) > 1:
            out.add("multi-item array")
        if x[0] == "n" and not gen.is_int(x[1]):
            out.add("double")
        if x[0] == "s" and any(ord(c) > 126 or ord(c) < 32 or c in '"\\' for c in x[1]):
            out.add("special text")
    d = gen.depth(doc)
    for least in (3, 10, 64):
        if d > least:
            out.add("depth>%d" % least)
    if any(x[0] in "ao" and len(x[1]) > 30 for x in gen.walk(doc)):
        out.add("more than 30 items")
    if any(x[0] == "s" and len(x[1]) > 45 or x[0] == "o" and any(len(k) > 20 for k, _ in x[1]) for x in gen.walk(doc)):
        out.add("long text or key")
    if n >= 3:
        out.add("!")
    return out


MSG = re.compile(rb"(?:Error: |Warning: )?jsonstroll: ([^\n]*?) \[([^\]]*)\] at line (\d+), col (\d+) \((.*?)\) while reading\n(.*?)\n(~*\^)\n", re.S)


def messages(err):
    """[(severity, input, line, col, what, excerpt, marker)] of located messages; fails when there is anything else"""
    out, pos = [], 0
    while pos < len(err):
        m = MSG.match(err, pos)
        if not m:
            return out, err[pos:]
        sev = b"error" if err.startswith(b"Error: ", pos) else b"warning"
        out.append((sev.decode(), m.group(1), int(m.group(3)), int(m.group(4)), m.group(5), m.group(6), m.group(7)))
        pos = m.end()
    return out, b""


def check_place(msg, data, consumed, name, where=""):
    """does the message point at that place of the input?"""
    sev, inp, line, col, what, excerpt, marker = msg
    wl, cur = gen.position(data, consumed)
    if inp != enc(name):
        fail("message names input %r instead of %r" % (inp, name), input=data)
    if (line, col) != (wl, len(cur)):
        fail("message says line %d, col %d; the defect is at line %d, col %d%s" % (line, col, wl, len(cur), where), input=data, message=what)
    if not cur.endswith(excerpt) or len(excerpt) < min(len(cur), 40):
        fail("message shows %r instead of the end of %r" % (excerpt, cur), input=data)
    if len(marker) != max(len(excerpt), 1):
        fail("marker line %r does not end below the last character of %r" % (marker, excerpt), input=data)
