import re

from hypothesis import strategies as st

import c05
import gen
import large
from common import check_place, enc, fail, feed, input_name, messages, rejected
from core import Part

ID = "C07"
RULE = ("random documents with 0-6 injected non-blocking defects (repeated keys, wrong-case literals, unknown escape sequences), run with -W (expected: the repaired document and one located warning "
        "per defect, in reading order) and without (expected: rejected when there is a defect); and the same documents with one further blocking defect (expected: rejected even with -W). Parts tokens, characters: edited token sequences and texts judged by a reference recogniser of what -W accepts. Non-trivial: at least one defect.")

BADESC = "qxvae'0 1UzN-_$"
BLOCK = ["?", "1e", '"\\u12g4"', "tru", "nul", "falsee", ",,", ":", "]", "}", '"\\udc00"', "1e999", "-", "nil", "fAlsy"]


def case(tier):
    big = 40 if tier == "thorough" else 18
    return st.fixed_dictionaries({
        "doc": gen.node(gen.text(6), gen.text(5), max_leaves=big), "style": gen.styles,
        "defects": st.lists(st.tuples(st.sampled_from(["case", "esc", "dup", "case", "esc", "kesc"]), st.integers(0, 300), st.integers(0, 300)).map(list), max_size=6),
        "block": st.one_of(st.none(), st.none(), st.tuples(st.integers(0, 300), st.integers(0, 300)).map(list)),
        "src": st.sampled_from(["stdin", "file", "args"]), "opts": st.sampled_from([[], ["--compress"], ["--keep-order"], ["--keep-order", "--compress"]])})


class T:
    """a token: spelt text, end offsets of its non-blocking defects"""

    def __init__(self, text, defects=()):
        self.text, self.defects = text, list(defects)


def wrong_case(word, n):
    out = "".join(ch.upper() if (n >> i) & 1 else ch for i, ch in enumerate(word))
    return out if out != word else word.capitalize()


def build(n, sty, todo):
    """(tokens, node as it is meant to be read); todo maps id(node) to the defect to give it"""
    d = todo.get(id(n))
    if n[0] in "bz":
        w = "null" if n[0] == "z" else ("true" if n[1] else "false")
        if d and d[0] == "case":
            w = wrong_case(w, d[1])
            return [T(w, ["lit"])], n
        return [T(w)], n
    if n[0] == "s":
        t, txt = string(n[1], sty, d)
        return [t], ["s", txt]
    if n[0] == "n":
        return [T(n[1])], n
    if n[0] == "a":
        out, items = [T("[")], []
        for i, x in enumerate(n[1]):
            if i:
                out.append(T(","))
            t, v = build(x, sty, todo)
            out += t
            items.append(v)
        return out + [T("]")], ["a", items]
    out, ents = [T("{")], []
    src = list(n[1])
    if d and d[0] == "dup" and src:
        # repeat one key, somewhere else
        k = src[d[1] % len(src)][0]
        src.insert(d[2] % (len(src) + 1), [k, ["n", str(d[1])]])
    for i, (k, x) in enumerate(src):
        if i:
            out.append(T(","))
        t, key = string(k, sty, d if d and d[0] == "kesc" and i == d[1] % len(src) else None)
        out.append(t)
        colon = T(":")
        old = [e for e in ents if gen.stored(e[0]) == gen.stored(key)]
        if old:
            colon.defects.append(1)
            ents.remove(old[0])
        out.append(colon)
        t, v = build(x, sty, todo)
        out += t
        ents.append([key, v])
    return out + [T("}")], ["o", ents]


def string(s, sty, d):
    """an unknown escape \\c is read as backslash and c"""
    if not d or d[0] not in ("esc", "kesc"):
        return T(gen.spell_string(s, sty)), s
    at = d[1] % (len(s) + 1)
    ch = BADESC[d[2] % len(BADESC)]
    head = gen.spell_string(s[:at], sty)[:-1]
    tail = gen.spell_string(s[at:], sty)[1:]
    return T(head + "\\" + ch + tail, [len(enc(head)) + 2]), Raw(s[:at], ch, s[at:])


class Raw(str):
    """a text holding an unknown escape: shown (and compared) as backslash, character"""
    def __new__(cls, a, ch, b):
        o = str.__new__(cls, a + "\\" + ch + b)
        o.parts = (a, ch, b)
        return o


def shown(s):
    if isinstance(s, Raw):
        a, ch, b = s.parts
        return gen.stored(a) + "\\" + ch + gen.stored(b)
    return gen.stored(s)


def render(n, keep):
    """[tokens of the compressed output]; numbers as nodes"""
    if n[0] == "s":
        return ['"' + shown(n[1]).replace('"', '\\"') + '"']
    if n[0] in "bz":
        return [gen.scalar(n)]
    if n[0] == "n":
        return [n]
    if n[0] == "a":
        out = ["["]
        for i, x in enumerate(n[1]):
            out += ([","] if i else []) + render(x, keep)
        return out + ["]"]
    e = n[1] if keep else sorted(n[1], key=lambda kv: shown(kv[0]).encode("utf-8", "surrogatepass"))
    out = ["{"]
    for i, (k, x) in enumerate(e):
        out += ([","] if i else []) + ['"' + shown(k).replace('"', '\\"') + '"', ":"] + render(x, keep)
    return out + ["}"]


TOKEN = re.compile(r'"(?:[^"\\]|\\.)*"|[-+.\w]+|\S', re.S)


def prepare(c):
    todo = {}
    nodes = list(gen.walk(c["doc"]))
    for kind, i, j in c["defects"]:
        fit = [x for x in nodes if x[0] in {"case": "bz", "esc": "s", "dup": "o", "kesc": "o"}[kind] and (x[0] != "o" or x[1])]
        if fit:
            todo.setdefault(id(fit[i % len(fit)]), [kind, i, j])
    return build(c["doc"], gen.Style(c["style"]), todo)


def unique_shown(n):
    for x in gen.walk(n):
        if x[0] == "o":
            ks = [shown(k) for k, _ in x[1]]
            if len(set(ks)) != len(ks):
                return False
    return True


def check(ctx, c):
    toks, want = prepare(c)
    if not unique_shown(want):
        return {"ambiguous keys"}
    sty = gen.Style(c["style"] + [3])
    texts = [t.text for t in toks]
    if c["block"] and len(texts) > 1:
        i = 1 + c["block"][0] % (len(texts) - 1)
        b = BLOCK[c["block"][1] % len(BLOCK)]
        if b in (":", "]", "}", ",,"):
            texts.insert(i, b)
            if b in "]}" and texts[0][0] == {"]": "[", "}": "{"}[b]:
                return {"may still be complete"}
        else:
            slots = [k for k, t in enumerate(texts) if k and t not in list("{}[],:")]
            if not slots:
                return {"no slot"}
            texts[slots[i % len(slots)]] = b
        data, _ = gen.lay_out(texts, sty)
        rejected(feed(ctx, data, c["src"], c["opts"] + ["-W"]), data)
        return {"!", "blocking"} if any(t.defects for t in toks) else {"blocking"}
    data, spans = gen.lay_out(texts, sty)
    places = []
    for t, (a, b) in zip(toks, spans):
        for d in t.defects:
            places.append((a, b, d, t.text))
    strict = feed(ctx, data, c["src"], c["opts"])
    r = feed(ctx, data, c["src"], c["opts"] + ["-W"])
    if r.outcome != "ret:0" or not r.out:
        fail("document with non-blocking defects is not printed with -W", input=data, stdout=r.out, stderr=r.err)
    if places:
        rejected(strict, data)
    elif strict.err or strict.out != r.out:
        fail("well-formed document is treated differently with -W", input=data, strict=strict.out, lenient=r.out, stderr=strict.err)
    msgs, rest = messages(r.err)
    if rest or any(m[0] != "warning" for m in msgs):
        fail("unexpected message", input=data, stderr=r.err)
    if len(msgs) != len(places):
        fail("%d warnings for %d defects" % (len(msgs), len(places)), input=data, stderr=r.err)
    for m, (a, b, d, t) in zip(msgs, places):
        if d == "lit":
            # said once the word is over: the character after it may have been read
            end = b if t[0] in "nN" or b >= len(data) else b + 1
        else:
            end = a + d
        check_place(m, data, end, input_name(ctx, c["src"]), " (%r)" % t)
    out = r.out.decode("utf-8", "surrogatepass")
    got = TOKEN.findall(out)
    exp = render(want, "--keep-order" in c["opts"])
    for i, e in enumerate(exp):
        g = got[i] if i < len(got) else "nothing"
        if (gen.match_scalar(e, g) if isinstance(e, list) else e == g):
            continue
        fail("-W prints %r where %r is expected" % (g, e), input=data, stdout=r.out)
    if len(got) != len(exp):
        fail("-W prints more than the document", input=data, stdout=r.out)
    kinds = {"case" if d == "lit" else "repeated key" if t == ":" else "escape" for _, _, d, t in places}
    return kinds | ({"!"} if places else {"well-formed"}) | ({"several"} if len(places) > 1 else set())


def blocked(ctx, c):
    """whatever is not one of the documented defects stays rejected"""
    toks = c05.edited(c)
    if any(t in ('"\\q"', '"\\x41"') for t in toks):
        return {"unknown escape"}
    sty = gen.Style(c["style"])
    text = "".join(t + c05.SEP[sty.pick(len(c05.SEP))] for t in toks)
    try:
        want = c05.recognise(toks, True)
    except c05.Bad as e:
        rejected(feed(ctx, text, c["src"], c["opts"] + ["-W"]), enc(text))
        return {"rejected"} | ({"!"} if e.pos > 1 else set())
    out = c05.tolerated(feed(ctx, text, c["src"], c["opts"] + ["-W"]), text)
    d = gen.same_doc(gen.ordered(want, "--keep-order" in c["opts"]), gen.parse_output(out))
    if d:
        fail("printed document differs at " + d, input=text, stdout=out)
    return {"accepted"}


def many_case(tier):
    return st.fixed_dictionaries({"n": large.sizes(9), "kind": st.sampled_from(["case", "esc", "kesc", "dup", "mixed"]), "sep": st.sampled_from(["", "\n", " "]), "src": st.sampled_from(["stdin", "file", "args"])})


def many(ctx, c):
    """as many warnings as defects, in their order, however many"""
    n, items, ends = c["n"], [], []
    data = b"["
    for i in range(n):
        k = ["case", "esc", "kesc", "dup"][i % 4] if c["kind"] == "mixed" else c["kind"]
        t, off = {"case": (["True", "NULL", "falSe"][i % 3], None), "esc": ('"ab\\q"', 5), "kesc": ('{"\\w":1}', 4), "dup": ('{"a":1,"a":2}', 11)}[k]
        items.append({"case": ["true", "null", "false"][i % 3], "esc": t, "kesc": t, "dup": '{"a":2}'}[k])
        if i:
            data += b"," + enc(c["sep"])
        ends.append(len(data) + (off if off is not None else len(t) if t[0] in "nN" else len(t) + 1))
        data += enc(t)
    data += b"]"
    r = feed(ctx, data, c["src"], ["-W", "--compress"])
    if r.outcome != "ret:0" or r.out != enc("[" + ",".join(items) + "]"):
        fail("document with %d non-blocking defects is not printed as it is meant" % n, stdout=r.out, stderr=r.err)
    msgs, rest = messages(r.err)
    if rest or len(msgs) != n:
        fail("%d warnings for %d defects" % (len(msgs), n), stderr=rest)
    for m, e in zip(msgs, ends):
        check_place(m, data, e, input_name(ctx, c["src"]))
    return {"!", c["kind"]}


PARTS = [Part("defects", case, check, 7000), Part("tokens", c05.case, blocked, 5000), Part("characters", c05.char_case, lambda ctx, c: c05.chars(ctx, c, True), 5000), Part("many", many_case, many, 160)]
