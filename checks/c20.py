from hypothesis import strategies as st

import gen
import view
from common import enc, fail
from core import Part

ID = "C20"
RULE = ("1 to 4 inputs (files; sometimes one is empty or malformed: only those before it are viewed), each with its own random sequence of keys of every kind (moves, searches, half typed searches, ^W prefixes, unknown keys, control characters, timeouts, resizes, SIGCONT), ended at a random moment by q, "
        "SIGINT or SIGTERM, or never. Every screen must be the one predicted by the model: the first screen of an input is that of a viewer just started, whatever was done to the previous one, no key is swallowed or needed in addition, and the program must end normally "
        "after the last input, having shown exactly as many screens as predicted. Part 'split': the same for comparisons. Non-trivial: at least 2 inputs were viewed and one of them was ended by a signal, or while typing or after ^W.")

NOEFFECT = ["x", "5", "timeout", "timeout", "sigcont", "backspace", " ", "~"]


@st.composite
def keys_for(draw, doc, w, most, size_change=True):
    out = []
    for _ in range(draw(st.integers(0, most))):
        k = draw(st.integers(0, 8))
        if k == 0:
            out += draw(st.lists(st.sampled_from(NOEFFECT), min_size=1, max_size=3))
        elif k == 1:
            p = draw(view.phrase(doc))
            out += p[:draw(st.integers(1, len(p)))] if draw(st.booleans()) else p
        elif k == 2:
            out += draw(st.lists(st.sampled_from(view.PREFIX), min_size=1, max_size=2)) + [draw(st.sampled_from(["w", "x", "q", "h", "timeout", "down", "Q"]))]
        elif k == 3 and size_change:
            out.append([max(w, draw(st.sampled_from([20, 31, 80]))), draw(st.sampled_from([3, 5, 8, 24]))])
        else:
            out += [draw(st.sampled_from(view.NAV + ["n"]))] * draw(st.sampled_from([1, 2, 4]))
    # control characters are not typed in a search
    clean = []
    for k in out:
        if view.typing(clean) and k in ("^W", "^X"):
            continue
        clean.append(k)
    end = draw(st.sampled_from([["q"], ["Q"], ["sigint"], ["sigterm"], ["/", "a", "sigint"], ["/", "sigterm"], ["^W", "sigint"], ["esc", "sigterm"], ["n", "sigint"], []]))
    return clean, end


@st.composite
def case(draw, tier):
    docs = draw(st.lists(view.docs(12 if tier == "thorough" else 8), min_size=1, max_size=4 if tier == "thorough" else 3))
    w = 14
    for d in docs:
        w = view.width_for(d, w)
    inputs = [[d] + list(draw(keys_for(d, w, 8 if tier == "thorough" else 6))) for d in docs]
    for _ in range(draw(st.sampled_from([0, 0, 0, 1]))):
        inputs.insert(draw(st.integers(0, len(inputs))), [draw(st.sampled_from(["", "[1,", "{\"a\" 1}", "\n", "nul"])), [], []])
    return {"inputs": inputs, "size": [max(w, draw(st.sampled_from([20, 31, 80]))), draw(st.sampled_from([3, 5, 8, 24]))]}


def check(ctx, c):
    args, plan, bad = [], [], 0
    for i, (doc, keys, end) in enumerate(c["inputs"]):
        if isinstance(doc, str):
            # a malformed input is reported, and ends it all
            args.append(ctx.file("bad%d.json" % i, doc))
            bad += 1
            continue
        path = ctx.file("in%d.json" % i, gen.compact(doc))
        args.append(path)
        if bad:
            continue
        plan.append((path, doc, list(keys) + list(end)))
    keys = [k for p in plan for k in p[2]]
    # whatever is still being typed at the end is left; the worker then sends q for ever
    if not plan:
        return set()
    text = "\n".join(gen.compact(p[1]) for p in plan)
    typed_at_end, how = replay_keys(plan, keys)
    keys = keys + typed_at_end
    r = ctx.stroll.tui(args, [view.code(k) for k in keys], size=c["size"])
    if r.outcome != "ret:0" and not (bad and r.outcome.startswith("ret:")):
        fail("program ends with %s" % r.outcome, documents=text, keys=keys, stderr=r.err)
    if not bad and r.err:
        fail("unexpected message", documents=text, keys=keys, stderr=r.err)
    if bad and r.err.count(b"jsonstroll: ") < bad:
        fail("an input is dropped without message", documents=text, inputs=c["inputs"], stderr=r.err)
    size, pos = tuple(c["size"]), 0
    which, states, shots = -1, [], r.shots
    n = 0
    feed = list(keys)
    done = []
    while True:
        if not states:
            which += 1
            if which == len(plan):
                break
            s0, _ = view.start(plan[which][1], plan[which][0], size)
            states = [s0.settle()]
        if n >= len(shots):
            fail("program ends (%s) although input %d is still viewed" % (r.outcome, which), documents=text, keys=done)
        states = view.follow(states, shots[n], done, text, 0xff)
        n += 1
        k = feed.pop(0) if feed else "q"
        done = done + [k]
        nxt = [x for s in states for x in view.step(s, k)]
        if isinstance(k, list):
            size = tuple(k[:2])
        if any(x.over for x in nxt):
            nxt = []
        states = nxt
    if n != len(shots):
        fail("%d more screens than expected: the viewer does not end" % (len(shots) - n), documents=text, keys=done, screen="\n" + str(shots[n]))
    return how | ({"malformed among them"} if bad else set()) | ({"!"} if len(plan) > 1 and how else set())


def replay_keys(plan, keys):
    """keys needed to leave a prompt in the end; how the inputs ended"""
    how = set()
    at, left, prefix, t = 0, len(plan), False, False
    for k in keys:
        if not left:
            break
        if k in ("sigint", "sigterm"):
            how.add("signal while typing" if t else "signal after prefix" if prefix else "signal")
            left, t, prefix = left - 1, False, False
        elif isinstance(k, list) or k in ("timeout", "sigcont"):
            pass
        elif t:
            t = k not in ("enter", "esc")
        elif prefix:
            prefix = k in view.PREFIX
        elif k in view.PREFIX:
            prefix = True
        elif k in ("q", "Q"):
            left -= 1
        elif k == "/":
            t = True
    return (["esc"] if t and left else []), how


def split_case(tier):
    pool = ["down", "down", "up", "left", "right", "pgdn", "pgup", "n", "x", "timeout", "sigcont", "backspace"]
    one = st.lists(st.one_of(st.sampled_from(pool).map(lambda k: [k]), st.sampled_from([["^W", "w"], ["^W", "h"], ["^W", "timeout", "x"], ["/", "a", "enter"], ["/", "a", "timeout", "esc"], ["/", "1", "q", "enter"], ["^W", "q"], [[60, 9]], [[90, 30]]])), max_size=8)
    return st.fixed_dictionaries({"docs": gen.doc_pair(8, 4), "keys": one.map(lambda l: [k for r in l for k in r]), "end": st.sampled_from([["q"], ["Q"], ["sigint"], ["sigterm"], ["/", "a", "sigint"], ["/", "sigterm"], ["^W", "sigint"], ["^W", "sigterm"], []]),
                                  "size": st.tuples(st.sampled_from([40, 80]), st.sampled_from([8, 24])).map(list)})


def split(ctx, c):
    a, b = (gen.compact(d) for d in c["docs"])
    keys = list(c["keys"]) + list(c["end"])
    r = ctx.stroll.tui(["--diff", ctx.file("a.json", a), ctx.file("b.json", b)], [view.code(k) for k in keys], size=c["size"])
    view.check_end(r, [a, b], keys)
    want = len(keys) + (0 if c["end"] else 1)
    if len(r.shots) != want:
        fail("%d screens shown, %d keys read until the end instead of %d" % (len(r.shots), len(r.shots), want), documents=[a, b], keys=keys)
    return {"!"} if c["keys"] and c["end"] else set()


PARTS = [Part("inputs", case, check, 4500), Part("split", split_case, split, 1600)]
