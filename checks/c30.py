import os
import signal
import time

from hypothesis import strategies as st

import gen
import split as split_model
import term
import view
from common import enc, fail
from core import Ctx as BaseCtx
from core import Part

ID = "C30"
TARGETS = ("stroll", "worker", "libworker")
RULE = ("the real program on a pseudo terminal of its own, as the foreground job of a session; an emulator keeps the screen. Part 'modes': random inputs (good, malformed) from files, command line or standard input, streams on the terminal or not, with and without a controlling terminal, "
        "usable and unusable terminal types, options; every way to end. Oracle: whether a viewer is to open, its screens (model of the viewer), what is printed and reported (the same as without a terminal), exit status, modes and screen given back. Part 'jobs': keys sent as the "
        "terminal sends them, resizes, ^Z, SIGSTOP, resumed jobs whose terminal may have been resized, with every screen predicted by the model. Part 'storm': keys, resizes and signals at random moments without waiting for the program, then the screen for the final size must be "
        "the predicted one. Non-trivial: modes: not all of the streams are the terminal, or it is not usable, or an input is malformed; jobs: a stop, a resize and another key; storm: 10 signals or more and another selection than the first one.")


split_model.Half.GAPS = (0x80,)     # colour pairs are not known here


class Ctx(BaseCtx):
    def __init__(self, exes):
        BaseCtx.__init__(self, exes)
        self.ti = term.terminfo(self.dir)
        os.mkdir(os.path.join(self.dir, "san"))

    def session(self, args, **kw):
        return term.Session(self.exes["stroll"], args, os.path.join(self.dir, "san"), self.ti, **kw)


def kill_or_type(s, how, ctty):
    if how in ("q", "Q"):
        s.type(how.encode())
    elif how == "^C" and ctty:
        s.type(b"\x03")
    else:
        s.kill(signal.SIGTERM if how == "sigterm" else signal.SIGINT)


ENDS = ["q", "q", "Q", "^C", "^C", "sigterm", "sigint"]


# read with -W only; warnings
LAX = [['{"a":1,"a":2,"b":[TRUE]}', ["o", [["a", ["n", "2"]], ["b", ["a", [["b", True]]]]]]], ["[FALSE,\n\n {\"x\":[], \"x\": 1}]", ["a", [["b", False], ["o", [["x", ["n", "1"]]]]]]]]


def modes_case(tier):
    good = view.docs(6)
    lax = st.sampled_from([0, 1])
    bad = st.sampled_from(["", "[1,", "{\"a\" 1}", "nul", "[1,]", "[\n\n  1\n 2]"])
    return st.fixed_dictionaries({
        "docs": st.lists(st.one_of(good, good, good, bad, lax), min_size=1, max_size=3), "W": st.sampled_from([True, False]), "src": st.sampled_from(["file", "file", "file", "stdin", "stdin", "args"]),
        "opt": st.sampled_from([None, None, None, "--compress", "--diff", "--diff"]), "colors": st.sampled_from([True, True, False]),
        "in": st.sampled_from(["tty", "tty", "pipe", "file"]), "out": st.sampled_from(["tty", "tty", "tty", "file"]), "err": st.sampled_from(["tty", "file"]),
        "term": st.sampled_from(["vmini"] * 6 + ["nonsense", None, ""]), "ctty": st.sampled_from([True, True, True, False]),
        "ends": st.lists(st.sampled_from(ENDS), min_size=3, max_size=3), "size": st.tuples(st.sampled_from([40, 80, 100]), st.sampled_from([5, 24, 30])).map(list)})


def modes(ctx, c):
    docs, src, opt = c["docs"], c["src"], c["opt"]
    if opt == "--diff":
        docs = (docs * 2)[:2]
        if src == "stdin":
            src = "file"
    elif src == "stdin":
        docs = docs[:1]
    text = [d if isinstance(d, str) else LAX[d][0] if isinstance(d, int) else gen.compact(d) for d in docs]
    warned = c["W"] and any(isinstance(d, int) for d in docs)
    docs = [(LAX[d][1] if c["W"] else text[i]) if isinstance(d, int) else d for i, d in enumerate(docs)]
    args, names, opts = [], [], []
    if c["W"]:
        opts.append("-W")
    if not c["colors"]:
        opts.append("--color=never")
    if opt:
        opts.append(opt)
    stdin = b""
    for i, t in enumerate(text):
        if src == "stdin":
            stdin, name = enc(t), "STDIN"
        elif src == "args" and i == len(text) - 1:
            args += ["--"] + t.split(" ")
            name = "ARGS"
        else:
            name = ctx.file("in%d.json" % i, t)
            args.append(name)
        names.append(name)
    args = opts + args
    ways = dict(c)
    if src == "stdin" and c["in"] == "tty":
        ways["in"] = "pipe"
    info = dict(args=args, stdin=ways["in"], stdout=c["out"], stderr=c["err"], TERM=c["term"], controlling_terminal=c["ctty"], inputs=text)
    # what it prints without a terminal
    plain = ctx.stroll.main([a for a in args if a != "--diff"], stdin=stdin)
    viewer = opt == "--diff" or (c["out"] == "tty" and opt != "--compress")
    usable = c["term"] == "vmini" and (c["ctty"] or (ways["in"] == "tty" and c["out"] == "tty"))
    good = 0
    while good < len(docs) and not isinstance(docs[good], str):
        good += 1
    size = [view.width_for(docs[0] if good else ["z"], c["size"][0]), c["size"][1]]
    for d in docs[:good]:
        size[0] = view.width_for(d, size[0])
    if opt == "--diff" and good == 2:
        size[0] = split_model.screen_width(split_model.inner_width(docs, size[0] // 2))
    out, err = os.path.join(ctx.dir, "out"), os.path.join(ctx.dir, "err")
    for p in (out, err):
        open(p, "w").close()
    rd = None
    if ways["in"] == "pipe":
        rd, wr = os.pipe()
        os.write(wr, stdin)
        os.close(wr)
    try:
        s = ctx.session(args, size=tuple(size), stdin="tty" if ways["in"] == "tty" else rd if rd is not None else ctx.file("stdin", stdin), stdout="tty" if c["out"] == "tty" else out,
                        stderr="tty" if c["err"] == "tty" else err, term=c["term"], ctty=c["ctty"])
    finally:
        if rd is not None:
            os.close(rd)
    with s:
        shown = viewer and usable and (opt != "--diff" or good == 2)
        if shown and opt == "--diff":
            model = split_model.State(split_model.Docs(ctx, docs[0], docs[1]), names, *size)
            s.until(lambda: s.em.alts and model.mismatch(s.em.shot(), 0x80) is None, "the comparison is shown", **info)
            split_model.check_frame(s.em.shot(), names, 0, model.docs, [], 0)
            kill_or_type(s, c["ends"][0], c["ctty"])
        elif shown:
            for i in range(good):
                model = view.start(docs[i], names[i], size)[0].settle()
                s.until(lambda: s.em.alts and view.mismatch(model, s.em.shot(), 0x80) is None, "input %d is shown" % i, **info)
                kill_or_type(s, c["ends"][i], c["ctty"])
        rc = s.end(**info)
        s.given_back(**info)
        printed, said = open(out, "rb").read(), open(err, "rb").read()
        if s.em.alts and not shown and not (viewer and usable):
            fail("a viewer opens", **info)
        raw = s.em.raw.rsplit(b"\x1b[?1049l", 1)[-1] if s.em.alts else s.em.raw
        if c["err"] == "tty":
            said = raw.replace(b"\r\n", b"\n")
        want = 1 if viewer and not usable and (opt != "--diff" or good == 2) else 0
        if rc != want:
            fail("exit status %d instead of %d" % (rc, want), output=s.em.raw[-600:], messages=said, **info)
        if want and b"jsonstroll: " not in said:
            fail("no message about the terminal", messages=said, **info)
        if not want and viewer and (good < len(docs) or warned):
            if plain.err not in said:
                fail("the messages about the inputs are not readable", messages=said, expected=plain.err, **info)
        if not want and viewer and good == len(docs) and c["err"] == "file" and said != plain.err:
            fail("unexpected message", messages=said, **info)
        if c["out"] == "file" and printed != (b"" if viewer else plain.out):
            fail("%r is printed instead of %r" % (printed[:300], b"" if viewer else plain.out[:300]), **info)
        if not viewer:
            if c["err"] == "file" and said != plain.err or plain.err not in said:
                fail("messages differ from those without terminal", messages=said, expected=plain.err, **info)
            if c["out"] == "tty" and plain.out not in s.em.raw.replace(b"\r\n", b"\n"):
                fail("the text is not printed", output=s.em.raw, expected=plain.out, **info)
    return {"viewer" if viewer else "printed", "usable" if usable else "not usable", "!" if ways["in"] != "tty" or c["out"] != "tty" or not usable or good < len(docs) else "plain"}


# ------------------------------------------------------------------ jobs
@st.composite
def jobs_case(draw, tier):
    two = draw(st.booleans())
    docs = list(draw(gen.doc_pair(8, 4))) if two else [draw(view.docs(12))]
    keys = []
    size = st.tuples(st.sampled_from([20, 24, 31, 44, 60, 80]), st.sampled_from([5, 6, 8, 10, 14, 24, 40])).map(list)
    pool = ["down", "down", "down", "up", "left", "right", "pgdn", "pgup", "n"] + (["^W"] if two else ["j", "k", "l", "h"])
    for _ in range(draw(st.integers(3, 14 if tier == "thorough" else 8))):
        k = draw(st.integers(0, 9))
        if k < 2:
            keys.append(draw(size))
        elif k < 5:
            keys.append(draw(size) + [draw(st.sampled_from(["^Z", "^Z", "stop"]))])
        elif k == 5:
            keys.append([0, 0, draw(st.sampled_from(["^Z", "stop"]))])
        elif k == 6:
            p = draw(view.phrase(draw(st.sampled_from(docs))))
            i = draw(st.integers(1, len(p)))
            keys += p[:i] + draw(st.lists(size.map(lambda s: s + ["^Z"]), max_size=1)) + p[i:]
        else:
            one = draw(st.sampled_from(pool))
            keys += ["^W", "w"] if one == "^W" else [one] * draw(st.sampled_from([1, 1, 2, 4]))
    return {"docs": docs, "keys": keys, "size": draw(size), "end": draw(st.sampled_from(ENDS))}


class Simple:
    """what may be on the screen of the viewer"""

    def __init__(self, ctx, docs, names, size):
        self.states = [view.start(docs[0], names[0], size)[0].settle()]

    def step(self, key, why=None):
        if why == "wait":       # ^Z: the same screen, or another size of it; a message may stay
            old = self.states
            self.states = [x for s in old for x in view.step(s, key)]
            return
        self.states = [x for s in self.states for x in view.step(s, key)]

    def see(self, shot):
        bad = [view.mismatch(x, shot, 0x80) for x in self.states]
        ok = [x for x, b in zip(self.states, bad) if b is None]
        if not ok:
            return bad[0]
        seen = {}
        for x in ok:
            seen.setdefault((x.sel.n, x.collapsed, x.s, x.msg), x)
        self.states = list(seen.values())
        return None

    def typing(self):
        return self.states[0].typed is not None

    def size(self):
        return [self.states[0].w, self.states[0].h]

    def fit(self, docs, size):
        return [view.width_for(docs[0], max(size[0], 10)), size[1]]


class Split(Simple):
    def __init__(self, ctx, docs, names, size):
        self.names = names
        self.states = [split_model.State(split_model.Docs(ctx, docs[0], docs[1]), names, *size)]

    def step(self, key, why=None):
        self.states = [split_model.step(self.states[0], key)]

    def see(self, shot):
        return self.states[0].mismatch(shot, 0x80)

    def fit(self, docs, size):
        return [split_model.screen_width(split_model.inner_width(docs, size[0])) + size[0] // 2 % 2, size[1]]


def quiet(s):
    """has the program nothing left to do?"""
    if s.pump(0) or s.unread() or s.state() != "S":
        return False
    if s.pump(.004) or s.unread() or s.state() != "S":
        return False
    return True


def open_both(ctx, c):
    docs = c["docs"]
    two = len(docs) == 2
    cls = Split if two else Simple
    text = [gen.compact(d) for d in docs]
    names = [ctx.file("%s.json" % n, t) for n, t in zip("ab", text)]
    fit = lambda s: cls.fit(None, docs, s)      # noqa: E731
    size = tuple(fit(c["size"]))
    model = cls(ctx, docs, names, size)
    return text, names, fit, size, model, (["--diff"] if two else []) + names


def jobs(ctx, c):
    text, names, fit, size, model, args = open_both(ctx, c)
    keys = [fit(k[:2]) + k[2:] if isinstance(k, list) and k[0] else k for k in c["keys"]]
    if view.typing([k for k in keys]):
        keys.append("esc")
    done = []
    info = dict(documents=text, size="%dx%d" % size, keys=done)
    kinds = set()
    with ctx.session(args, size=size) as s:
        why = [None]

        def ok():
            if not quiet(s) or not s.em.alts:
                return False
            why[0] = model.see(s.em.shot())
            return why[0] is None

        def settle():
            try:
                s.until(ok, "the predicted screen", **info)
            except Exception as e:
                if why[0]:
                    e.args = (e.args[0] + "\n  mismatch: " + why[0],)
                raise
        settle()
        for k in keys:
            done.append(k)
            if isinstance(k, list):
                to = k[:2] if k[0] else model.size()
                kinds.add("stop" if len(k) > 2 else "size")
                if len(k) > 2:
                    s.stop(k[2] == "^Z")
                    if k[2] == "^Z":
                        s.pump(.01)
                        bad = s.em.neutral()
                        if bad or term.modes(s.s) != s.before:
                            fail("when the program is stopped by ^Z, %s" % (bad or "the modes of the terminal are others"), **info)
                    if to != model.size():
                        s.resize(*to)
                        kinds.add("size")
                    s.resume()
                else:
                    s.resize(*to)
                if to != model.size():
                    model.step(to)
            else:
                kinds.add("key")
                s.type(term.BYTES.get(k) or k.encode("latin-1"))
                model.step(k)
            settle()
        kill_or_type(s, c["end"], True)
        rc = s.end(**info)
        if rc:
            fail("exit status %d" % rc, **info)
        s.given_back(**info)
    return {"!"} | kinds if len(kinds) > 2 else kinds


# ------------------------------------------------------------------ storm
@st.composite
def storm_case(draw, tier):
    two = draw(st.booleans())
    tiny = draw(st.sampled_from([False, False, True]))
    if two:
        docs = [["a", [d] * n] for d, n in zip(draw(gen.doc_pair(8, 4)), [draw(st.sampled_from([1, 4, 12]))] * 2)]
    else:
        docs = [["a", [draw(view.docs(10))] * draw(st.sampled_from([1, 10, 40, 120]))]]
    w = st.sampled_from([1, 2, 5, 13, 40, 80, 150] if tiny else [40, 60, 61, 80, 81, 120, 200])
    h = st.sampled_from([1, 2, 3, 5, 24, 60] if tiny else [6, 10, 24, 25, 50, 90])
    plan = []
    key = st.sampled_from(["k", "l", "l", "h", "n", "n", "k"] + (["j", "j", "^W"] if two else []))
    for _ in range(draw(st.integers(5, 60))):
        k = draw(st.integers(0, 19))
        if k < 8:
            plan.append([draw(w), draw(h)])
        elif k < 14:
            plan.append(["^W", "w"] if draw(key) == "^W" else [draw(key)] * draw(st.sampled_from([1, 1, 3, 10])))
            if plan[-1][0] == "^W" and plan[-1][-1] == "^W":
                plan[-1] = ["^W", "w"]
        elif k == 14:
            plan.append(draw(view.phrase(draw(st.sampled_from(docs)))))
        elif k == 15:
            plan.append("stop")
        elif k in (16, 17):
            plan.append(draw(st.sampled_from(["sigwinch", "sigcont", "sigwinch"])))
        else:
            plan.append(draw(st.sampled_from([.0002, .001, .003, .01, .05])))
    return {"docs": docs, "plan": plan, "tiny": tiny, "reads": draw(st.sampled_from([1, 1, 2, 7])), "first": draw(st.booleans()), "size": [draw(st.sampled_from([60, 80])), draw(st.sampled_from([10, 24]))],
            "last": [draw(st.sampled_from([90, 101, 160])), draw(st.sampled_from([12, 20, 40]))], "end": draw(st.sampled_from(ENDS))}


def wherever(model, shot):
    """is it the state of the model, wherever it is scrolled to?"""
    one = model.states[0]
    lns, top = one.lines(), one.top()
    bad = None
    for s in range(top, -1, -1):
        if 1 + sum(view.nrows(x, one.w) for x in lns[s:top]) > one.h - 1 and s != top:
            break
        why = view.mismatch(one.copy(s=s), shot, 0x80)
        if why is None:
            return None
        bad = bad or why
    return bad


def storm(ctx, c):
    text, names, fit, size, model, args = open_both(ctx, c)
    plan = [p if isinstance(p, (str, float)) else (p if c["tiny"] else fit(p)) if isinstance(p[0], int) else p for p in c["plan"]]
    last = fit(c["last"])
    info = dict(documents=text, size="%dx%d" % size, plan=plan)
    keys, signals, sels = [], 0, set()
    with ctx.session(args, size=size) as s:
        if not c["first"]:
            s.until(lambda: s.em.alts and model.see(s.em.shot()) is None, "the first screen", **info)
        else:
            # signals are for the viewer only
            s.until(lambda: s.em.alts, "the viewer opens", **info)
        for i, p in enumerate(plan):
            if isinstance(p, float):
                time.sleep(p)
            elif p == "stop":
                s.stop()
                s.resume()
            elif p == "sigwinch":
                s.kill(signal.SIGWINCH)
                signals += 1
            elif p == "sigcont":
                s.kill(signal.SIGCONT)
                signals += 1
            elif isinstance(p[0], int):
                # the emulator is resized at the end only: what is drawn in between is not looked at
                s.ioctl_size(*p)
                signals += 1
            else:
                s.type(b"".join(term.BYTES.get(k) or k.encode("latin-1") for k in p))
                keys += p
            if i % c["reads"] == 0:
                s.pump()
            if s.exit is not None:
                s.died("in the middle of keys and signals", **info)
        if view.typing(keys):
            s.type(b"\r")
            keys.append("enter")
        # what is drawn from now on is for the last size
        why = [None]
        s.until(lambda: quiet(s), "the keys are read", **info)
        other = [last[0] + 2, last[1] + 3]
        for to in (other, last):
            s.resize(*to)
            s.until(lambda: quiet(s), "idle after a resize", **info)
        if not c["tiny"]:
            for k in keys:
                model.step(k)
                model.states = model.states[:1]
                x = model.states[0]
                sels.add(x.sel.n if not isinstance(x.sel, tuple) else x.last[x.win].n)
            model.step(last)

            def ok():
                if not quiet(s):
                    return False
                why[0] = model.see(s.em.shot()) if isinstance(model, Split) else wherever(model, s.em.shot())
                return why[0] is None
            try:
                s.until(ok, "the predicted screen after the last resize", **info)
            except Exception as e:
                if why[0]:
                    e.args = (e.args[0] + "\n  mismatch: " + why[0],)
                raise
        kill_or_type(s, c["end"], True)
        rc = s.end(**info)
        if rc:
            fail("exit status %d" % rc, **info)
        s.given_back(**info)
    return {"!"} if signals >= 10 and (len(sels) > 1 or c["tiny"]) else set()


PARTS = [Part("modes", modes_case, modes, 600), Part("jobs", jobs_case, jobs, 320), Part("storm", storm_case, storm, 400)]
