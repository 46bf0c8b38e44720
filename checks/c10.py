import os
import re
import subprocess

from hypothesis import strategies as st

import build
import gen
from common import SOURCES, accepted, enc, fail, feed, rejected
from core import Part

ID = "C10"
RULE = ("numbers made of random digits, fractions and exponents, integers around every power of two, random doubles; 1-6 of them in an array, read and printed in the C locale and in fr_FR (comma as decimal separator); "
        "compared with Python's exact integers and correctly rounded floats. Also numbers beyond double range. Non-trivial: a number that is not a small integer.")
LOC = os.path.join(build.BUILD, "locale")


def setup():
    """compiles a comma-decimal locale; without it that half of the check is left out, and the evidence says so"""
    d = os.path.join(LOC, "fr_FR.UTF-8")
    if not os.path.isdir(d):
        os.makedirs(LOC, exist_ok=True)
        try:
            subprocess.run(["localedef", "-i", "fr_FR", "-f", "UTF-8", d], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        except OSError:
            pass
    os.environ["LOCPATH"] = LOC


def literal():
    near = st.builds(lambda k, d, s: str(s * (2 ** k + d)), st.integers(0, 70), st.integers(-3, 3), st.sampled_from([1, -1]))
    digits = st.text(alphabet="0123456789", min_size=1, max_size=40)
    long = st.builds(lambda s, a, b, e: s + (a.lstrip("0") or "0") + "." + b + e, st.sampled_from(["", "-"]), digits, digits,
                     st.sampled_from(["", "e-7", "E+12", "e300", "e-310", "e0", "E-05"]))
    # halfway cases between two doubles
    half = st.builds(lambda m, e: str(2 * m + 1) + "0" * e, st.integers(2 ** 53, 2 ** 54 - 1), st.integers(0, 30))
    return st.one_of(gen.number(), near, long, half).filter(gen.usable_number)


def case(tier):
    return st.fixed_dictionaries({"nums": st.lists(literal(), min_size=1, max_size=6), "src": st.sampled_from(SOURCES), "fr": st.booleans(),
                                  "obj": st.booleans(), "opts": st.sampled_from([[], ["-W"], ["--ascii"], ["--keep-order"]])})


def check(ctx, c):
    nums = c["nums"]
    text = "{" + ",".join('"k%d":%s' % (i, n) for i, n in enumerate(nums)) + "}" if c["obj"] else "[" + " , ".join(nums) + "]"
    fr = c["fr"] and os.path.isdir(os.path.join(LOC, "fr_FR.UTF-8"))
    out = accepted(feed(ctx, text, c["src"], c["opts"] + ["--compress"], "fr_FR.UTF-8" if fr else "C"), "numbers %r" % text)
    body = out[1:-1].split(",")
    if len(body) != len(nums):
        fail("%d numbers read, %d printed" % (len(nums), len(body)), input=text, stdout=out)
    for n, o in zip(nums, body):
        if c["obj"]:
            o = o.split(":")[1]
        if not gen.match_scalar(["n", n], o):
            fail("number %s is printed as %s%s" % (n, o, " in fr_FR" if fr else ""), input=text)
    labels = {"fr" if fr else "C"}
    for n in nums:
        if not gen.is_int(n) or abs(int(n)) > 9999:
            labels.add("!")
        labels.add("integer" if gen.is_int(n) else "big integer" if re.fullmatch(r"-?\d+", n) else "double")
    return labels


def range_case(tier):
    return st.fixed_dictionaries({"mant": st.text(alphabet="123456789", min_size=1, max_size=12), "frac": st.booleans(), "exp": st.integers(309, 5000), "neg": st.booleans(), "up": st.booleans(),
                                  "plain": st.booleans()})


def out_of_range(ctx, c):
    if c["plain"]:
        lit = c["mant"] + "0" * c["exp"]
    else:
        lit = c["mant"][0] + ("." + c["mant"] if c["frac"] else "") + ("E+" if c["up"] else "e") + str(c["exp"])
    lit = ("-" if c["neg"] else "") + lit
    rejected(feed(ctx, "[" + lit + "]", "stdin", []), enc(lit))
    return {"!"}


PARTS = [Part("numbers", case, check, 12000), Part("out of range", range_case, out_of_range, 600)]
