#!/usr/bin/env python3
"""Writes and verifies the planted bugs of tools/seeds.py: mkseeds.py [ID...]

For every bug: a scratch copy of /repo is changed, built and tested, and the demonstration is run on both trees."""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import seeds  # noqa: E402

SCRATCH = "/tmp/seedwork"
BASE = "8ddaadc"


def sh(cmd, cwd=None, check=True):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if check and p.returncode:
        raise SystemExit("%s\n%s" % (cmd, p.stdout.decode(errors="replace")[-3000:]))
    return p.returncode, p.stdout.decode(errors="replace")


def tree(name):
    d = os.path.join(SCRATCH, name)
    if not os.path.exists(d):
        os.makedirs(SCRATCH, exist_ok=True)
        sh("git clone -q /repo %s" % d)
    sh("git fetch -q && git reset -q --hard origin/HEAD", d)
    return d


def build(d):
    sh("cmake -S . -B _build -G Ninja -Wno-dev -DCMAKE_BUILD_TYPE=Debug -DCMAKE_CXX_FLAGS=-Wno-error -DHELP2MAN=HELP2MAN-NOTFOUND && ninja -C _build", d)


def main():
    want = sys.argv[1:]
    good = tree("good")
    build(good)
    originals = {}
    for s in seeds.SEEDS:
        if want and s["id"] not in want:
            continue
        out = os.path.join(VERIF, "seeded", s["id"])
        bad = tree("bad")
        for f, old, new in s["edits"]:
            p = os.path.join(bad, f)
            text = open(p).read()
            if text.count(old) != 1:
                print("%s: %d places match in %s: %r" % (s["id"], text.count(old), f, old))
                break
            open(p, "w").write(text.replace(old, new))
        else:
            _, diff = sh("git diff", bad)
            for f, _, _ in s["edits"]:
                if f not in originals:
                    originals[f] = {l for l in sh("git show %s:%s" % (BASE, f), bad)[1].split("\n")}
            removed = [l[1:] for l in diff.split("\n") if l.startswith("-") and not l.startswith("---")]
            o = set().union(*[originals[f] for f, _, _ in s["edits"]])
            if removed and not any(l in o and l.strip() for l in removed):
                print("%s: changes no original line: %s" % (s["id"], removed))
                continue
            shutil.rmtree(out, ignore_errors=True)
            os.makedirs(out)
            open(os.path.join(out, "patch.diff"), "w").write(diff)
            for n in ("demo.sh", "lib.py") + (("tui.cpp",) if "tui(" in s["demo"] else ()):
                shutil.copy(os.path.join(HERE, "seedlib", n), out)
            os.chmod(os.path.join(out, "demo.sh"), 0o755)
            open(os.path.join(out, "check.py"), "w").write("from lib import *\n\n" + s["demo"].strip() + "\n")
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
            build(bad)
            rc, t = sh("ctest --test-dir _build -j8 --timeout 120", bad, False)
            if rc:
                print("%s: existing tests fail\n%s" % (s["id"], t[-800:]))
                shutil.rmtree(out)
                continue
            rc, t = sh("bash %s/demo.sh" % out, good, False)
            if rc:
                print("%s: the demonstration fails on the unchanged tree: %s" % (s["id"], t[-1500:]))
            rc, t = sh("bash %s/demo.sh" % out, bad, False)
            print("%s: %s" % (s["id"], t.strip()[-300:] if rc else "THE DEMONSTRATION DOES NOT FAIL"))


main()
