#!/usr/bin/env python3
"""Mutation sweep: small random changes of a copy of /repo that build and pass its tests, against the quick checks: mutate.py COUNT SEED [FILE...]

Works in /tmp/mut (removed in the end). Survivors are either equivalent or show what the checks miss."""
import os
import random
import re
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = "/tmp/mut/repo"
PARSER = ["C05", "C01", "C08", "C09", "C10", "C07", "C11", "C06", "C12", "C03"]
TREE = ["C27", "C01", "C03", "C07", "C17", "C22", "C14"]
VIEW = ["C17", "C16", "C18", "C15", "C19", "C20", "C28", "C14", "C30"]
SPLIT = ["C25", "C29", "C21", "C28", "C19", "C20", "C22", "C30"]
DIFF = ["C22", "C23", "C24", "C21", "C25"]
CHECKS = [("streamConsumer", PARSER), ("simpleOutput", ["C01", "C02", "C04", "C03"]), ("wrappedBuffer", ["C26", "C08"]), ("linearHistory", ["C26", "C08"]), ("levenshtein", DIFF), ("searchPattern", ["C14", "C15"]),
          ("params", ["C12", "C13", "C06", "C30", "C03", "C28"]), ("diffCmd", ["C13", "C12"]), ("main", ["C12", "C13", "C05", "C08", "C11", "C20", "C30", "C06"]), ("curseSplit", SPLIT), ("curseOutput", VIEW + SPLIT[:2]), ("curseSimple", VIEW),
          ("inputSequence", ["C29", "C20", "C30"]), ("outputFlag", ["C28"]), ("xception", ["C08", "C11", "C06"]), ("warning", ["C11", "C08"]), ("json", TREE)]
OPS = [(r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" && ", " || "), (r" \|\| ", " && "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
       (r" ?\+ ?1\b", ""), (r" ?- ?1\b", ""), (r"\+\+", "--"), (r" \+ ?(?=[\w(])", " - "), (r" - ?(?=[\w(])", " + "), (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b([2-9]\d*)\b", lambda m: str(int(m.group(1)) + 1)),
       (r"\bif \((.*)\)$", r"if (!(\1))"), (r"\bif \((.*)\)$", r"if (true)"), (r"\bif \((.*)\)$", r"if (false)"), (r"^(\s*)(break|continue);$", r"\1;"), (r"^(\s+)(?!return|delete|const|std::|t_|size_t|unsigned|int |bool|short|char|JSon|\w+ \*?\w+ =)(.*;)$", r"\1;"),
       (r"\+= ", "-= "), (r"cbegin\(\)", "cend()"), (r"'(.)'", lambda m: "'%s'" % chr(ord(m.group(1)) ^ 1) if m.group(1) not in "\\'" else m.group(0))]


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def candidates(files):
    out = []
    for f in files:
        for i, line in enumerate(open(os.path.join(D, f)).read().split("\n")):
            t = line.split("//")[0].rstrip()
            if not t.strip() or t.lstrip().startswith(("#", "*", "/*")):
                continue
            for n, (pat, rep) in enumerate(OPS):
                for m in re.finditer(pat, t):
                    new = t[:m.start()] + m.expand(rep) + t[m.end():] if isinstance(rep, str) else t[:m.start()] + rep(m) + t[m.end():]
                    if new != t:
                        out.append((f, i, line, new))
    return out


def main():
    count, seed, only = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3:]
    R = random.Random(seed)
    sh("rm -rf /tmp/mut; mkdir -p /tmp/mut; git clone -q /repo %s" % D)
    build = "cmake -S . -B _build -G Ninja -Wno-dev -DCMAKE_BUILD_TYPE=Debug -DCMAKE_CXX_FLAGS=-Wno-error -DHELP2MAN=HELP2MAN-NOTFOUND && ninja -C _build"
    assert sh(build, cwd=D).returncode == 0
    files = sorted(sh("git ls-files 'src/*.cpp' 'include/*.hpp'", cwd=D).stdout.decode().split())
    files = [f for f in files if not only or any(o in f for o in only)]
    cands = candidates(files)
    R.shuffle(cands)
    done = killed = 0
    for f, i, old, new in cands:
        if done >= count:
            break
        p = os.path.join(D, f)
        text = open(p).read()
        lines = text.split("\n")
        lines[i] = new
        open(p, "w").write("\n".join(lines))
        try:
            if sh("ninja -C _build", cwd=D).returncode:
                continue
            if sh("timeout 60 ctest --test-dir _build -j8 --timeout 20", cwd=D).returncode:
                continue
            checks = next(c for k, c in CHECKS if k in os.path.basename(f))
            done += 1
            t, by = time.time(), None
            for c in checks:
                r = sh("timeout 400 python3-vt run.py %s --tier quick" % c, cwd=VERIF, env=dict(os.environ, VERIF_REPO=D, VERIF_SEED=str(seed), VERIF_SHRINK="0"))
                if r.returncode == 1:
                    by = c
                    break
                if r.returncode:
                    by = "%s (status %d: %s)" % (c, r.returncode, r.stdout.decode(errors="replace")[-300:])
                    break
            killed += by is not None
            print("%s %s:%d  %s  ==>  %s  [%s, %d s]" % ("killed  " if by else "SURVIVED", f, i + 1, old.strip(), new.strip(), by, time.time() - t), flush=True)
        finally:
            open(p, "w").write(text)
    print("%d of %d killed" % (killed, done))
    sh("rm -rf /tmp/mut")


main()
