#!/usr/bin/env python3
"""Applies each planted bug to /repo, runs the quick check of its property, and undoes it: runseeds.py [ID...]"""
import json
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
claims = {c["property"] if "property" in c else c["property_id"]: c for c in json.load(open(VERIF + "/MANIFEST.json"))["checks"]}
for s in sorted(os.listdir(VERIF + "/seeded")):
    if sys.argv[1:] and s not in sys.argv[1:]:
        continue
    d = os.path.join(VERIF, "seeded", s)
    meta = json.load(open(d + "/meta.json"))
    subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"], check=True)
    t = time.time()
    try:
        r = subprocess.run(claims[meta["property"]]["quick_cmd"], shell=True, cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
    out = r.stdout.decode(errors="replace")
    caught = r.returncode == 1 and "VIOLATION property=%s " % meta["property"] in out
    print("%-14s %s %3d s rc=%d %s" % (s, "caught" if caught else "MISSED", time.time() - t, r.returncode, "" if caught else out[-300:]), flush=True)
