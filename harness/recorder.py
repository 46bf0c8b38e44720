#!/usr/bin/python3 -ISE
# stands for an external diff program: logs its arguments and the files they name, then ends as told
import json
import os
import resource
import sys

resource.setrlimit(resource.RLIMIT_FSIZE, (resource.getrlimit(resource.RLIMIT_FSIZE)[1],) * 2)

log = {"argv": [os.fsencode(a).hex() for a in sys.argv[1:]], "files": {}}
for a in sys.argv[1:]:
    if a.startswith("/tmp/") and os.path.isfile(a) and os.sep + "vc-" not in a:
        with open(a, "rb") as f:
            log["files"][os.fsencode(a).hex()] = f.read().hex()
with open(os.environ["REC_LOG"], "a") as f:
    f.write(json.dumps(log) + "\n")
mode = os.environ["REC_MODE"]
if mode.startswith("kill"):
    os.kill(os.getpid(), int(mode[4:]))
if mode == "unlink":
    for a in log["files"]:
        os.unlink(bytes.fromhex(a))
if mode == "append":
    for a in log["files"]:
        with open(bytes.fromhex(a), "ab") as f:
            f.write(b"x" * 5000)
if mode == "noise":
    print("a" * 100)
    print("b", file=sys.stderr)
sys.exit(int(mode[4:]) if mode.startswith("exit") else 0)
