#!/usr/local/bin/python3-vt
"""run.py ID [--tier quick|thorough] | run.py ID --replay FILE"""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "vlib"), os.path.join(HERE, "checks")]

if __name__ == "__main__":
    import build
    import core
    mod = importlib.import_module(sys.argv[1].lower())
    try:
        if "--replay" in sys.argv:
            sys.exit(core.replay(mod, sys.argv[sys.argv.index("--replay") + 1]))
        tier = sys.argv[sys.argv.index("--tier") + 1] if "--tier" in sys.argv else None
        sys.exit(core.main(mod, tier))
    except build.BuildError as e:
        print("ERROR of the check: cannot build\n%s" % e)
        sys.exit(2)
