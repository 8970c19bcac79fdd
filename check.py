#!/usr/bin/env python3
"""check.py C01 [--tier quick|thorough] [--replay FILE] [--workload NAME]"""
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import core  # noqa: E402

if __name__ == "__main__":
    if sys.argv[1:] == ["--setup"]:
        # nothing to build: see that every module of the framework loads
        import glob
        for f in glob.glob(os.path.join(core.VERIF, "**", "*.py"), recursive=True):
            compile(open(f, encoding="utf8").read(), f, "exec")
        print("python %s, framework loads" % sys.version.split()[0])
        sys.exit(0)
    pid = sys.argv[1].upper()
    try:
        core.import_repo()
    except Exception as e:  # the tree does not even import
        import traceback
        traceback.print_exc()
        sys.exit(3)
    mod = importlib.import_module("vf.checks." + pid.lower())
    rc = core.main(mod, sys.argv[2:])
    sys.stdout.flush()
    sys.exit(rc)
