#!/usr/bin/env python3
"""replay.py <replay file>: runs a reported counterexample on the ordinary build of /repo's current sources."""
import json
import os
import shutil
import sys
import tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/bin")
sys.path.insert(0, V + "/harness")
import build as B  # noqa: E402
import check as C  # noqa: E402
r = json.load(open(sys.argv[1]))
w = tempfile.mkdtemp(prefix="verif-replay-")
try:
    if C.PROPS[r["property"]].get("replay") == "engine":
        import subprocess
        prog, _, _ = B.build(w, V + "/harness/" + r["harness"], r["defs"], want_native=False)
        with open(w + "/in", "w") as f:
            for n, v in r["vars"]:
                f.write("%s %d\n" % (n, v))
        o = subprocess.run([prog, "--out", w, "--replay", w + "/in"], stdout=subprocess.PIPE).stdout.decode()
    else:
        o = C.run_native(B.build_native(w, V + "/harness/" + r["harness"], r["defs"]), r["vars"])
    print(o)
    sys.exit(1 if C.fails_of(o) else 0)
finally:
    shutil.rmtree(w, ignore_errors=True)
