#!/usr/bin/env python3
"""Replay a recorded counterexample against the real code in /repo: replay.py FILE"""
import sys, json, os, subprocess, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
d = json.load(open(sys.argv[1]))
t = tempfile.mkdtemp(prefix="sv-replay-")
try:
    src = os.path.join(check.V, "harness", d["unit"])
    exe = os.path.join(t, "r")
    san = "memory" if d["kind"] == "uninit" else "address,undefined"
    subprocess.check_call(["clang++"] + check.NFLAGS + ["-fsanitize=" + san] + check.opts(src) + check.INC + [src, os.path.join(check.V, "rt/native.cpp"), "-ldl", "-o", exe])
    with open(os.path.join(t, "in"), "w") as h:
        for n, v in d["inputs"]:
            h.write("%s %s\n" % (n.replace(" ", "_"), v))
    rc = subprocess.call([exe, d["entry"], ",".join(map(str, d["params"])) or "-", os.path.join(t, "in")], env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"))
    print("exit", rc)
    sys.exit(1 if rc else 0)
finally:
    shutil.rmtree(t)
