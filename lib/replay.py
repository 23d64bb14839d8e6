#!/usr/bin/env python3
"""replay.py FILE: runs a recorded counterexample against the native build of the current /repo tree"""
import json, os, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
r = json.load(open(sys.argv[1]))
d, e = build.harness(r["harness"], r["defines"])
with tempfile.TemporaryDirectory() as w:
    open(w + "/in", "w").write(r["inputs"])
    env = dict(os.environ, SYMX_INPUTS=w + "/in", SYMX_OBS=w + "/obs", SYMX_LOG="1")
    cmd = [d + "/native"]
    if r["kind"] == "memory": cmd = ["valgrind", "-q", "--error-exitcode=45"] + cmd
    try:
        rc = subprocess.run(cmd, env=env, cwd=w, timeout=120).returncode
    except subprocess.TimeoutExpired:
        rc = "timeout"
print("exit status", rc, "(42: property violated)")
sys.exit(0 if rc == 0 else 1)
