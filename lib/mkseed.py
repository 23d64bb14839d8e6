#!/usr/bin/env python3
"""developer helper: reads a python file defining S = [dict(id, prop, edits=[(file, old, new)], needs, breaks, tiro=source | c=source)]
and writes /verif/seeded/<id>/; edits are checked against /repo's HEAD"""
import sys, os, subprocess, json, stat
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
R = "/tmp/sc/repo"
TIRO = '''#!/bin/bash
# every exported function "main" has to run without a panic
for t in "$(dirname "$0")"/*.tiro; do
  timeout 60 ./_build/bin/tiro_run --call main "$t" || exit 1
done
'''
C = '''#!/bin/bash
# the program has to exit with 0
d=$(mktemp -d) || exit 2
g++ -std=c++17 -g -Iinclude -I_build/include "$(dirname "$0")"/demo.cpp -o $d/demo -L_build/lib -ltiro -Wl,-rpath,$PWD/_build/lib || exit 3
timeout 120 $d/demo; rc=$?
rm -rf "$d"
exit $rc
'''
OBJS = C.replace("-Iinclude", "-fno-rtti -DFMT_SHARED -DTIRO_BUILDING_LIBRARY -Isrc -Iinclude").replace("-L_build/lib -ltiro -Wl,-rpath,$PWD/_build/lib", """$(find $PWD/_build/src -name '*.o' -path '*tiro_objects*') $(ls /usr/lib/x86_64-linux-gnu/libabsl_*.so) -lfmt""")
for s in ns["S"]:
    if only and s["id"] not in only: continue
    d = "/verif/seeded/" + s["id"]
    os.makedirs(d, exist_ok=True)
    orig = {}
    try:
        for f, old, new in s["edits"]:
            p = os.path.join(R, f)
            t = open(p).read()
            orig.setdefault(p, t)
            assert t.count(old) == 1, (s["id"], f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        diff = subprocess.check_output(["git", "-C", R, "diff"]).decode()
    finally:
        for p, t in orig.items(): open(p, "w").write(t)
    open(d + "/patch.diff", "w").write(diff)
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    if "tiro" in s:
        open(d + "/demo.tiro", "w").write(s["tiro"]); open(d + "/demo.sh", "w").write(TIRO)
    else:
        open(d + "/demo.cpp", "w").write(s["c"]); open(d + "/demo.sh", "w").write(OBJS if s.get("objs") else C)
    os.chmod(d + "/demo.sh", 0o755)
    print(s["id"], len(diff.splitlines()), "lines")
