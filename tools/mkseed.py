#!/usr/bin/env python3
"""Development helper: mkseed(id, property, [(file, old, new)...], needs, breaks, demo_cpp) writes /verif/seeded/<id>/."""
import json, os, subprocess, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# run with cwd /repo after the build: exit 0 = behaviour intact
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d /tmp/demo.XXXXXX)
trap 'cd /; rm -rf "$tmp"' EXIT
g++ -std=gnu++11 -O1 -w -msse2 -DELPP_FEATURE_PERFORMANCE_TRACKING %s-I"$repo/src/lib" -I/usr/include/eigen3 "$here/demo.cpp" -o "$tmp/demo" \\
  "$repo/_build/src/lib/libnla3d_lib.so" "$repo/_build/src/lib/math/libmath.a" -Wl,-rpath,"$repo/_build/src/lib" || exit 2
cd "$tmp" && REPO="$repo" timeout 120 ./demo >log 2>&1
rc=$?
tail -3 log
exit $rc
'''


def mkseed(id, prop, edits, needs, breaks, demo, flags=""):
    d = f"{V}/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    w = "/tmp/sr_mk"
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
    for f, old, new in edits:
        p = f"{w}/{f}"
        s = open(p, "rb").read()
        crlf = b"\r\n" in s
        o, n = old.encode(), new.encode()
        if crlf:
            o, n = o.replace(b"\n", b"\r\n"), n.replace(b"\n", b"\r\n")
        assert s.count(o) == 1, (id, f, s.count(o))
        open(p, "wb").write(s.replace(o, n))
    diff = subprocess.run(["git", "-C", w, "diff", "--binary"], capture_output=True).stdout
    open(f"{d}/patch.diff", "wb").write(diff)
    open(f"{d}/demo.sh", "w").write(DEMO % flags)
    os.chmod(f"{d}/demo.sh", 0o755)
    open(f"{d}/demo.cpp", "w").write(demo)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
    shutil.rmtree(w, ignore_errors=True)
