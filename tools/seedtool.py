#!/usr/bin/env python3
"""Development helper (not a check): qualifies planted bugs and runs this property's check against them.

  seedtool.py ID...        for each: clean demo, patch applies, builds, stable tests pass, demo fails, check catches
Works in scratch copies of /repo, bind-mounted over /repo inside a private user namespace.
"""
import json, os, shutil, subprocess, sys, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/sr"


def ns(copy, cmd, log):
    with open(log, "a") as f:
        return subprocess.run(["unshare", "-Urm", "bash", "-c", f"mount --bind {copy} /repo && cd /repo && {cmd}"], stdout=f, stderr=f).returncode


def one(i):
    d, copy, log = f"{V}/seeded/{i}", f"{S}/{i}", f"{S}/{i}.log"
    os.makedirs(S, exist_ok=True)
    open(log, "w").close()
    shutil.rmtree(copy, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", copy], check=True)
    r = {"id": i}
    try:
        r["demo_clean"] = ns(copy, f"bash {d}/demo.sh", log)
        r["apply"] = subprocess.run(["git", "-C", copy, "apply", f"{d}/patch.diff"]).returncode
        if r["apply"]:
            return r
        r["build"] = ns(copy, "bash /opt/vp/build.sh", log)
        if not r["build"]:
            r["demo_patched"] = ns(copy, f"bash {d}/demo.sh", log)
            if "--notest" not in sys.argv:
                r["tests"] = ns(copy, f"bash /opt/vp/test.sh {copy}.json", log)
                try:
                    o = json.load(open(copy + ".json"))
                    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
                    r["lost"] = sorted(set(base) - set(o["passed"]))
                except Exception as e:
                    r["lost"] = str(e)
        prop = json.load(open(f"{d}/meta.json"))["property"]
        env = dict(os.environ, NLA3D_REPO=copy)
        with LOCK:
            p = subprocess.run(["python3", f"{V}/run_check.py", prop, "quick"], env=env, capture_output=True, text=True)
        r["check"] = p.returncode
        r["why"] = [l[:200] for l in p.stdout.splitlines() if "VIOLATION" in l][:1]
    finally:
        shutil.rmtree(copy, ignore_errors=True)
    ok = r["demo_clean"] == 0 and r.get("build") == 0 and r.get("demo_patched") not in (0, None) and not r.get("lost")
    r["verdict"] = ("QUALIFIES " if ok else "BAD ") + ("caught" if r.get("check") == 1 else "MISSED")
    return r


import threading
LOCK = threading.Lock()
if __name__ == "__main__":
    ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(f"{V}/seeded"))
    with cf.ThreadPoolExecutor(2) as ex:
        for r in ex.map(one, ids):
            print(r["verdict"] if "verdict" in r else "NO-APPLY", json.dumps(r), flush=True)
