#!/usr/bin/env python3
"""Builds /repo's working tree with sanitizers, runs the monitors of one property, writes evidence.

  run_check.py ID [quick|thorough]      the registered checks
  run_check.py ID --replay FILE         re-run the case(s) recorded in a replay file
  run_check.py ID --only N              run one case (debugging)

exit 0: no violation observed; exit 1 + VIOLATION line: violation; exit 2: the check itself failed.
"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("NLA3D_REPO", "/repo")
OUT = os.path.join(VERIF, "out")
HARN = os.path.join(VERIF, "harness")
NCPU = min(8, os.cpu_count() or 8)
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
import checks_conf as conf

BASE = ["-std=gnu++11", "-fPIC", "-msse2", "-w", "-DELPP_FEATURE_PERFORMANCE_TRACKING",
        "-I" + REPO + "/src", "-I" + REPO + "/src/lib", "-I/usr/include/eigen3"]
SAN = ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
       "-fno-sanitize-recover=all", "-ftrivial-auto-var-init=pattern",
       # indices of standard containers are checked
       "-D_GLIBCXX_ASSERTIONS"]
VARIANTS = {
    # ASan + UBSan, locals pre-filled with a pattern, heap blocks pre-filled (ASAN_OPTIONS below)
    "asan": dict(cxx="g++", flags=SAN, link=[]),
    # the same with the MKL (PARDISO) configuration switched on
    "asanmkl": dict(cxx="g++", flags=SAN + ["-DNLA3D_USE_MKL", "-I/usr/include/mkl"],
                    link=["-L/usr/lib/x86_64-linux-gnu", "-Wl,--no-as-needed", "-lmkl_intel_lp64", "-lmkl_sequential",
                          "-lmkl_core", "-lmkl_rt", "-lmkl_def", "-lpthread", "-lm", "-ldl"]),
    # no sanitizer (valgrind runs)
    "plain": dict(cxx="g++", flags=["-O1", "-g"], link=[]),
}
ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:malloc_fill_byte=255:max_malloc_fill_size=1048576:"
                    "free_fill_byte=253:max_free_fill_size=65536:detect_stack_use_after_return=0:handle_abort=0:"
                    "alloc_dealloc_mismatch=1:new_delete_type_mismatch=1:allocator_may_return_null=0:"
                    "detect_odr_violation=0:symbolize=1:max_allocation_size_mb=2000",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=98",
    "MKL_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "LC_ALL": "C.UTF-8",
    "PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
    "HOME": "/nonexistent", "PYTHONDONTWRITEBYTECODE": "1",
}


class CheckError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def lib_sources():
    res = []
    for sub in ("src/lib", "src/lib/math", "src/lib/materials", "src/lib/elements"):
        d = os.path.join(REPO, sub)
        if os.path.isdir(d):
            res += [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".cpp")]
    return res


def headers_digest(roots):
    parts = []
    for root in roots:
        for dp, dn, fn in os.walk(root):
            for f in sorted(fn):
                if f.endswith((".h", ".hpp", ".inl", ".tpp")):
                    p = os.path.join(dp, f)
                    parts += [os.path.relpath(p, root), read(p)]
    return sha(*parts)


def compile_one(cxx, flags, src, hd, objdir):
    key = sha(cxx, " ".join(flags), src, read(src), hd)
    obj = os.path.join(objdir, os.path.basename(src).replace("+", "p") + "." + key + ".o")
    if os.path.exists(obj):
        return obj
    tmp = obj + ".tmp%d" % os.getpid()
    r = subprocess.run([cxx] + flags + ["-x", "c++", "-c", src, "-o", tmp], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise CheckError("compiling %s failed:\n%s" % (src, r.stdout[-4000:]))
    os.rename(tmp, obj)
    return obj


HEAVY = ["FEReaders.cpp", "INTER0.cpp", "INTER3.cpp", "TETRA0.cpp", "TRUSS3.cpp", "TRIANGLE4.cpp", "FESolver.cpp", "FEStorage.cpp",
         "VtkProcessor.cpp", "PLANE41.cpp", "SOLID81.cpp"]


def build(variant, harness_srcs, exe_name, extra_flags=(), std="gnu++14", lib="all"):
    """lib="math": try with the math part of the library only, fall back to all of it"""
    if lib != "all":
        try:
            return build_with(variant, harness_srcs, exe_name, extra_flags, std, lib)
        except CheckError as e:
            if "linking" not in str(e):
                raise
    return build_with(variant, harness_srcs, exe_name, extra_flags, std, "all")


def build_with(variant, harness_srcs, exe_name, extra_flags, std, lib):
    v = VARIANTS[variant]
    objdir = os.path.join(OUT, "obj", variant)
    os.makedirs(objdir, exist_ok=True)
    hd = headers_digest([os.path.join(REPO, "src")])
    hhd = headers_digest([os.path.join(REPO, "src"), HARN])
    flags = BASE + v["flags"]
    hflags = [f for f in flags if not f.startswith("-std=")] + ["-std=" + std, "-I" + HARN] + list(extra_flags)
    jobs = []
    for s in harness_srcs:
        jobs.append((v["cxx"], hflags, s, hhd))
    if lib != "none":
        libs = lib_sources()
        if lib == "math":
            libs = [p for p in libs if os.path.basename(os.path.dirname(p)) == "math" or os.path.basename(p) == "sys.cpp"]
        libs.sort(key=lambda p: (HEAVY.index(os.path.basename(p)) if os.path.basename(p) in HEAVY else 99))
        # the logging library is not under test: built without sanitizers
        nosan = [f for f in flags if not f.startswith(("-fsanitize", "-fno-sanitize", "-ftrivial"))]
        jobs += [(v["cxx"], flags, s, hd) for s in libs[:4]]
        jobs.append((v["cxx"], nosan, "/usr/include/easylogging++.cc", ""))
        jobs += [(v["cxx"], flags, s, hd) for s in libs[4:]]
    with cf.ThreadPoolExecutor(NCPU) as ex:
        objs = list(ex.map(lambda j: compile_one(j[0], j[1], j[2], j[3], objdir), jobs))
    # keep the uninstrumented object last: instrumented copies of inline functions win
    objs.sort(key=lambda o: "easylogging" in o)
    exe = os.path.join(OUT, "bin", variant, exe_name + "." + sha(*objs))
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        tmp = exe + ".tmp%d" % os.getpid()
        san = [f for f in v["flags"] if f.startswith("-fsanitize")]
        r = subprocess.run([v["cxx"], "-o", tmp] + san + objs + v["link"] + ["-lpthread"], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise CheckError("linking %s failed:\n%s" % (exe_name, r.stdout[-4000:]))
        os.rename(tmp, exe)
    return exe


def build_python_module():
    """Builds the Python module (SWIG wrapper and library) with sanitizers; returns its directory."""
    v = VARIANTS["asan"]
    objdir = os.path.join(OUT, "obj", "asan")
    os.makedirs(objdir, exist_ok=True)
    hd = headers_digest([os.path.join(REPO, "src")])
    swg = os.path.join(REPO, "python", "nla3d.swg")
    flags = BASE + v["flags"]
    gen = os.path.join(OUT, "swig", sha(REPO, read(swg), hd))

    def wrapper():
        if not os.path.exists(os.path.join(gen, "nla3d.py")):
            tmp = gen + ".tmp%d" % os.getpid()
            os.makedirs(tmp, exist_ok=True)
            r = subprocess.run(["swig", "-python", "-c++", "-I" + REPO + "/src", "-I" + REPO + "/src/lib", "-outdir", tmp,
                                "-o", os.path.join(tmp, "nla3d_wrapper.cxx"), swg], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                raise CheckError("swig failed:\n%s" % r.stdout[-4000:])
            if os.path.exists(gen):
                shutil.rmtree(tmp)
            else:
                os.rename(tmp, gen)
        wflags = [f for f in flags if f != "-O1"] + ["-O0", "-I" + conf.PYTHON_INCLUDE]
        return compile_one(v["cxx"], wflags, os.path.join(gen, "nla3d_wrapper.cxx"), hd, objdir)

    nosan = [f for f in flags if not f.startswith(("-fsanitize", "-fno-sanitize", "-ftrivial"))]
    with cf.ThreadPoolExecutor(NCPU) as ex:
        w = ex.submit(wrapper)
        libs = sorted(lib_sources(), key=lambda p: (HEAVY.index(os.path.basename(p)) if os.path.basename(p) in HEAVY else 99))
        objs = list(ex.map(lambda j: compile_one(v["cxx"], j[0], j[1], j[2], objdir),
                           [(flags, s, hd) for s in libs] + [(nosan, "/usr/include/easylogging++.cc", "")]))
        objs.insert(0, w.result())
    objs.sort(key=lambda o: "easylogging" in o)
    d = os.path.join(OUT, "bin", "python." + sha(*objs))
    if not os.path.exists(d):
        tmp = d + ".tmp%d" % os.getpid()
        os.makedirs(tmp)
        r = subprocess.run([v["cxx"], "-shared", "-o", os.path.join(tmp, "_nla3d.so"), "-fsanitize=address,undefined"] + objs + ["-lpthread"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise CheckError("linking the python module failed:\n%s" % r.stdout[-4000:])
        shutil.copy(os.path.join(gen, "nla3d.py"), tmp)
        os.rename(tmp, d)
    return d


def runtime_libs():
    return " ".join(subprocess.run(["g++", "-print-file-name=" + n], stdout=subprocess.PIPE, text=True, check=True).stdout.strip()
                    for n in ("libasan.so", "libubsan.so"))


def classify(text, rc):
    """Stable key for a process that ended abnormally."""
    m = re.search(r"SUMMARY: (\w+Sanitizer): (\S+)(?: (\S+?):?(\d+)?(?::\d+)? in ([^\n]+))?", text)
    if m:
        kind = m.group(2)
        loc = re.findall(r"#\d+ 0x[0-9a-f]+ in ([^\n]+?) (\S*/src/\S+?):(\d+)", text)
        ub = re.search(r"(\S*?/src/\S+?):(\d+):\d+: runtime error: ([^\n]+)", text)
        if ub:
            return "crash:ub:%s:%s" % (os.path.basename(ub.group(1)), re.sub(r"[0-9x]*[0-9a-f]{4,}|\d+", "N", ub.group(3))[:60])
        if loc:
            fn = re.sub(r"\(.*", "", loc[0][0]).replace("nla3d::", "").replace("math::", "")
            return "crash:%s:%s:%s" % (kind, os.path.basename(loc[0][1]), fn)
        return "crash:%s" % kind
    m = re.search(r"([\w./+-]+):(\d+): [^\n]*?Assertion [`'\"](.*?)[`'\"] failed", text, re.S)
    if m:
        return "crash:assert:%s:%s" % (os.path.basename(m.group(1)), m.group(3)[:60])
    m = re.search(r"FATAL[^\n]*?\]?\s([^\n]+)", text)
    if m:
        return "crash:fatal:" + re.sub(r"\d+", "N", m.group(1))[:80]
    m = re.search(r"what\(\):\s+([^\n]+)", text)
    if m:
        return "crash:exception:" + m.group(1)[:60]
    if rc is not None and rc < 0:
        return "crash:signal%d" % -rc
    return "crash:exit%s" % rc


class Result:
    def __init__(self):
        self.evals = 0
        self.events, self.maxima, self.failcount = {}, {}, {}
        self.sigs, self.samples = set(), []
        self.failures = []  # dict(key, case, msg, log)
        self.notes = []

    def merge_done(self, d):
        self.evals += d["executed"]
        for k, n in d["events"].items():
            self.events[k] = self.events.get(k, 0) + n
        for k, n in d["maxima"].items():
            if n is not None and n > self.maxima.get(k, -1):
                self.maxima[k] = n
        for k, n in d["failcount"].items():
            self.failcount[k] = self.failcount.get(k, 0) + n
        self.sigs.update(d["sigs"])
        self.samples += d["samples"]


def parse_out(path, res, variant, harness):
    if not os.path.exists(path):
        return
    with open(path, errors="replace") as f:
        for line in f:
            if line.startswith("FAIL\t"):
                p = line.rstrip("\n").split("\t")
                res.failures.append(dict(key=p[2], case=int(p[1]), msg=(p[3] if len(p) > 3 else "") + (" | " + p[4] if len(p) > 4 and p[4] else ""), harness=harness))
            elif line.startswith("DONE\t"):
                try:
                    res.merge_done(json.loads(line[5:]))
                except ValueError:
                    pass
    os.unlink(path)


MEMORY_LIMIT = 3 << 30  # per harness process with its children; the largest use of any harness is about 1.2 GB


PEAK = [0]


def resident(pid):
    """Resident memory of a process and its children."""
    total = 0
    try:
        with open("/proc/%d/statm" % pid) as f:
            total = int(f.read().split()[1]) * 4096
        with open("/proc/%d/task/%d/children" % (pid, pid)) as f:
            for c in f.read().split():
                total += resident(int(c))
    except (OSError, IndexError, ValueError):
        pass
    return total


def kill_tree(pid):
    try:
        with open("/proc/%d/task/%d/children" % (pid, pid)) as f:
            kids = [int(c) for c in f.read().split()]
    except (OSError, ValueError):
        kids = []
    try:
        os.kill(pid, signal.SIGKILL)
    except OSError:
        pass
    for k in kids:
        kill_tree(k)


def run_shard(exe, args, cwd, env, stall, deadline, wrapper=()):
    """Run a harness process; returns (rc, text, last_case, state) state in ok|crash|stall|deadline|memory."""
    prog = os.path.join(cwd, "progress")
    if os.path.exists(prog):
        os.unlink(prog)
    log = os.path.join(cwd, "log")
    with open(log, "wb") as lf:
        p = subprocess.Popen(list(wrapper) + [exe] + args + ["--progress", prog], cwd=cwd, env=env, stdout=lf, stderr=subprocess.STDOUT)
    last, tick = None, time.time()
    state = None
    while True:
        try:
            p.wait(0.2)
            break
        except subprocess.TimeoutExpired:
            pass
        now = time.time()
        cur = None
        try:
            cur = read(prog)
        except OSError:
            pass
        if cur != last:
            last, tick = cur, now
        if now - tick > stall:
            state = "stall"
        elif now > deadline:
            state = "deadline"
        used = resident(p.pid)
        PEAK[0] = max(PEAK[0], used)
        if used > MEMORY_LIMIT:
            state = "memory"
        if state:
            kill_tree(p.pid)
            p.wait()
            break
    case = None
    try:
        c = struct.unpack("<Q", read(prog)[:8])[0]
        if c < (1 << 63):
            case = c
    except (OSError, struct.error):
        pass
    text = read(log)[-60000:].decode(errors="replace")
    if state is None:
        finished = False
        try:
            finished = struct.unpack("<Q", read(prog)[:8])[0] == (1 << 64) - 2
        except (OSError, struct.error):
            pass
        state = "ok" if finished and p.returncode in (0, 1) else "crash"
    return p.returncode, text, case, state


def run_harness(pid, h, tier, seed, res, scratch, only=None):
    variant = h.get("variant", "asan")
    env = dict(ENV)
    wrapper = h.get("wrapper", ())
    if "script" in h:
        exe = os.path.join(HARN, h["script"])
        wrapper = (conf.PYTHON,)
        env.update(PYTHONPATH=build_python_module(), LD_PRELOAD=runtime_libs(), PYTHONMALLOC="malloc", PYTHONHASHSEED="0")
    else:
        exe = build(variant, [os.path.join(HARN, s) for s in h["src"]], h["name"], h.get("flags", ()), lib=h.get("lib", "all"))
    for k, v in h.get("env", {}).items():
        if k.endswith("+"):
            env[k[:-1]] = env.get(k[:-1], "") + v
        else:
            env[k] = v
    env["NLA3D_REPO"] = REPO
    env["VERIF_DIR"] = VERIF
    shards = 1 if only is not None else h.get("shards", NCPU)
    stall = h.get("stall", 60)
    deadline = time.time() + h.get("budget", {}).get(tier, 300 if tier == "quick" else 5400)
    t0 = time.time()

    def shard(i):
        cwd = os.path.join(scratch, "%s.%d" % (h["name"], i))
        os.makedirs(cwd, exist_ok=True)
        outp = os.path.join(cwd, "out.txt")
        begin, crashes = i, 0
        local = Result()
        while True:
            args = ["--seed", str(seed), "--tier", tier, "--begin", str(begin), "--stride", str(shards), "--out", outp]
            if only is not None:
                args = ["--seed", str(seed), "--tier", tier, "--only", str(only), "--out", outp]
            rc, text, case, state = run_shard(exe, args, cwd, env, stall, deadline, wrapper)
            parse_out(outp, local, variant, h["name"])
            if state == "ok":
                break
            if state == "deadline":
                local.notes.append("%s shard %d stopped at its time budget" % (h["name"], i))
                break
            if state == "stall":
                # confirm alone, with a longer limit
                if case is None:
                    local.failures.append(dict(key="hang", case=-1, msg="no progress", log=text, harness=h["name"]))
                    break
                rc2, text2, c2, st2 = run_shard(exe, ["--seed", str(seed), "--tier", tier, "--only", str(case), "--out", outp], cwd, env,
                                                3 * stall, time.time() + 4 * stall, wrapper)
                parse_out(outp, local, variant, h["name"])
                hangs = st2 in ("stall", "deadline")
                if hangs:
                    local.failures.append(dict(key="hang", case=case, msg="case does not terminate within %d s" % (3 * stall), log=text2, harness=h["name"]))
                elif st2 == "crash":
                    local.failures.append(dict(key=classify(text2, rc2), case=case, msg=tail(text2), log=text2, harness=h["name"]))
                elif st2 == "memory":
                    local.failures.append(dict(key="memory", case=case, msg="uses over 3 GB", log=text2, harness=h["name"]))
                if hangs:
                    break  # others would take as long
            elif state == "memory":
                local.failures.append(dict(key="memory", case=-1 if case is None else case, msg="uses over 3 GB", log=text, harness=h["name"]))
            else:
                local.failures.append(dict(key=classify(text, rc), case=-1 if case is None else case, msg=tail(text), log=text, harness=h["name"]))
            crashes += 1
            if case is None or only is not None or crashes >= h.get("max_crashes", 6):
                break
            begin = case + shards
        shutil.rmtree(cwd, ignore_errors=True)
        return local

    with cf.ThreadPoolExecutor(shards) as ex:
        for local in ex.map(shard, range(shards)):
            res.merge_done(dict(executed=local.evals, events=local.events, maxima=local.maxima, failcount=local.failcount,
                                sigs=list(local.sigs), samples=local.samples))
            res.failures += local.failures
            res.notes += local.notes
    for e in h.get("require", []):
        if only is None and not res.events.get(e):
            res.notes.append("REQUIRED-EVENT-MISSING " + e)
    res.notes.append("%s: run %.1f s" % (h["name"], time.time() - t0))
    res.notes.append("%s: largest process %d MB" % (h["name"], PEAK[0] >> 20))


def tail(text):
    lines = [l for l in text.strip().splitlines() if l.strip()]
    pick = [l for l in lines if re.search(r"ERROR: |runtime error|Assertion|FATAL|what\(\)|SUMMARY", l)]
    return " / ".join((pick or lines)[-3:])[:600]


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    with open(p) as f:
        return json.load(f)


def main():
    if sys.argv[1:] == ["--selftest"]:
        # nothing to install: every check builds what it needs from /repo's current tree
        subprocess.run(["g++", "--version"], check=True, stdout=subprocess.DEVNULL)
        print("toolchain ok; %d checks configured" % len(conf.CHECKS))
        return 0
    if len(sys.argv) < 2 or sys.argv[1] not in conf.CHECKS:
        print("usage: run_check.py ID [quick|thorough]; IDs: " + " ".join(sorted(conf.CHECKS)))
        return 2
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    only, replay = None, None
    a = sys.argv[2:]
    while a:
        x = a.pop(0)
        if x in ("quick", "thorough"):
            tier = x
        elif x == "--only":
            only = int(a.pop(0))
        elif x == "--replay":
            replay = json.load(open(a.pop(0)))
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    c = conf.CHECKS[pid]
    os.makedirs(OUT, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="run-%s-" % pid, dir=OUT)
    res = Result()
    try:
        for h in c["harnesses"]:
            if replay:
                if h["name"] != replay["harness"]:
                    continue
                if replay.get("case", -1) >= 0:
                    only = replay["case"]
                tier, seed = replay["tier"], replay["seed"]
            if "py" in h:
                h["py"](h, res, dict(tier=tier, seed=seed, scratch=scratch, repo=REPO, verif=VERIF, env=ENV, only=only, build=build,
                                     classify=classify, ncpu=NCPU, harn=HARN, CheckError=CheckError))
            else:
                run_harness(pid, h, tier, seed, res, scratch, only)
    except CheckError as e:
        print("CHECK-ERROR property=%s %s" % (pid, e))
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    known = [k for k in load_known().get("known", []) if k["property"] == pid]
    new, seen_known = [], {}
    for f in res.failures:
        hit = None
        for k in known:
            if re.fullmatch(k["key"], f["key"]) and (not k.get("msg") or re.search(k["msg"], f["msg"])):
                hit = k
                break
        if hit:
            seen_known.setdefault(hit["what"], 0)
            seen_known[hit["what"]] += 1
        else:
            new.append(f)
    for k in known:
        if k["what"] in seen_known:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    missing = [n for n in res.notes if n.startswith("REQUIRED-EVENT-MISSING")]

    rc = 0
    if new:
        rdir = os.path.join(OUT, "replay")
        os.makedirs(rdir, exist_ok=True)
        done = set()
        for f in new:
            if f["key"] in done:
                continue
            done.add(f["key"])
            rp = os.path.join(rdir, "%s-%s.json" % (pid, re.sub(r"[^A-Za-z0-9_.-]+", "_", f["key"])[:80]))
            with open(rp, "w") as o:
                json.dump(dict(property=pid, key=f["key"], case=f["case"], msg=f["msg"], harness=f.get("harness"), tier=tier, seed=seed,
                               log=f.get("log", "")[-20000:], replay_cmd="python3 run_check.py %s --replay %s" % (pid, rp)), o, indent=1)
            print("VIOLATION property=%s replay=%s" % (pid, rp))
            print("  key=%s case=%s n=%s: %s" % (f["key"], f["case"], res.failcount.get(f["key"], 1), f["msg"][:600]))
        rc = 1
    wall = time.time() - t0
    if only is None and replay is None:
        ev = dict(property=pid, tier=tier, seed=seed, level="exploration",
                  coverage=dict(evaluations=res.evals, distinct_nontrivial=len(res.sigs), rule=c["rule"], samples=res.samples[:6] or ["(none)"],
                                observed_events=dict(sorted(res.events.items())),
                                closest_to_tolerance=dict(sorted(res.maxima.items(), key=lambda kv: -kv[1])[:12])),
                  assumptions=c.get("assumptions", []), wall_s=round(wall, 2), violations=len({f["key"] for f in new}),
                  notes=res.notes, known_findings_seen=seen_known)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    if rc == 0 and only is None and replay is None and (missing or res.evals == 0 or not res.sigs):
        print("CHECK-ERROR property=%s nothing observed: %s" % (pid, "; ".join(missing) or "no cases"))
        return 2
    print("%s property=%s tier=%s evaluations=%d distinct=%d wall=%.1fs %s" % ("OK" if rc == 0 else "FAILED", pid, tier, res.evals, len(res.sigs), wall,
                                                                           " ".join(n for n in res.notes)))
    return rc


if __name__ == "__main__":
    sys.exit(main())
