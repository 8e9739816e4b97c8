"""Monitor runtime for harnesses written in Python: same protocol as mon.h."""
import hashlib, json, mmap, os, random, struct, sys, traceback


class Mon:
    def __init__(self):
        self.events, self.maxima, self.failcount, self.failures = {}, {}, {}, set()
        self.sigs, self.samples, self.executed = set(), [], 0
        self.cur, self.case_sig, self.context = 0, "", ""
        self.out, self.prog = None, None

    def ev(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def sig(self, s):
        self.case_sig += s + ";"

    def note(self, s):
        self.context = s

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append("case %d: %s" % (self.cur, s))

    def fail(self, key, msg):
        self.failcount[key] = self.failcount.get(key, 0) + 1
        if key in self.failures:
            return
        self.failures.add(key)
        clean = lambda t: " ".join(str(t).split())
        self.out.write("FAIL\t%d\t%s\t%s\t%s\n" % (self.cur, key, clean(msg), clean(self.context)))
        self.out.flush()

    def check(self, key, cond, msg=""):
        if not cond:
            self.fail(key, msg)
        return bool(cond)

    def same(self, key, got, want, msg=""):
        """exact equality of numbers or lists of numbers"""
        return self.check(key, got == want, "%s got %r expected %r" % (msg, got, want))

    def near(self, key, got, want, tol, msg=""):
        d = abs(got - want)
        if got == want:
            return True
        if not d <= tol:
            self.fail(key, "%s got %r expected %r |diff| %g > tol %g" % (msg, got, want, d, tol))
            return False
        k = "max_dev_over_tol:" + key
        self.maxima[k] = max(self.maxima.get(k, 0.0), d / tol)
        return True

    def raises(self, key, exc, what, fn):
        try:
            v = fn()
        except exc:
            self.ev("refusals")
            return True
        except Exception as e:
            self.fail(key, "%s: %s instead of %s" % (what, type(e).__name__, exc))
            return False
        self.fail(key, "%s: accepted, gives %s" % (what, type(v).__name__))
        return False


class Rng(random.Random):
    def irange(self, a, b):
        return self.randint(a, b)

    def chance(self, p):
        return self.random() < p

    def logrange(self, a, b):
        import math
        return math.exp(self.uniform(math.log(a), math.log(b)))

    def sign(self):
        return 1.0 if self.chance(0.5) else -1.0

    def value(self):
        return self.choice([0.0, 1.0, self.sign() * self.logrange(1e-6, 1e6), self.uniform(-1, 1), self.uniform(-1, 1)])


def main(mon, quick, thorough, run):
    a = dict(zip(sys.argv[1::2], sys.argv[2::2]))
    seed, tier = int(a.get("--seed", 1)), a.get("--tier", "quick")
    begin, stride, end = int(a.get("--begin", 0)), int(a.get("--stride", 1)), thorough if tier == "thorough" else quick
    if "--only" in a:
        begin, end, stride = int(a["--only"]), int(a["--only"]) + 1, 1
    mon.out = open(a["--out"], "a") if "--out" in a else sys.stdout
    if "--progress" in a:
        f = open(a["--progress"], "w+b")
        f.write(struct.pack("<QQ", (1 << 64) - 1, 0))
        f.flush()
        mon.prog = mmap.mmap(f.fileno(), 16)
    done = 0
    for c in range(begin, end, stride):
        mon.cur, mon.case_sig, mon.context = c, "", ""
        done += 1
        if mon.prog:
            mon.prog[0:16] = struct.pack("<QQ", c, done)
        try:
            run(Rng(seed * 1000003 + c * 7919 + 17), c)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            mon.fail("exception:" + type(e).__name__, "%s at %s:%d %s" % (e, os.path.basename(tb[-1].filename), tb[-1].lineno, tb[-1].line))
        mon.executed += 1
        if mon.case_sig:
            mon.sigs.add(hashlib.sha1(mon.case_sig.encode()).hexdigest()[:16])
        if done % 50 == 0:
            dump(mon)
    dump(mon)
    if mon.prog:
        mon.prog[0:16] = struct.pack("<QQ", (1 << 64) - 2, done)
    mon.out.flush()
    sys.stdout.flush()
    os._exit(1 if mon.failures else 0)


def dump(mon):
    mon.out.write("DONE\t" + json.dumps(dict(executed=mon.executed, events=mon.events, maxima=mon.maxima, failcount=mon.failcount,
                                             sigs=sorted(mon.sigs), samples=mon.samples)) + "\n")
    mon.out.flush()
    mon.events, mon.maxima, mon.failcount, mon.sigs, mon.executed = {}, {}, {}, set(), 0
    mon.samples = ["", "", ""][:0] if not mon.samples else []
