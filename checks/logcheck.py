"""C27: the logger under the deterministic scheduler, validated against spec/Log.tla."""
import os, random
import build, sched

def programs(seed, n):
    ps = []
    for i in range(n):
        r = random.Random("log/%d/%d" % (seed, i))
        pres = r.sample(["A", "B", "", "a longer prefix", "x] y", "[", "PluginManager", "%s"], r.randint(1, 3))
        def text():
            k = r.random()
            if k < 0.08: return ""
            if k < 0.14: return "first\nsecond\n\nlast"
            if k < 0.2: return r.choice("xyz") * r.choice([15, 16, 100, 300, 300, 1100, 5000])
            if k < 0.26: return r.choice(["\n", "%d %s", "tab\there", "  spaces  ", "[A] fake", "\"quoted\" \\"])
            return r.choice(["one", "two", "three", "starting", "stopping", "Instantiating plugin"]) + " %d" % r.randrange(4)
        thr = []
        for t in range(r.choice([1, 2, 2, 3, 3, 4])):
            thr.append("thr " + " ".join("%s:%d:%d:%s" % (r.choice("IWEiwe123"), r.randrange(len(pres)), r.choice([0, 0, 0, 1, 1, 2, 3, 7, -1, -5]), text().encode().hex()) for _ in range(r.randint(1, 4))))
        ps.append("prog log-%d-%d\n%s\n%s\n" % (seed, i, "\n".join("pre " + p.encode().hex() for p in pres), "\n".join(thr)))
    return ps

def annotate(t):
    t[0]["out"] = [e["s"] for e in t if e.get("e") == "line"]
    a = [e for e in t if e.get("e") not in ("line",)]
    for e in a:
        if e.get("e") == "c":
            e["tx"] = e["tx"].split("%0a")
    return a

def driver():
    own = [os.path.join(build.H, "log_copy.cpp")] + [s for s in build.lib_sources() if "/log/" in s]
    return build.sched_driver("log_driver", libs=[build.shared("log_copy", [(s, "tsan", ["-fPIC"]) for s in own])])

def run(check):
    driver(); check.log("built")
    for n, (progs, schedules, mode) in enumerate([(250, 20, 0), (150, 20, 1)] if not check.thorough else [(1500, 60, 0), (1500, 60, 1)]):
        ps = programs(check.seed + 31 * n, progs)
        tr, st = sched.run_driver(driver(), ps, check.seed, schedules, mode)
        for k, v in st.items():
            check.add(k, v)
        check.log("round %d: %d programs, %d traces" % (n, len(ps), len(tr)))
        if n == 0: check.sample({"program": ps[-1]}, 1)
        if sched.validate(check, "LogTrace", tr, annotate, full_env=("FULL", "0", "0")):
            break
    check.assumptions += ["schedules are sampled; other threads can come between any two calls of the output functions of the C and C++ libraries, but not into one"]
