"""C31: instances of the system information plugin under the deterministic scheduler, validated against spec/SysInfo.tla."""
import os, random, re
import build, sched

PUB = [1, 5, 9, 3, 7, 4, 8, 2, 6, 5001, 6001, 7001, 8001, 9001, 10005, 10006, 10007, 10008, 10010]
def programs(seed, n):
    ps, heads = [], {}
    for i in range(n):
        r = random.Random("sysinfo/%d/%d" % (seed, i)); tag = "sysinfo-%d-%d" % (seed, i)
        inst = [r.choice("1110-sin") for _ in range(r.choice([1, 1, 1, 2, 2, 3]))]
        reqs = iter(range(1, 100))
        def op():
            p = r.random()
            if p < 0.4: return "pub /sysinfo %d" % r.choice(PUB)
            if p < 0.7: return "req %d %d" % (next(reqs), r.choice(PUB + [10001, 10004]))
            if p < 0.85: return "pub /sysinfoaction/request %d" % r.choice([10001, 10002, 10003, 10004, 10009, 1, 3, 10005])
            if p < 0.93: return "pub %s %d" % (r.choice(["/other", "/sysinfo/x", "/sysinfoaction", "/sysinfoaction/response", "/sys", "/Sysinfo"]), r.choice(PUB + [10001, 10011]))
            return "sleep %d" % r.choice([100, 1000000, 2000000, 2000100])
        thr = [[op() for _ in range(r.randint(1, 4))] for _ in range(r.choice([1, 2, 2, 3]))]
        if r.random() < 0.25:         # the same again and again; many in a row
            v = r.choice(PUB + [10001]); many = r.random() < 0.3; n = 24 if many else r.choice([3, 4, 6])
            what = r.choice(["req", "req", "pub"])
            thr[r.randrange(len(thr))] += ["req %d %d" % (next(reqs), v if not many or i % 2 else r.choice(PUB)) if what == "req" else "pub /sysinfo %d" % v for i in range(n)]
        last = ["sleep %d" % r.choice([100, 100, 1500000, 2500000, 4100000, 7000000])] + ([op()] if r.random() < 0.3 else [])
        ps.append("\n".join(["prog " + tag] + ["inst " + x for x in inst] + ["thr " + "; ".join(t) for t in thr + [last]]) + "\n")
        heads[tag] = [{"name": "SysInfo%d" % j, "send": x == "1"} for j, x in enumerate(inst)]
    return ps, heads

def annotator(heads):
    def annotate(t):
        out = []
        for e in t:
            if e.get("e") == "line":
                m = re.match(r"^\[(SysInfo\d+)\] (.*)$", e["s"])
                if m: out.append({"pre": m.group(1), "tx": m.group(2)})
                elif out: out[-1]["tx"] += "%0a" + e["s"]
                else: out.append({"pre": "?", "tx": e["s"]})
        a = [e for e in t if e.get("e") != "line"]
        for e in a:
            if e.get("op") == "pub": e["snd"] = "env"
        h = a[0]
        ids, ins = {"none": []}, [(j, e["id"]) for j, e in enumerate(a) if e.get("e") == "in" and e["top"] == "/sysinfoaction/response"]
        for j, e in enumerate(a):
            if e.get("e") == "rc" and str(e["r"]) not in ids: ids[str(e["r"])] = [x for k, x in ins if k < j][-1:] + [x for k, x in ins if k > j][:1]
        a[0] = {"tag": h["tag"], "inst": heads[h["tag"]], "out": out, "ids": ids, "obs": [{x: e[x] for x in ("snd", "top", "tx", "p", "id")} for e in a if e.get("e") == "in"]}
        return a
    return annotate

def driver():
    d = os.path.join(build.REPO, "src", "plugins", "sysinfo")
    return build.sched_driver("sysinfo_driver", extra_srcs=[os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".cpp")], extra=["-I", os.path.join(build.REPO, "src")])

def run(check):
    driver(); check.log("built")
    for n, (progs, schedules) in enumerate([(200, 10)] if not check.thorough else [(1200, 40)] * 3):
        ps, heads = programs(check.seed + 31 * n, progs)
        tr, st = sched.run_driver(driver(), ps, check.seed, schedules, 0)
        for k, v in st.items():
            check.add(k, v)
        check.log("round %d: %d programs, %d traces" % (n, len(ps), len(tr)))
        if n == 0: check.sample({"program": ps[-1]}, 1)
        if sched.validate(check, "SysInfoTrace", tr, annotator(heads), full_env=("FULL", "0", "0")):
            break
    check.assumptions += ["schedules are sampled; time only passes when nothing can happen without it"]
