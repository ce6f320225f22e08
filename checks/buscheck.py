"""C01 to C08: programs on the real bus tree under the deterministic scheduler, validated against spec/Bus.tla."""
import json
import build, busprogs, sched, tlc
from common import Check

FOCUS = {
    "C01": [("deliver", 3), ("order", 1), ("all", 1)],
    "C02": [("order", 3), ("deliver", 1), ("all", 1)],
    "C03": [("content", 3), ("order", 1), ("all", 1)],
    "C04": [("delete", 3), ("all", 1)],
    "C05": [("stop", 4), ("all", 1)],
    "C06": [("names", 4), ("all", 1)],
    "C07": [("wake", 3), ("all", 1), ("stop", 1)],
    "C08": [("all", 4), ("delete", 1), ("stop", 1), ("names", 1), ("wake", 1)],
}

def annotate(t):
    """Adds to the first event what the trace specification wants to know beforehand, and names the buses that lookups return."""
    first, last, own, calls = {}, {}, {}, {}
    for i, e in enumerate(t):
        if e.get("e") == "cb":
            first.setdefault(e["v"], i + 1); last[e["v"]] = i + 1
        elif e.get("e") == "c":
            calls.setdefault(e["t"], []).append(e)
        elif e.get("e") == "r" and calls.get(e["t"]):
            c = calls[e["t"]].pop()
            if c["op"] == "child" and "h" in e:
                own[e.pop("h")] = c["b"]
    for e in t:
        if "h" in e:
            e["v"] = own.get(e.pop("h"), -2)
    seen, dup = set(), {}
    for e in t:
        if e.get("e") == "c" and "v" in e:
            if e["v"] in seen:
                dup[e["v"]] = 1
            seen.add(e["v"])
    for v in dup:                                   # several messages with the same payload: no hints about them
        if v in last: last[v] = 0
    t[0]["first"], t[0]["last"], t[0]["dup"] = first, last, dup
    t[0]["tops"] = sorted(set(e["top"] for e in t if e.get("op") == "sub"))
    return t

def bus_traces(check, driver, focus, progs, schedules, seed, mode):
    total = sum(w for _, w in focus)
    ps = []
    for fam, w in focus:
        ps += busprogs.programs(fam, seed, max(4, progs * w // total))
    traces, st = sched.run_driver(driver, ps, seed, schedules, mode)
    for k, v in st.items():
        check.add(k, v)
    return ps, traces

def rerunner(driver, mode):
    return None

def run(check):
    prop = check.prop
    driver = build.sched_driver("bus_driver")
    check.log("built")
    focus = FOCUS[prop]
    rounds = [(120, 20, 0), (40, 12, 1)] if not check.thorough else [(400, 60, 0), (400, 30, 1), (400, 60, 0), (400, 60, 0)]
    for n, (progs, schedules, mode) in enumerate(rounds):
        ps, traces = bus_traces(check, driver, focus, progs, schedules, check.seed + 17 * n, mode)
        check.log("round %d: %d programs, %d traces" % (n, len(ps), len(traces)))
        if n == 0:
            check.sample({"program": ps[-1]}, 1)
        v = sched.validate(check, "BusTrace", traces, annotate, keep_noise=prop == "C08")
        if v:
            break
        if n == 0:
            traces, st = sched.run_driver(driver, busprogs.big(prop, check.thorough), check.seed, 12 if check.thorough else 3, 0)
            check.log("large programs: %d traces, %d events" % (len(traces), sum(map(len, traces))))
            if sched.validate(check, "BusTrace", traces, annotate, keep_noise=prop == "C08", batch=3, timeout=60):
                break
        if prop == "C08" and n == 0:
            import rpccheck
            for mode in ((0, 1) if check.thorough else (0,)):
                ps, traces = rpccheck.traces(check, build.sched_driver("rpc_driver"), [("rpcall", 2), ("corr", 1), ("block", 1)], 60 if not check.thorough else 300, 8, check.seed, mode)
                check.log("action requests: %d programs, %d traces" % (len(ps), len(traces)))
                if sched.validate(check, "RPCTrace", traces, rpccheck.annotate, keep_noise=True):
                    return
    check.assumptions += ["schedules are sampled (random and priority-based), not exhausted; the memory model is sequential consistency plus a happens-before race detector",
                          "spec/Bus.tla is the specification that every recorded execution has to be a behaviour of"]
