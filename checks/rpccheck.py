"""C09 to C11: action requests on the real bus under the deterministic scheduler, validated against spec/RPC.tla."""
import build, rpcprogs, sched
FOCUS = {"C09": [("corr", 3), ("rpcall", 1)], "C10": [("block", 3), ("rpcall", 1)], "C11": [("prov", 3), ("rpcall", 1)]}

def annotate(t):
    first, last, calls, by = {}, {}, {}, {}
    def saw(v, i):
        first.setdefault(v, i + 1); last[v] = i + 1
    for i, e in enumerate(t):
        k = e.get("e")
        if k in ("pq", "rc"):
            saw(e["v"], i)
        elif k == "c":
            calls.setdefault(e["t"], []).append(e)
        elif k == "r" and calls.get(e["t"]):
            c = calls[e["t"]].pop()
            if c["op"] == "breq" and e["v"] != "e":
                saw(e["v"], i); by[e["v"]] = 1        # seen some time after it was delivered
    seen, dup = set(), {}
    for e in t:
        if e.get("e") == "c" and "v" in e:
            if e["v"] in seen:
                dup[e["v"]] = 1
            seen.add(e["v"])
    for v in dup:                                   # several messages with the same payload: no hints about them
        by[v] = 1
        if v in last: last[v] = 0
    us = 0
    for e in t[1:]:
        us = e.setdefault("us", us)
    t[0]["first"], t[0]["last"], t[0]["by"] = first, last, by
    return t

def traces(check, driver, focus, progs, schedules, seed, mode):
    total = sum(w for _, w in focus); ps = []
    for fam, w in focus:
        ps += rpcprogs.programs(fam, seed, max(4, progs * w // total))
    tr, st = sched.run_driver(driver, ps, seed, schedules, mode)
    for k, v in st.items():
        check.add(k, v)
    return ps, tr

def run(check):
    driver = build.sched_driver("rpc_driver")
    check.log("built")
    rounds = [(120, 16, 0), (60, 10, 1)] if not check.thorough else [(400, 60, 0), (400, 40, 1), (400, 60, 0)]
    for n, (progs, schedules, mode) in enumerate(rounds):
        ps, tr = traces(check, driver, FOCUS[check.prop], progs, schedules, check.seed + 17 * n, mode)
        check.log("round %d: %d programs, %d traces" % (n, len(ps), len(tr)))
        if n == 0:
            check.sample({"program": ps[-1]}, 1)
        if sched.validate(check, "RPCTrace", tr, annotate):
            break
        if n == 0:
            tr, st = sched.run_driver(driver, rpcprogs.big(check.prop), check.seed, 12 if check.thorough else 3, 0)
            check.log("large programs: %d traces, %d events" % (len(tr), sum(map(len, tr))))
            if sched.validate(check, "RPCTrace", tr, annotate, batch=3, timeout=60):
                break
    check.assumptions += ["schedules are sampled; time is virtual", "spec/RPC.tla is the specification that every recorded execution has to be a behaviour of"]
