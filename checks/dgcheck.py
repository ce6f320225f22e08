"""C12 to C18 and the deserialisation part of C25: operations on real datagrams and messages, validated against spec/Datagram.tla."""
import json, random, re
import build, cases, dgprogs, sched, tlc
FOCUS = {"C12": [("tree", 1200), ("large", 120), ("huge", 24)], "C13": [("alias", 900), ("large", 80), ("huge", 16)], "C14": [("equal", 350), ("bigequal", 60)], "C15": [("path", 500), ("bigpath", 80)],
         "C16": [("wire", 500), ("large", 120), ("huge", 24), ("vast", 1)], "C17": [("json", 1200), ("bigjson", 80), ("deepjson", 1)], "C18": [("trail", 1000)], "C29": [("print", 600), ("bigprint", 60)]}

def driver():
    return build.asan_driver("datagram_driver")

def run_family(check, family, n, seed):
    progs = dgprogs.programs(family, seed, n)
    traces = cases.run(driver(), progs)
    check.log("%s: %d programs" % (family, len(progs)))
    check.sample({"program": progs[-1][:12]}, 1)
    return sched.validate(check, "DatagramTrace", traces, lambda t: t, full_env=("FULL", "0", "0"))

def tidy(t):
    """TLC writes a function without arguments as a list."""
    if isinstance(t, dict):
        return {k: ({} if k == "d" and v == [] else tidy(v)) for k, v in t.items()}
    return [tidy(x) for x in t] if isinstance(t, list) else t

def exhaustive(check, depth, limit):
    """Every transition of spec/DatagramMC.tla up to a depth, performed on real datagrams."""
    out = tlc.run_tlc("DatagramMC", "DatagramMC.cfg" if depth == 3 else "DatagramMC4.cfg", workers=1, timeout=600, heap="6g")
    if out is None or "Model checking completed. No error" not in out:
        raise tlc.TlcError("DatagramMC: " + tlc.brief(out or "timeout"))
    g, d = tlc.stats(out)
    hists = [json.loads(json.loads('"%s"' % m)) for m in re.findall(r'^<<"CASE", "(.*)">>$', out, re.M)]
    texts = sorted(json.dumps(x)[:-1] for x in hists)
    maximal = [a for a, b in zip(texts, texts[1:] + ["~"]) if not b.startswith(a)]
    check.add("model_states", d); check.add("model_transitions", g); check.add("model_cases", len(maximal))
    if len(maximal) > limit:
        maximal = random.Random(check.seed).sample(maximal, limit)
    progs = [[{"tag": "model-%d" % i, "keys": ["61", "62"]}] + tidy(json.loads(x + "]")) for i, x in enumerate(maximal)]
    traces = cases.run(driver(), progs)
    check.log("model: %d states, %d transitions, %d cases performed" % (d, g, len(traces)))
    return sched.validate(check, "DatagramTrace", traces, lambda t: t, full_env=("FULL", "0", "0"))

def run(check):
    driver(); check.log("built")
    if check.prop in ("C12", "C13") and exhaustive(check, 4 if check.thorough else 3, 200000 if check.thorough else 12000):
        return
    for fam, n in FOCUS[check.prop]:
        for i in range(6 if check.thorough else 1):
            if run_family(check, fam, n * (4 if check.thorough else 1), check.seed + i):
                return
    check.assumptions += ["operation sequences are sampled; not-a-number is not used", "the recorded results come from an ASan/UBSan build; memory errors end the recording and are rejected"]
