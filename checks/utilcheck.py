"""C26, C28, C30, C32 and C33: paths and files, configurations, byte buffers, failures, settings, validated against spec/Utilities.tla."""
import itertools, random
import build, cases, sched

def hx(s):
    return (s if isinstance(s, bytes) else s.encode()).hex()

def f_paths(r):
    ops = []
    ab = ["/", "/", ".", "a", "b.c", "..", ".hidden", "x.tar.gz", "no", " ", "ü", "A.B.", ".", "\\", "\n"]
    for _ in range(40):
        p = "".join(r.choice(ab) for _ in range(r.randint(0, 8)))
        if "/" not in p: p = r.choice([p + "/", "/" + p, "a/" + p, p + "/x.y"])
        ops.append({"op": "split", "p": hx(p)})
    for _ in range(10):
        ops.append({"op": "combine", "p": hx("".join(r.choice(ab) for _ in range(r.randint(0, 4)))), "q": hx("".join(r.choice(ab) for _ in range(r.randint(0, 4))))})
    return {"files": 0}, ops

NAMES = ["a", "b", ".h", "x.y", "sp ace", "ü", "..x", "...", "-", "lib", "a.b"]
def f_files(r):
    ops, known = [], [[]]
    names = r.sample(NAMES, 6)
    def path():
        return r.choice(known) if r.random() < 0.6 else r.choice(known) + [hx(r.choice(names))]
    for _ in range(45):
        k = r.random()
        if k < 0.4:
            p = r.choice([x for x in known if len(x) < 4]) + [hx(r.choice(names))]
            kind = r.choice("ffdddlp")
            ops.append({"op": "make", "path": p, "k": kind, "to": r.choice(known) if kind == "l" else []})
            if kind == "l" and ops[-1]["to"] == p: ops[-1]["to"] = []
            if p not in known and kind != "l": known.append(p)
            elif kind == "l": known.append(p)
        elif k < 0.45 and len(known) > 1:
            p = r.choice([q for q in known if q])
            if all(True for _ in [0]): ops.append({"op": "delete", "path": p})
        elif k < 0.5: ops.append({"op": "cd", "path": r.choice(known)})
        elif k < 0.55: ops.append({"op": r.choice(["cwd", "cwd", "exe"])})
        elif k < 0.8: ops.append({"op": r.choice(["exists", "isfile", "isdir"]), "path": path(), "rel": r.randrange(2)})
        else: ops.append({"op": "list", "path": path(), "filter": r.choice([1, 2, 3]), "rel": r.randrange(2)})
    return {"files": 1}, ops

def f_buffers(r):
    ops = []; large = r.random() < 0.06
    def data():
        n = r.choice([0, 0, 1, 1, 2, 3, 7, 8, 15, 16, 17, 64, 255, 256, 1000]) if not large or r.random() < 0.7 else r.choice([4095, 4096, 4097, 32768, 65535, 65536, 65537, 70000])
        return (bytes(n) if r.random() < 0.2 else bytes(r.randrange(256) for _ in range(n))).hex()
    for _ in range(8 if large else 30):
        b = r.choice("XYZ"); k = r.random()
        if k < 0.12: ops.append({"op": "bnew", "b": b})
        elif k < 0.25: ops.append({"op": "bmake", "b": b, "data": data()})
        elif k < 0.3: ops.append({"op": "bnull", "n": r.choice([0, 1, 5])})
        elif k < 0.34: ops.append({"op": "self", "b": b})
        elif k < 0.38: ops.append({"op": "drop", "b": b})
        else: ops.append({"op": "append", "b": b, "data": data()})
    return {"files": 0, "buffers": 1}, ops

def f_configs(r):
    ops = []; small = [[], ["a"], ["b"], ["a", "b"], ["b", "a"], ["a", "a"], ["ab"], [""], ["a", "b", "c"], ["a", "b", "d"]]
    pick = lambda: [hx(s) for s in r.choice(small)]
    for _ in range(12):
        base = {"paths": pick(), "bus": r.choice([-1, 0, 1]), "files": pick()}
        other = dict(base)
        for k in r.sample(["paths", "bus", "files"], r.choice([0, 1, 1, 1, 2])):
            other[k] = r.choice([-1, 0, 1, 2]) if k == "bus" else pick()
        ops.append(dict(base, op="cnew", c="P", form=r.randrange(2))); ops.append(dict(other, op="cnew", c="Q", form=r.randrange(2)))
        if r.random() < 0.3: ops.append({"op": "ccopy", "c": "Q", "o": "P"})
        for c, o in itertools.product("PQ", "PQ"):
            for w in (True, False): ops.append({"op": "csame", "c": c, "o": o, "whole": w})
    return {"files": 0}, ops

def f_failures(r):
    ops = []; ab = ["a", "b", "/", " ", "ü", "0", "key", "x", "\n", "\0", "-1", "name"]
    for c in ["child-duplicate", "child-missing", "key-missing", "nested-key-missing"] * 2:
        ops.append({"op": "fail", "c": c, "key": 1, "arg": hx("".join(r.choice(ab) for _ in range(r.choice([1, 1, 2, 3, 8, 300]))))})
    ops.append({"op": "fail", "c": r.choice(["key-missing", "nested-key-missing"]), "key": 1, "arg": ""})
    for c in ["index", "remove-index", "no-list"] * 2:
        ops.append({"op": "fail", "c": c, "arg": str(r.choice([0, 3, 4, 5, 9, 10, 63, 64, 100, 127, 128, 255, 256, 1000, 32768, 65535, 65536, 10 ** 6, 2 ** 31 - 1]))})
    for c in ["bus-noname", "named-bus-noname", "bus-nofunction", "child-noname", "bytes-null", "publisher-null", "request-null"]:
        ops.append({"op": "fail", "c": c, "arg": str(r.choice([1, 2, 7]))})
    r.shuffle(ops)
    return {"files": 0}, ops

def f_settings(r):
    ops = []
    for _ in range(25):
        c = r.choice("MN"); k = r.random()
        if k < 0.1: ops.append({"op": "snew", "c": c})
        elif k < 0.6: ops.append({"op": "sadd", "c": c, "p": hx(r.choice(["", "a", "b", "/a", "/a/", "b", "ü", " ", "a/../a", "a\0b", "x" * 500]))})
        else: ops.append({"op": "sget", "c": c})
    return {"files": 0}, [{"op": "snew", "c": "M"}, {"op": "sget", "c": "M"}] + ops + [{"op": "sget", "c": c} for c in "MN"]

FAMILIES = {"failures": f_failures, "settings": f_settings, "paths": f_paths, "files": f_files, "buffers": f_buffers, "configs": f_configs}
FOCUS = {"C26": [("paths", 300), ("files", 500)], "C28": [("configs", 250)], "C30": [("buffers", 600)], "C32": [("failures", 300)], "C33": [("settings", 300)]}

def all_configs():
    """Every pair of configurations over small parts."""
    parts = [{"paths": [hx(x) for x in p], "bus": b, "files": [hx(x) for x in f]} for p in ([], ["a"], ["a", "b"], ["b", "a"]) for b in (-1, 0, 1) for f in ([], ["a"], ["a", "b"], ["b", "a"])]
    progs = []
    for i, a in enumerate(parts):
        ops = [dict(a, op="cnew", c="P", form=i % 2)]
        for j, b in enumerate(parts):
            ops += [dict(b, op="cnew", c="Q", form=j % 2)] + [{"op": "csame", "c": "P", "o": "Q", "whole": w} for w in (True, False)]
        progs.append([{"tag": "every-%d" % i, "files": 0}] + ops)
    return progs

def driver():
    return build.asan_driver("util_driver")

def run(check):
    driver(); check.log("built")
    for fam, n in FOCUS[check.prop]:
        for s in range(5 if check.thorough else 1):
            progs = []
            for i in range(n * (4 if check.thorough else 1)):
                head, ops = FAMILIES[fam](random.Random("util/%s/%d/%d" % (fam, check.seed + s, i)))
                progs.append([dict(head, tag="%s-%d-%d" % (fam, check.seed + s, i))] + ops)
            if fam == "configs" and s == 0:
                progs += all_configs()
            traces = cases.run(driver(), progs)
            check.log("%s: %d programs" % (fam, len(progs))); check.sample({"program": progs[0][:12]}, 2)
            if sched.validate(check, "UtilitiesTrace", traces, lambda t: t, full_env=("FULL", "0", "0")):
                return
    check.assumptions += ["operation sequences are sampled (pairs of small configurations are exhausted)", "memory errors through ASan/UBSan"]
