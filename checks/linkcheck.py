"""C24 and the frames of C25: linked hosts, validated against spec/Link.tla; under the deterministic scheduler with a stand-in
for libzmq, and with libzmq itself."""
import os, random
import build, dgcheck, sched

TOPICS = ["/t", "/u", "/sysinfo", "/a/b", "/a/request", "/a/response", "/**/*", "Link0", "/" + "x" * 300]

class Gen:
    def __init__(self, rng, real):
        self.r, self.real = rng, real
        self.links, self.conf = [], []
    def new(self, h):
        self.links.append({"h": h, "name": "Link%d" % sum(1 for l in self.links if l["h"] == h), "srv": False, "spub": 6967, "ssub": 6968, "cli": False, "cpub": 6968, "csub": 6967})
        return self.links[-1]
    def topology(self, hosts, edges):
        r = self.r; servers = 0
        for a, b in edges:
            s, c = (a, b) if r.random() < 0.5 else (b, a)
            sl = [l for l in self.links if l["h"] == s and l["srv"]]
            if sl and r.random() < 0.7: L = r.choice(sl)
            else:
                free = [l for l in self.links if l["h"] == s and not l["srv"]]
                L = r.choice(free) if free and r.random() < 0.35 else self.new(s)
                L["srv"] = True
                if servers or self.real: L["spub"], L["ssub"] = 7000 + 2 * servers, 7001 + 2 * servers
                servers += 1
            free = [l for l in self.links if l["h"] == c and not l["cli"] and l is not L]
            K = r.choice(free) if free and r.random() < 0.3 else self.new(c)
            K["cli"] = True; K["cpub"], K["csub"] = L["ssub"], L["spub"]
        if r.random() < 0.15 and not self.real:
            self.new(r.choice(range(hosts)))          # a link without a role
    def lines(self):
        r = self.r; out = []
        for l in self.links:
            c = []
            if l["srv"]:
                c.append("server-role/enabled=b:1")
                if l["spub"] != 6967 or r.random() < 0.3: c.append("server-role/port-pub=i:%d" % l["spub"])
                if l["ssub"] != 6968 or r.random() < 0.3: c.append("server-role/port-sub=i:%d" % l["ssub"])
                if self.real or r.random() < 0.3: c.append("server-role/interface=s:" + ("127.0.0.1" if self.real else r.choice(["*", "127.0.0.1"])))
            elif r.random() < 0.3:
                c += ["server-role/enabled=b:0", "server-role/port-pub=i:6967"]
            if l["cli"]:
                c.append("client-role/enabled=b:1")
                if l["cpub"] != 6968 or r.random() < 0.3: c.append("client-role/port-pub=i:%d" % l["cpub"])
                if l["csub"] != 6967 or r.random() < 0.3: c.append("client-role/port-sub=i:%d" % l["csub"])
                if r.random() < 0.3: c.append("client-role/server-host=s:127.0.0.1")
            elif r.random() < 0.3: c.append("client-role/port-sub=i:6967")
            out.append("link %d %s" % (l["h"], ",".join(c)))
        return out

def reaches(links, h, trail):
    """Number of times a message with this trail is seen when it is dispatched on host h."""
    n = 1
    for i, l in enumerate(links):
        if l["h"] != h or (len(trail) > 1 and trail[0] == l["name"]): continue
        for k in links:
            if k is not l and ((l["cli"] and k["srv"] and l["cpub"] == k["ssub"]) or (l["srv"] and k["cli"] and l["spub"] == k["csub"])):
                n += reaches(links, k["h"], [k["name"]] + trail)
    return n

def program(tag, seed, real, frames):
    r = random.Random(seed); hosts = r.choice([2, 2, 3, 3, 4])
    g = Gen(r, real); order = list(range(hosts)); r.shuffle(order)
    edges = [(order[i], r.choice(order[:i])) for i in range(1, hosts)]
    star = r.random() < 0.25
    if star: edges = [(order[i], order[0]) for i in range(1, hosts)]
    g.topology(hosts, edges)
    outs, vals, expect = [], iter(range(1, 500)), 0
    if frames:
        for i in range(r.choice([1, 1, 2])):
            l = r.choice([l for l in g.links if l["srv"] or l["cli"]])
            # libzmq would let an outsider bind the port a server has bound already, so outsiders only connect
            sv = [l for l in g.links if l["srv"]]; l = r.choice(sv)
            outs.append({"bind": False, "port": l["ssub"], "h": l["h"], "links": [k for k in g.links if k["srv"] and k["ssub"] == l["ssub"]]})
    def publish(h):
        nonlocal expect
        v = next(vals)
        if r.random() < 0.7:
            expect += reaches(g.links, h, ["app%d" % h]); return "pub %d %s %d" % (h, r.choice(TOPICS), v)
        trail = r.choice(["x", "Link0", "Link0/x", "Link1/x", "Link00/x", "x/Link0", "Link0/Link1/x", "Link/x", "link0/x", "root", "~", "Link1", "a/b/c"])
        expect += reaches(g.links, h, trail.replace("~", "").split("/")); return "bpub %d %s %s %d" % (h, trail, r.choice(TOPICS + ["~"]), v)
    def raw(c):
        nonlocal expect
        v = next(vals); m = "%%s:%s:%s:%d" % (trail, top, v) if False else None
        trail, top = r.choice(["far", "Link0/far", "Link1/far", "a/b", "~"]), r.choice(TOPICS)
        body = lambda k, n=0: "%s:%d:%s:%s:%d" % (k, n, trail, top, v)
        p = r.random()
        if p < 0.35: kind, fs = "good", [r.choice(["x:41", "x:41", "x:4142"]), body("m")]
        elif p < 0.45: kind, fs = "none", [r.choice(["x:42", "x:", "x:61"]), body("m")]
        elif p < 0.55: kind, fs = "none", r.choice([["x:41"], ["x:41", "x:"], ["x:41", "x:", "x:"]])
        elif p < 0.65: kind, fs = "good", r.choice([["x:41", body("1"), body("2")], ["x:41", body("m"), "x:"], ["x:41", "x:", body("m")]])
        elif p < 0.72: kind, fs = "any", ["x:41", body("m"), r.choice(["x:00", "x:ffff", body("m")])]
        elif p < 0.83: kind, fs = "any", ["x:41", body("t", r.randint(1, 400))]
        elif p < 0.93: kind, fs = "any", ["x:41", body("f", r.randint(0, 3000))]
        else: kind, fs = "any", ["x:41", "x:" + bytes(r.randrange(256) for _ in range(r.choice([1, 4, 8, 40, 200, 200, 5000, 9000]))).hex()]
        if kind == "good":
            for k in outs[c]["links"]: expect += reaches(g.links, k["h"], [k["name"]] + trail.replace("~", "").split("/"))
        return "raw %d %s %s %s %d %s" % (c, kind, trail, top, v, " ".join(fs))
    thr, threads = [], r.choice([1, 2, 3])
    for t in range(threads):
        thr.append([publish(r.randrange(hosts)) for _ in range(r.randint(1, 4))])
    for c in range(len(outs)):
        t = r.randrange(len(thr))
        new = [raw(c) for _ in range(r.randint(3, 7))]
        thr[t] = thr[t] + new if r.random() < 0.5 else new + thr[t]
    down = not frames and r.random() < 0.25
    if down: thr.append((["sleep %d" % r.choice([0, 500, 2000])] if not real else []) + ["down %d" % r.randrange(hosts)] + ([publish(0)] if r.random() < 0.5 else []))
    last = ["settle 60000 %d" % (-1 if down else expect)]
    if r.random() < 0.5:
        last += [publish(r.randrange(hosts)) for _ in range(2)] + ["settle 60000 %d" % (-1 if down else expect)]
    head = ["prog " + tag, "hosts %d" % hosts] + g.lines() + ["out %d connect %d %d" % (i, o["port"], o["h"]) for i, o in enumerate(outs)]
    return "\n".join(head + ["thr " + "; ".join(t) for t in thr + [last]]) + "\n", {"links": [dict(l, h=l["h"] + 1) for l in g.links], "hosts": hosts, "outs": [{"bind": o["bind"], "port": o["port"]} for o in outs]}

def annotator(heads):
    def annotate(t):
        h = heads[t[0]["tag"]]
        a = t
        for i, e in enumerate(t):
            if e.get("e") in ("misuse",) + sched.FATAL:
                a = t[:i + 1]; break
        for e in a:
            if "h" in e: e["h"] += 1
            if "c" in e: e["c"] += 1
            if "snd" in e: e["snd"] = e["snd"].split("/")
        a[0] = dict(h, tag=t[0]["tag"], mode=t[0]["mode"], obs=[[{"tr": e["snd"], "top": e["top"], "v": e["v"]} for e in a if e.get("e") == "in" and e["h"] == i + 1] for i in range(h["hosts"])])
        return a
    return annotate

PLUGINS = ["-I", os.path.join(build.REPO, "src"), "-DZMQ_BUILD_DRAFT_API"]
def sources():
    d = os.path.join(build.REPO, "src", "plugins", "link")
    return [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".cpp")]
def driver():
    return build.sched_driver("link_driver", extra_srcs=sources() + [os.path.join(build.H, "zmqstub", "zmqstub.cpp")], extra=PLUGINS)
def real_driver():
    return build.asan_driver("link_driver", extra_srcs=sources(), extra=PLUGINS + ["-DREAL"], libs=build.LIBS + ["-lzmq"])

def run(check):
    frames = check.prop == "C25"
    driver(); real_driver()
    if frames: dgcheck.driver()
    check.log("built")
    for i in range((8 if check.thorough else 1) if frames else 0):
        if dgcheck.run_family(check, "bytes", 3000 if check.thorough else 900, check.seed + i):
            return
    rounds = [(200 if not frames else 120, 10, 0), (60, 8, 1), (24 if not frames else 16, 0, 0)] if not check.thorough else [(1500, 30, 0), (800, 30, 1), (300, 0, 0)]
    for n, (progs, schedules, mode) in enumerate(rounds):
        ps, heads = [], {}
        for i in range(progs):
            tag = "%s-%d-%d" % ("link" if not frames else "frames", check.seed + n, i)
            p, heads[tag] = program(tag, "%s/%d" % (tag, n), schedules == 0, frames); ps.append(p)
        tr, st = sched.run_driver(driver() if schedules else real_driver(), ps, check.seed, max(schedules, 1), mode)
        for k, v in st.items():
            check.add(k, v)
        check.log("round %d%s: %d programs, %d traces" % (n, "" if schedules else " (libzmq)", len(ps), len(tr)))
        if n == 0: check.sample({"program": ps[-1]}, 1)
        again = None
        if not schedules:
            text = {p.split("\n")[0][5:]: p for p in ps}
            again = sched.again("LinkTrace", lambda t: sched.run_driver(real_driver(), [text[t[0]["tag"]]], check.seed, 1, mode)[0], annotator(heads))
        if sched.validate(check, "LinkTrace", tr, annotator(heads), full_env=("FULL", "0", "0"), rerun=again):
            return
    check.assumptions += ["topologies of up to four hosts without cycles", "harness/zmqstub stands for libzmq where schedules are explored; libzmq itself is used on the schedules the machine happens to take",
                          "schedules are sampled; spec/Link.tla is the specification that every recorded execution has to be a behaviour of"]
