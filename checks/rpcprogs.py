"""Action request programs (for harness/rpc_driver.cpp): consumers, providers, and other users of their topics."""
import random
from busprogs import text

class Gen:
    def __init__(self, rng, w, topics=2, timeouts=(5, 50, 100, 1000, 1000, 70000), **kw):
        self.r, self.w, self.timeouts = rng, w, timeouts
        self.topics = ["t%d" % i for i in range(topics)]
        self.v = 0; self.nr = 0; self.empty = False; self.dups = rng.random() < 0.12; self.empties = rng.random() < 0.3; self.cbs = []
    def val(self, empty=False):
        self.v += 1
        k = self.r.random()
        if self.dups and k > 0.75:
            return self.r.randint(1, self.v)
        if empty and k < 0.1 and not self.empty:
            self.empty = True
            return 5000
        if not empty and self.empties and k < 0.25: return 5000
        return self.v + (self.r.choice([6000, 7000, 8000, 9000]) if k > 0.95 else 0)
    def cb(self, ops):
        self.cbs.append(ops)
        return len(self.cbs) - 1

    def provider_script(self):
        """What a provider does when it is called: answer at once, twice, later (another thread does), never, or after a while."""
        r = self.r; s = []
        for n in range(1, 5):
            k = r.random()
            if k < 0.5: s.append("%d:now %d" % (n, self.val()))
            elif k < 0.6: s += ["%d:now %d" % (n, self.val()), "%d:now %d" % (n, self.val())]
            elif k < 0.75: s += ["%d:sleep %d" % (n, r.choice([100, 5000, 60000, 120000])), "%d:now %d" % (n, self.val())]
            elif k < 0.8: s.append("%d:respid 0 nobody %d" % (n, self.val()))
            elif k < 0.85 and self.consumers: s += ["%d:req %d %d %d %d" % (n, self.newreq(), r.choice(self.consumers)[0], self.val(), -1), "%d:now %d" % (n, self.val())]
        return s
    def newreq(self):
        self.nr += 1
        return self.nr - 1

    def op(self, mine):
        r = self.r
        kinds = [k for k in self.w if self.w[k] > 0]
        kind = r.choices(kinds, [self.w[k] for k in kinds])[0]
        if kind in ("req", "breq"):
            c = r.choice(self.consumers); q = self.newreq(); v = self.val(True)
            if self.provided(c[1]):
                mine.append((q, c[1])); self.known.append((q, c[1]))
            if kind == "req":
                k = -1
                if r.random() < 0.25:
                    k = self.cb(["1:req %d %d %d -1" % (self.newreq(), r.choice(self.consumers)[0], self.val())])
                elif r.random() < 0.2:
                    k = self.cb(["1:sleep %d" % r.choice([100, 60000])])
                elif r.random() < 0.15:
                    k = self.cb(["1:breq %d %d %d 50" % (self.newreq(), r.choice(self.consumers)[0], self.val())])
                return ["req %d %d %d %d" % (q, c[0], v, k)]
            return ["breq %d %d %d %d" % (q, c[0], v, r.choice(self.timeouts))]
        if kind == "resp":
            # a late, additional or only answer from another thread
            if not self.known: return []
            q, t = r.choice(self.known)
            p = [x for x in self.providers if x[1] == t or r.random() < 0.1]
            if not p: return []
            return (["sleep %d" % r.choice([10, 20000, 70000])] if r.random() < 0.3 else []) + ["resp %d %d %d" % (r.choice(p)[0], q, self.val())]
        if kind == "raw":
            t = r.choice(self.topics); b = r.choice(self.buses)
            spec = r.choice(["none", "int", "bool", "dict", "empty", "list", "value", "nothing", "foo", "bar"])
            if r.random() < 0.25 and mine:
                spec = "r%d" % r.choice(mine)[0]
            return ["raw %d %s %s %s %d" % (b, t, r.choice("qs"), spec, self.val())]
        if kind == "prov":
            p = len(self.providers); t = r.choice(self.topics)
            self.providers.append((p, t))
            return ["prov %d %d %s %d" % (p, r.choice(self.buses), t, self.cb(self.provider_script()))]
        if kind == "reqnull":
            return ["reqnull %d %d" % (r.choice(self.consumers)[0], self.val())]
        if kind == "sleep":
            return ["sleep %d" % r.choice([10, 1000, 60000, 200000])]
    def provided(self, topic):
        return any(t == topic for _, t in self.setup_providers)

    def make(self, tag):
        r = self.r
        t0 = ["bus 0 -1 root"]; self.buses = [0]
        for i in range(r.randint(0, 2)):
            b = len(self.buses); t0.append("bus %d %d c%d" % (b, r.choice(self.buses), b)); self.buses.append(b)
        self.consumers = []; self.providers = []; self.known = []; self.setup_providers = []
        for i in range(r.randint(1, 3)):
            t = r.choice(self.topics); self.consumers.append((i, t))
            t0.append("cons %d %d %s" % (i, r.choice(self.buses), t))
        for i in range(r.randint(1, 3)):
            t = r.choice([c[1] for c in self.consumers] + self.topics[:1]); p = len(self.providers); self.providers.append((p, t)); self.setup_providers.append((p, t))
            t0.append("prov %d %d %s %d" % (p, r.choice(self.buses), t, self.cb(self.provider_script())))
        # a request that is published before the bus runs (its first provider is known to see it)
        if r.random() < 0.3:
            t0 += [o for o in self.op([]) if o.startswith("req ") or o.startswith("raw")]
        thrs = [None, ["start"]]
        for i in range(r.randint(1, 3)):
            mine = []; t = []
            for j in range(r.randint(1, 4)):
                t += self.op(mine)
            thrs.append(t)
        order = ["spawn %d" % i for i in range(1, len(thrs))]
        r.shuffle(order)
        t0 += order + ["idle 0"]
        for i in range(r.randint(0, 2)):
            t0 += self.op([]) + ["idle 0"]
        t0 += ["idle 3000000", "stop", "idle 1000000"] + ["join %d" % i for i in range(1, len(thrs))]
        thrs[0] = t0
        return text(tag, thrs, self.cbs)

FAMILIES = {
    "corr": dict(w={"req": 4, "breq": 2, "resp": 3, "raw": 1.5, "reqnull": 0.3}),
    "block": dict(w={"breq": 5, "req": 1, "resp": 3, "sleep": 0.5, "raw": 0.5}),
    "prov": dict(w={"req": 3, "breq": 1, "raw": 4, "prov": 1.5, "resp": 1}),
    "rpcall": dict(w={"req": 3, "breq": 2, "raw": 1, "prov": 1, "resp": 2}),
}
HAND = {
 "corr": [
   text("emptyfirst", ["bus 0 -1 root; cons 0 0 t; cons 1 0 t; prov 0 0 t 0; prov 1 0 t -1; spawn 1; req 0 0 1 -1; idle 0; req 1 1 2 -1; idle 0; resp 1 0 21; resp 1 1 22; resp 1 0 5000; idle 0; stop; idle 1000000; join 1", "start"], ["1:now 5000; 2:now 5000"]),
   text("two", ["bus 0 -1 root; cons 0 0 t; cons 1 0 t; prov 0 0 t 0; spawn 1; spawn 2; spawn 3; idle 0; stop; idle 1000000; join 1; join 2; join 3", "start", "req 0 0 1 -1; req 1 1 2 -1", "req 2 0 3 -1; breq 3 1 4 1000"], ["1:now 11; 2:now 12; 3:now 13; 4:now 14"]),
   text("dup", ["bus 0 -1 root; cons 0 0 t; prov 0 0 t 0; prov 1 0 t 1; spawn 1; spawn 2; req 0 0 1 -1; idle 0; resp 0 0 21; resp 1 0 22; raw 0 t s r0 23; req 1 0 2 -1; idle 0; raw 0 t s r1 24; raw 0 u s r1 25; idle 0; stop; idle 1000000; join 1; join 2", "start", "resp 0 0 20"], ["1:now 11; 1:now 12; 2:now 15", "1:now 13; 2:now 16"]),
   text("othertopic", ["bus 0 -1 root; cons 0 0 t; cons 1 0 u; prov 0 0 t -1; prov 1 0 u -1; spawn 1; req 0 0 1 -1; req 1 1 2 -1; idle 0; resp 1 0 11; resp 0 1 12; idle 0; resp 0 0 13; resp 1 1 14; idle 0; stop; idle 1000000; join 1", "start"], []),
 ],
 "block": [
   text("empty", ["bus 0 -1 root; cons 0 0 t; prov 0 0 t 0; spawn 1; spawn 2; spawn 3; breq 0 0 1 1000; breq 1 0 2 50; req 2 0 3 -1; breq 3 0 4 1000; idle 0; join 2; join 3; resp 0 2 12; resp 0 0 13; idle 0; stop; idle 1000000; join 1", "start", "req 4 0 5 -1; breq 5 0 6 500", "sleep 10000; breq 6 0 7 70"], ["1:now 5000; 2:now 5000; 3:now 5000; 4:now 11; 5:now 5000; 6:now 5000; 7:now 5000"]),
   text("late", ["bus 0 -1 root; cons 0 0 t; prov 0 0 t -1; spawn 1; spawn 2; breq 0 0 1 50; breq 1 0 2 500; sleep 300000; stop; idle 1000000; join 1; join 2", "start", "waitreq 0; sleep 80000; resp 0 0 11; resp 0 1 12; resp 0 0 13"], []),
   text("edge", ["bus 0 -1 root; cons 0 0 t; prov 0 0 t -1; spawn 1; spawn 2; breq 0 0 1 50; idle 0; breq 1 0 2 50; idle 1000000; stop; idle 1000000; join 1; join 2", "start", "waitreq 0; sleep 50000; resp 0 0 11; waitreq 1; sleep 49000; resp 0 1 12"], []),
   text("never", ["bus 0 -1 root; cons 0 0 t; spawn 1; breq 0 0 1 50; breq 1 0 2 0; breq 2 0 3 1000; stop; idle 1000000; join 1", "start"], []),
   text("notrunning", ["bus 0 -1 root; cons 0 0 t; prov 0 0 t 0; breq 0 0 1 30; spawn 1; idle 0; breq 1 0 2 100; stop; idle 1000000; join 1", "start"], ["1:now 11; 2:now 12"]),
   text("many", ["bus 0 -1 root; cons 0 0 t; prov 0 0 t 0; spawn 1; spawn 2; spawn 3; spawn 4; join 2; join 3; join 4; stop; idle 1000000; join 1", "start", "breq 0 0 1 100; breq 1 0 2 100", "breq 2 0 3 100; breq 3 0 4 100", "breq 4 0 5 100"], ["1:now 11; 2:now 12; 3:now 13; 4:now 14; 5:now 15"]),
   text("long", ["bus 0 -1 root; cons 0 0 t; prov 0 0 t -1; spawn 1; spawn 2; breq 0 0 1 100000; breq 1 0 2 66000; breq 2 0 3 0; breq 3 0 4 -5; stop; idle 1000000; join 1; join 2", "start", "waitreq 0; sleep 70000000; resp 0 0 11; waitreq 1; sleep 65700000; resp 0 1 12"], []),
   text("inside", ["bus 0 -1 root; cons 0 0 t; prov 0 0 t 0; spawn 1; req 0 0 1 1; idle 3000000; stop; idle 1000000; join 1", "start"], ["1:now 11; 2:now 12", "1:breq 1 0 2 70"]),
 ],
 "prov": [
   text("noresponse", ["bus 0 -1 root; cons 0 0 t; prov 0 0 t 0; spawn 1; req 0 0 1 -1; idle 0; req 1 0 2 -1; idle 0; stop; idle 1000000; join 1", "start"], ["1:now 5000; 2:now 11; 2:now 12"]),
   text("payloads", ["bus 0 -1 root; cons 0 0 t; prov 0 0 t 0; prov 1 0 t 1; spawn 1; req 0 0 5000 -1; idle 0; req 1 0 6001 -1; req 2 0 7002 -1; req 3 0 8003 -1; req 4 0 9004 -1; raw 0 t q foo 8005; idle 0; stop; idle 1000000; join 1", "start"],
        ["1:now 8011; 2:now 7012; 3:now 7013; 4:now 9014; 5:now 6015", "1:now 21"]),
   text("raws", ["bus 0 -1 root; cons 0 0 t; prov 0 0 t 0; prov 1 0 t 1; spawn 1; " + "; ".join("raw 0 t q %s %d" % (s, 10 + i) for i, s in enumerate(["none", "int", "bool", "dict", "empty", "list", "value", "nothing", "foo"])) + "; idle 0; " +
                 "; ".join("raw 0 t s %s %d" % (s, 30 + i) for i, s in enumerate(["none", "int", "bool", "dict", "empty", "list", "value", "nothing", "foo"])) + "; req 0 0 1 -1; idle 0; stop; idle 1000000; join 1", "start"], ["1:now 61; 2:now 62", "1:now 63; 2:now 64"]),
   text("three", ["bus 0 -1 root; bus 1 0 a; bus 2 1 b; cons 0 2 t; prov 0 0 t 0; prov 1 1 t 1; prov 2 2 t 2; prov 3 2 u 3; spawn 1; spawn 2; req 0 0 1 -1; req 1 0 2 -1; idle 0; stop; idle 1000000; join 1; join 2", "start", "prov 4 0 t 4; req 2 0 3 -1"],
        ["1:now 11; 2:now 12; 3:now 13", "", "2:now 14", "", ""]),
   text("later", ["bus 0 -1 root; cons 0 0 t; prov 0 0 t -1; spawn 1; spawn 2; spawn 3; req 0 0 1 -1; req 1 0 2 -1; idle 3000000; stop; idle 1000000; join 1; join 2; join 3", "start", "resp 0 0 11", "resp 0 1 12"], []),
 ],
 "rpcall": [],
}
def big(prop):
    """Many requests, consumers and providers at a time (run under few schedules)."""
    R = range
    j = lambda f, *r: "; ".join(f % t for t in zip(*r))
    END = "idle 0; idle 3000000; stop; idle 1000000; join 1"
    rev = text("reverse", ["bus 0 -1 root; cons 0 0 t; cons 1 0 t; prov 0 0 t -1; spawn 1; %s; idle 0; %s; idle 0; %s; %s; %s" %
               (j("req %d %d %d -1", R(90), [i % 5 // 4 for i in R(90)], R(1, 91)), j("resp 0 %d %d", R(89, 44, -1), R(200, 245)), j("resp 0 %d %d", R(0, 90, 2), R(300, 345)), j("resp 0 %d %d", R(1, 90, 2), R(400, 445)), END), "start"], [])
    prv = text("providers", ["bus 0 -1 root; bus 1 0 c; cons 0 0 t; cons 1 0 u; %s; %s; spawn 1; req 0 0 1 -1; req 1 1 2 -1; idle 0; req 2 0 3 -1; req 3 1 4 -1; %s" %
               (j("prov %d %d t -1", R(40), [i % 2 for i in R(40)]), j("prov %d 0 u -1", R(40, 60)), END), "start"], [])
    con = text("consumers", ["bus 0 -1 root; %s; prov 0 0 t 0; spawn 1; %s; idle 0; %s; %s" %
               (j("cons %d 0 t", R(18)), j("req %d %d %d -1", R(40), [i % 18 for i in R(40)], R(1, 41)), j("breq %d %d %d 1000", R(40, 80), [i % 18 for i in R(40)], R(41, 81)), END), "start"], [j("%d:now %d", R(1, 81), R(200, 280))])
    lst = text("sequence", ["bus 0 -1 root; cons 0 0 t; prov 0 0 t 0; spawn 1; %s; %s" % (j("breq %d 0 %d %d", R(70), R(1, 71), [50 if i % 10 == 3 else 1000 for i in R(70)]), END), "start"], [j("%d:now %d", [i for i in R(1, 71) if i % 10 != 4], R(200, 270))])
    return {"C09": [rev, con], "C10": [lst, con], "C11": [prv, rev]}[prop]

def programs(family, seed, n):
    out = list(HAND.get(family, []))
    i = 0
    while len(out) < n:
        out.append(Gen(random.Random("rpc/%s/%d/%d" % (family, seed, i)), **FAMILIES[family]).make("%s-%d-%d" % (family, seed, i)))
        i += 1
    return out
if __name__ == "__main__":
    import sys
    print("".join(programs(sys.argv[1], int(sys.argv[2]), int(sys.argv[3]))))
