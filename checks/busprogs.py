"""Bus programs: what the threads of a scenario and its subscriber callbacks do.  A program is text,
    prog TAG / thr op; op; ... (thread 0 first) / cbs op; op; ... (script of callback 0, 1, ...)
with the operations that harness/bus_driver.cpp executes.  Programs only use the API as a user may: an operation on a bus,
subscriber or publisher comes after its creation (the driver waits for it), objects are destroyed only when nobody uses them
any more, and one thread at a time runs a root bus."""
import random

TOPICS = ["/a", "/b", "/a/b"]
PATTERNS = ["/a", "/b", "/a/b", "/**/*", "/**/*"]
NAMES = ["x", "y", "xy"]

def text(tag, thrs, cbs):
    j = lambda t: t if isinstance(t, str) else "; ".join(t)
    return "prog %s\n" % tag + "".join("thr %s\n" % j(t) for t in thrs) + "".join("cbs %s\n" % j(c) for c in cbs)

class Gen:
    """Random programs; w gives the weight of each kind of operation in worker threads, cw the one in callbacks."""
    def __init__(self, rng, w, cw, cbprob=0.5, children=(0, 3), subs=(1, 4), pubs=(1, 3), workers=(1, 3), ops=(1, 4), prepub=0.4,
                 stops=0.2, restart=0.3, idle0=0.5, destroy=0.1, big=False):
        self.__dict__.update(locals())
        self.r = rng
        self.nb = self.ns = self.np = self.nk = 0
        self.v = 0; self.empty = False; self.dups = rng.random() < 0.12
        self.cbs = []
        self.buses = []; self.subs_ = []; self.pubs_ = []      # known to everybody (created in the setup)
        self.kids = []                                         # names of the buses made in the setup, with their parents

    def val(self):
        self.v += 1
        k = self.r.random()
        if self.dups and k > 0.75:
            return self.r.randint(1, self.v)
        if k < 0.02 and not self.empty:
            self.empty = True
            return 5000
        return self.v + (self.r.choice([6000, 7000, 8000, 9000]) if k > 0.95 else 0)
    def bus(self):
        self.nb += 1
        return self.nb - 1
    def newcb(self, level=0):
        k = self.nk; self.nk += 1
        self.cbs.append([])
        if level < 2 and self.r.random() < self.cbprob:
            own = ([], [], [])
            for i in range(self.r.randint(1, 2)):
                n = self.r.randint(1, 2)
                for o in self.op(self.cw, own, level + 1):
                    self.cbs[k].append("%d:%s" % (n, o))
                own = ([], [], [])         # another invocation may come first
        return k
    def pick(self, shared, own):
        c = shared + own
        return self.r.choice(c) if c else None

    def op(self, w, own, level=0):
        """A list of operations (usually one) of a random kind."""
        kinds = [k for k in w if w[k] > 0]
        kind = self.r.choices(kinds, [w[k] for k in kinds])[0]
        B = self.pick(self.buses, own[0]); S = self.pick(self.subs_, own[1]); P = self.pick(self.pubs_, own[2])
        r = self.r
        if kind == "publish":
            if P is None: return []
            return ["publish %d %d" % (P[0], self.val())]
        if kind == "bpub":
            return ["bpub %d %s %s %d" % (B, r.choice(["s", "t/s", "root"]), r.choice(TOPICS), self.val())]
        if kind == "sub":
            s = self.ns; self.ns += 1
            k = self.newcb(level)
            own[1].append((s, B))
            t = r.choice(PATTERNS)
            if r.random() < 0.4:
                return ["subd %d %d %s %d" % (s, B, t, k)]
            return ["sub %d %d %s" % (s, B, t), "%s %d %d" % (r.choice(["setcb", "setcbd"]), s, k)]
        if kind == "setcb":
            if S is None: return []
            return ["%s %d %d" % (r.choice(["setcb", "setcbd"]), S[0], self.newcb(level))]
        if kind == "clearcb":
            if S is None: return []
            return ["setcb %d -1" % S[0]]
        if kind == "delsub":
            if S is None: return []
            return ["delsub %d %d" % (S[1], S[0])]
        if kind == "pub":
            p = self.np; self.np += 1
            own[2].append((p, B))
            return ["pub %d %d %s" % (p, B, r.choice(TOPICS)), "publish %d %d" % (p, self.val())]
        if kind == "delpub":
            if P is None: return []
            return ["delpub %d %d" % (P[1], P[0])]
        if kind == "has":
            if S is None: return []
            return ["has %d %d" % (r.choice([S[1], S[1], B]), S[0])]
        if kind == "hasp":
            if P is None: return []
            return ["hasp %d %d" % (r.choice([P[1], P[1], B]), P[0])]
        if kind == "child":
            b = self.bus()
            known = [n for n, p in self.kids if p == B]
            o = ["child %d %d %s" % (b, B, r.choice(known) if known and r.random() < 0.4 else r.choice(NAMES))]
            if r.random() < 0.5:
                own[0].append(b)
            return o
        if kind == "badchild":
            return ["child %d %d ~" % (self.bus(), B)]
        if kind == "get":
            return ["get %d %s" % (B, r.choice(NAMES + ["nope"] + [n for n, p in self.kids if p == B]))]
        if kind in ("stopc", "startc", "detach"):
            c = [b for b in self.buses if b != 0]
            if kind == "detach" and r.random() < 0.15:
                c = [0]
            if not c: return []
            return ["%s %d" % ({"stopc": "stop", "startc": "start", "detach": "detach"}[kind], r.choice(c))]
        if kind == "stop":
            return ["stop 0"]
        if kind == "sleep":
            return ["sleep %d" % r.choice([10, 1000, 60000, 150000])]
        raise Exception(kind)

    def make(self, tag):
        r = self.r
        t0 = []
        self.bus(); self.buses.append(0)
        t0.append("root 0 root")
        for i in range(r.randint(*self.children)):
            b = self.bus(); p = r.choice(self.buses)
            t0.append("child %d %d c%d" % (b, p, b)); self.buses.append(b); self.kids.append(("c%d" % b, p))
        own = ([], [], [])
        for i in range(r.randint(*self.subs)):
            t0 += self.op({"sub": 1}, own)
        for i in range(r.randint(*self.pubs)):
            p = self.np; self.np += 1
            b = r.choice(self.buses); own[2].append((p, b))
            t0.append("pub %d %d %s" % (p, b, r.choice(TOPICS)))
        self.subs_ = own[1]; self.pubs_ = own[2]
        # scripts of callbacks made so far referred to nothing of the setup yet: make new ones for some of them
        for k in range(self.nk):
            if r.random() < self.cbprob:
                self.cbs[k] = []
                for i in range(r.randint(1, 2)):
                    n = r.randint(1, 2)
                    for o in self.op(self.cw, ([], [], []), 1):
                        self.cbs[k].append("%d:%s" % (n, o))
        if r.random() < self.prepub:
            for i in range(r.randint(1, 2)):
                t0 += self.op({"publish": 3, "bpub": 1}, ([], [], []))
        thrs = [None, ["start 0"]]
        for i in range(r.randint(*self.workers)):
            own = ([], [], [])
            t = []
            for j in range(r.randint(*self.ops)):
                t += self.op(self.w, own)
            thrs.append(t)
        order = ["spawn %d" % i for i in range(1, len(thrs))]
        r.shuffle(order)
        t0 += order
        if r.random() < self.stops:
            if r.random() < 0.5:
                t0.append("sleep %d" % r.choice([1, 1000, 100000]))
            t0.append("stop 0")
        # the next check that everything pending has been delivered: at once (0) or within the second
        t0.append("idle %d" % (0 if r.random() < self.idle0 else 1000000))
        if r.random() < 0.4:
            t0 += self.op({"publish": 1}, ([], [], []))
            t0.append("idle %d" % (0 if r.random() < self.idle0 else 1000000))
        t0 += ["stop 0", "idle 1000000"] + ["join %d" % i for i in range(1, len(thrs))]
        for i in range(2):
            if r.random() < self.restart:
                n = len(thrs)
                extra = []
                for j in range(r.randint(1, 3)):
                    extra += self.op({"publish": 3, "bpub": 1}, ([], [], []))
                thrs.append(["start 0"]); thrs.append(extra)
                pre = self.op({"publish": 1, "bpub": 1}, ([], [], []))
                t0 += pre + ["spawn %d" % n, "spawn %d" % (n + 1), "idle 1000000"]
                if r.random() < 0.5:
                    t0 += self.op({"publish": 1}, ([], [], [])) + ["idle 1000000"]
                t0 += ["stop 0", "idle 1000000", "join %d" % n, "join %d" % (n + 1)]
        if r.random() < self.destroy:
            kids = [b for b in self.buses if b != 0]
            pk = [p for p in self.pubs_ if p[1] != 0]
            t0.append("destroy 0")
            for b in kids[:2]:
                t0 += ["bpub %d s /a %d" % (b, self.val()), "child %d %d zz" % (self.bus(), b), "has %d %d" % (b, self.subs_[0][0])] if self.subs_ else []
            for p in pk[:2]:
                t0.append("publish %d %d" % (p[0], self.val()))
        thrs[0] = t0
        return text(tag, thrs, self.cbs)

PUB = {"publish": 6, "bpub": 2}
CHG = {"sub": 1, "setcb": 1, "clearcb": 1, "delsub": 1, "pub": 1, "delpub": 1, "child": 1}
def mix(*ds):
    r = {}
    for d in ds:
        for k, v in d.items():
            r[k] = r.get(k, 0) + v
    return r
ALL = mix(PUB, CHG, {"has": 1, "hasp": 1, "get": 1, "badchild": 0.3, "stopc": 1, "startc": 1, "detach": 0.4, "stop": 0.3, "sleep": 0.5})
CB = mix({"publish": 3, "bpub": 1}, {"sub": 1, "delsub": 1.5, "setcb": 0.5, "clearcb": 0.5, "pub": 0.7, "delpub": 0.5, "child": 1, "get": 0.5, "has": 0.3, "stopc": 0.5, "stop": 0.2, "startc": 0.4, "detach": 0.2})

FAMILIES = {
    "deliver": dict(w=PUB, cw={"publish": 3, "bpub": 1}, subs=(2, 6), workers=(1, 3), ops=(1, 4), restart=0, stops=0),
    "order": dict(w={"publish": 5, "bpub": 1}, cw={"publish": 1}, cbprob=0.3, subs=(2, 4), pubs=(2, 3), workers=(2, 4), ops=(2, 4), restart=0.1, stops=0),
    "content": dict(w=mix(PUB, {"pub": 1}), cw={"publish": 1, "bpub": 1}, subs=(2, 5), workers=(1, 2), ops=(2, 5), restart=0, stops=0, prepub=0.8),
    "delete": dict(w=mix({"publish": 3, "bpub": 1}, {"sub": 1, "delsub": 3, "delpub": 1.5, "has": 1.5, "hasp": 1, "setcb": 0.5, "clearcb": 1}),
                   cw={"delsub": 3, "delpub": 1, "has": 1, "publish": 1, "clearcb": 1}, cbprob=0.4, subs=(2, 4), workers=(1, 3), restart=0.1, stops=0.05),
    "stop": dict(w=mix({"publish": 3, "bpub": 1}, {"stopc": 2, "startc": 1.5, "detach": 0.7, "stop": 1, "sleep": 0.5}),
                 cw={"stopc": 2, "stop": 1, "detach": 0.7, "publish": 1, "startc": 1}, cbprob=0.3, children=(1, 4), subs=(2, 4), stops=0.5, restart=0.8, destroy=0.3),
    "names": dict(w={"child": 6, "get": 3, "badchild": 0.5, "detach": 0.7, "publish": 0.5, "stopc": 0.7, "startc": 0.4}, cw={"child": 2, "get": 1}, cbprob=0.3, children=(0, 3),
                  subs=(1, 2), pubs=(1, 1), workers=(2, 4), ops=(1, 3), restart=0, stops=0.1),
    "wake": dict(w=mix(PUB, {"sleep": 1}), cw=CB, cbprob=0.6, idle0=1.0, stops=0.2, restart=0.3, workers=(1, 3), ops=(1, 3)),
    "all": dict(w=ALL, cw=CB, cbprob=0.4, children=(0, 3), workers=(2, 4), ops=(2, 5)),
}

HAND = {
 "deliver": [
   # two levels, several topics, before and while running
   text("tree", ["root 0 root; child 1 0 p; child 2 1 q; subd 0 0 /a 0; subd 1 1 /a 1; subd 2 2 /**/* 2; subd 3 2 /b 3; pub 0 0 /a; pub 1 2 /b; publish 0 1; publish 1 2; spawn 1; spawn 2; idle 0; publish 1 5; publish 0 6; idle 0; stop 0; join 1; join 2",
                 "start 0", "publish 0 3; publish 1 4"], [[], ["1:publish 1 9"], [], []]),
   # patterns: only equality and the match-all pattern match
   text("topics", ["root 0 root; " + "; ".join("subd %d 0 %s %d" % (i, t, i) for i, t in enumerate(["/a", "/a/", "/**", "/*", "/**/*", "/a/*", "~", "/A"])) +
                   "; bpub 0 s /a 1; bpub 0 s /a/ 2; bpub 0 s /** 3; bpub 0 s /a/b 4; bpub 0 s ~ 5; bpub 0 s /**/* 6; bpub 0 s /a/* 7; bpub 0 s a 8; spawn 1; idle 0; stop 0; join 1", "start 0"], [[]] * 8),
   text("wildtopics", ["root 0 root; " + "; ".join("subd %d 0 %s %d" % (i, t, i) for i, t in enumerate(["/a/**", "/a/*", "/**/a", "/a*", "/a?", "**/*", "/**/**", "/**/*/", "/a/**/*", "*", "**", "/**/*"])) + "; " +
                   "; ".join("bpub 0 s %s %d" % (t, i) for i, t in enumerate(["/a/b", "/a/b/c", "/b/a", "/ab", "/a", "/a/", "/", "/a/**", "b", "a/b", "/a/**/*", "/**/**"])) + "; pub 0 0 /a/*; publish 0 99; spawn 1; idle 0; stop 0; join 1", "start 0"], [[]] * 12),
   text("oddtopics", ["root 0 root; " + "; ".join("subd %d 0 %s %d" % (i, t, i) for i, t in enumerate(["/a%20", "/a", "%20/a", "/a%00", "/a%00b", "/**/*%20", "/**/*", "/%c3%a4", "%22", "/a%0a", "//a", "a"])) + "; " +
                   "; ".join("bpub 0 s %s %d" % (t, i) for i, t in enumerate(["/a%20", "/a", "%20/a", "/a%00", "/a%00b", "/a%00c", "/**/*", "/%c3%a4", "%22", "/a%0a", "//a", "a", "/%c3", "/**/*%20"])) + "; pub 0 0 /a%20; publish 0 99; spawn 1; idle 0; stop 0; join 1", "start 0"], [[]] * 12),
   # the same callback twice, many subscribers of a topic
   text("many", ["root 0 root; " + "; ".join("sub %d 0 /a; setcb %d %d" % (i, i, i) for i in range(8)) + "; pub 0 0 /a; pub 1 0 /a; spawn 1; spawn 2; spawn 3; idle 0; stop 0; join 1; join 2; join 3",
                 "start 0", "publish 0 1", "publish 1 2"], [[]] * 8),
   # a subscriber is created while another one's callback runs: on this bus, on one that comes later, in a new bus
   text("late", ["root 0 root; child 1 0 p; subd 0 0 /a 0; pub 0 0 /a; spawn 1; publish 0 1; idle 0; publish 0 2; idle 0; publish 0 3; idle 0; stop 0; join 1", "start 0"],
        [["1:subd 1 0 /a 1; 1:subd 2 1 /a 2; 1:child 2 0 z; 1:subd 3 2 /a 3".split("; ")][0], [], [], []]),
 ],
 "order": [
   text("chain", ["root 0 root; subd 0 0 /a 0; subd 1 0 /a 1; subd 2 0 /b 2; pub 0 0 /a; pub 1 0 /b; spawn 1; spawn 2; idle 0; stop 0; join 1; join 2", "start 0", "publish 0 1; publish 0 2; publish 0 3"],
        [["1:publish 1 11", "2:publish 1 12"], ["1:publish 1 13", "3:publish 0 14"], []]),
   text("deep", ["root 0 root; child 1 0 p; child 2 1 q; child 3 2 r; subd 0 3 /a 0; subd 1 0 /a 1; pub 0 3 /a; pub 1 0 /a; pub 2 1 /a; spawn 1; spawn 2; spawn 3; spawn 4; idle 0; stop 0; join 1; join 2; join 3; join 4",
                 "start 0", "publish 0 1; publish 1 2", "publish 1 3; publish 0 4", "publish 2 5; publish 0 6"], [[], []]),
   text("tworoots", ["root 0 r; root 1 s; subd 0 0 /a 0; subd 1 1 /a 1; pub 0 0 /a; pub 1 1 /a; spawn 1; spawn 2; spawn 3; publish 0 1; publish 1 2; idle 0; stop 0; stop 1; join 1; join 2; join 3", "start 0", "start 1", "publish 1 3; publish 0 4"],
        [["1:publish 1 5"], ["1:publish 0 6"]]),
 ],
 "content": [
   text("oddsenders", ["root 0 root; child 1 0 a%20; child 2 0 %20%c3%a4; child 3 2 a%00b; sub 0 0 /**/*; setcb 0 0; sub 1 3 /a%00x; setcb 1 1; pub 0 1 /a; pub 1 2 /a%20b; pub 2 3 /a%00x; publish 0 1; publish 1 2; publish 2 3; bpub 0 s%00t /a%00x 4; bpub 0 %20 /%0a 5; bpub 2 ~ /a 6; bpub 0 %22 ~ 7; spawn 1; idle 0; stop 0; join 1", "start 0"], [[], []]),
   text("mut", ["root 0 root; child 1 0 p; sub 0 0 /a; setcb 0 0; subd 1 0 /a 1; subd 2 1 /**/* 2; sub 3 1 /a; setcbd 3 3; pub 0 1 /a; pub 1 0 /a; publish 0 0; publish 0 4; publish 1 1; publish 1 2; publish 0 3; publish 0 8; bpub 0 s/t /a 12; bpub 1 q /a 10; spawn 1; idle 0; stop 0; join 1", "start 0"],
        [[], [], [], []]),
 ],
 "delete": [
   text("self", ["root 0 root; child 1 0 p; subd 0 0 /a 0; subd 1 0 /a 1; subd 2 1 /a 2; pub 0 0 /a; spawn 1; publish 0 1; publish 0 2; spawn 2; idle 0; has 0 0; has 0 1; has 1 2; has 0 2; stop 0; join 1; join 2", "start 0", "publish 0 3; delsub 0 1; publish 0 4"],
        [["1:delsub 0 0", "1:has 0 0"], [], ["2:delsub 1 2"]]),
   text("other", ["root 0 root; child 1 0 p; subd 0 0 /a 0; subd 1 0 /a 1; subd 2 1 /a 2; subd 3 1 /a 3; pub 0 0 /a; spawn 1; publish 0 1; publish 0 2; idle 0; publish 0 3; idle 0; stop 0; join 1", "start 0"],
        [["1:delsub 0 1", "1:delsub 1 3"], [], ["1:delsub 0 0"], []]),
   text("conc", ["root 0 root; subd 0 0 /a 0; subd 1 0 /a 1; pub 0 0 /a; publish 0 1; publish 0 2; publish 0 3; spawn 1; spawn 2; delsub 0 0; has 0 0; publish 0 5; idle 0; stop 0; join 1; join 2", "start 0", "publish 0 4; delpub 0 0; publish 0 6; hasp 0 0"], [["sleep 50"], []]),
   text("queued", ["root 0 root; child 1 0 p; subd 0 1 /a 0; pub 0 1 /a; publish 0 1; delpub 1 0; publish 0 2; hasp 1 0; hasp 0 0; bpub 1 s /a 3; spawn 1; idle 0; stop 0; join 1", "start 0"], [[]]),
 ],
 "stop": [
   text("again", ["root 0 root; child 1 0 p; subd 0 0 /a 0; subd 1 1 /a 1; pub 0 0 /a; publish 0 1; spawn 1; idle 0; stop 0; join 1; publish 0 2; publish 0 3; idle 1000000; spawn 2; idle 0; publish 0 4; idle 0; stop 0; join 2; spawn 3; publish 0 5; idle 0; stop 0; join 3", "start 0", "start 0", "start 0"], [[], []]),
   text("sub", ["root 0 root; child 1 0 p; child 2 1 q; child 3 0 r; subd 0 1 /a 0; subd 1 2 /a 1; subd 2 0 /a 2; subd 3 3 /a 3; pub 0 0 /a; pub 1 2 /a; spawn 1; publish 0 1; idle 0; stop 1; publish 0 2; publish 1 3; idle 0; start 1; publish 0 4; idle 0; stop 2; publish 0 5; publish 1 6; idle 0; start 2; publish 1 7; idle 0; stop 0; join 1", "start 0"], [[], [], [], []]),
   text("cb", ["root 0 root; child 1 0 p; subd 0 0 /a 0; subd 1 1 /a 1; pub 0 0 /a; publish 0 1; publish 0 2; publish 0 3; spawn 1; idle 1000000; join 1; publish 0 4; spawn 2; idle 0; stop 0; join 2", "start 0", "start 0"], [["1:stop 0"], []]),
   text("det", ["root 0 root; child 1 0 p; child 2 1 q; child 3 2 r; subd 0 0 /a 0; subd 1 3 /a 1; pub 0 3 /a; pub 1 1 /a; pub 2 0 /a; spawn 1; publish 0 1; idle 0; spawn 2; detach 1; publish 0 2; publish 1 3; publish 2 4; child 4 1 n; child 5 3 n; get 1 q; idle 0; bpub 2 s /a 6; bpub 1 s /a 7; idle 0; stop 0; join 1; join 2", "start 0", "publish 0 5; publish 1 8"], [[], []]),
   text("destroyed", ["root 0 root; child 1 0 p; child 2 1 q; subd 0 0 /a 0; pub 0 2 /a; pub 1 1 /a; spawn 1; publish 0 1; idle 0; stop 0; join 1; publish 1 2; destroy 0; publish 0 3; publish 1 4; bpub 2 s /a 5; child 3 1 n; child 4 2 n; detach 1; stop 2; get 1 q", "start 0"], [[]]),
 ],
 "names": [
   text("same", ["root 0 root; spawn 1; spawn 2; spawn 3; join 1; join 2; join 3; get 0 a; get 0 b; get 0 c; get 0 ~", "child 1 0 a; child 2 0 b", "child 3 0 a; get 0 a", "child 4 0 b; child 5 0 a"], []),
   text("err", ["root 0 ~; rootnull; root 1 root; child 2 1 ~; child 3 1 a; child 4 1 a; child 5 3 a; child 6 3 root; get 1 a; get 3 a; get 1 b; get 3 root; child 7 1 A; get 1 A; child 8 1 a/b; get 1 a/b; get 1 ~; detach 1; child 9 1 z; child 10 1 a; child 11 1 ~; get 1 z; get 1 a"], []),
   text("odd", ["root 0 %20r; child 1 0 a; child 2 0 a%20; child 3 0 %20a; child 4 0 A; child 5 0 a%00; child 6 0 a%00b; child 7 0 %20; child 8 0 ~; child 9 0 /; child 10 0 a/; child 11 0 /a; child 12 0 %c3%a4; child 13 0 %22; child 14 0 %0a; child 15 0 a%20; child 16 0 a%00; get 0 a; get 0 a%20; get 0 %20a; get 0 a%00; get 0 a%00b; get 0 a%00c; get 0 %20; get 0 %20%20; get 0 a/; get 0 /a; get 0 /; get 0 %c3%a4; get 0 %c3; get 0 %22; get 0 %0a; get 0 %0d; detach 0; get 0 a%20"], []),
   text("use", ["root 0 root; spawn 1; spawn 2; child 1 0 a; subd 0 1 /a 0; pub 0 1 /a; publish 0 1; spawn 3; idle 0; get 0 a; stop 0; join 1; join 2; join 3", "start 0", "child 2 0 a; child 3 0 b; get 0 b", "child 4 0 c; bpub 0 s /a 2"], [["1:child 5 0 a", "1:child 6 0 c"]]),
 ],
 "wake": [
   text("sleepy", ["root 0 root; subd 0 0 /a 0; pub 0 0 /a; spawn 1; spawn 2; idle 0; publish 0 2; idle 0; publish 0 3; idle 0; stop 0; idle 1000000; join 1; join 2", "start 0", "publish 0 1"], [[]]),
   text("now", ["root 0 root; subd 0 0 /a 0; pub 0 0 /a; spawn 1; publish 0 1; idle 0; publish 0 2; publish 0 3; idle 0; sleep 350000; publish 0 4; idle 0; stop 0; idle 1000000; join 1", "start 0"], [[]]),
   text("child", ["root 0 root; child 1 0 c; child 2 1 d; subd 0 0 /a 0; pub 0 2 /a; spawn 1; spawn 2; idle 0; publish 0 2; idle 0; stop 0; idle 1000000; join 1; join 2", "start 0", "publish 0 1"], [["1:publish 0 3"]]),
   text("reent", ["root 0 root; child 1 0 c; subd 0 1 /a 0; subd 1 0 /a 1; pub 0 0 /a; spawn 1; publish 0 1; idle 0; publish 0 2; idle 0; stop 0; idle 1000000; join 1", "start 0"],
        ["1:sub 2 1 /b; 1:setcb 2 2; 1:sub 3 0 /b; 1:delsub 0 3; 1:delsub 1 0; 1:child 2 1 k; 1:child 3 0 k; 1:get 0 k; 1:pub 1 1 /b; 1:publish 1 7; 1:delpub 1 1; 1:has 0 1; 1:stop 1; 1:start 1; 1:detach 2".split("; "), "1:setcb 1 3; 1:setcb 0 4; 1:delsub 0 1; 1:child 4 0 m; 1:sub 4 4 /a".split("; "), [], [], []]),
   text("stops", ["root 0 root; subd 0 0 /a 0; pub 0 0 /a; spawn 1; spawn 2; idle 1000000; join 1; join 2", "start 0", "sleep 1000; publish 0 1; publish 0 2; sleep 100000; stop 0"], [[]]),
   text("cross", ["root 0 root; child 1 0 a; child 2 0 b; subd 0 1 /a 0; subd 1 2 /a 1; pub 0 0 /a; pub 1 0 /a; spawn 1; spawn 2; spawn 3; publish 0 1; idle 0; stop 0; idle 1000000; join 1; join 2; join 3", "start 0", "child 3 1 x; sub 2 1 /a; delsub 1 2; stop 1; detach 1", "child 4 2 x; delsub 2 1; child 5 0 y; detach 2"],
        [["1:sub 3 2 /a", "1:child 6 2 q", "1:get 0 b"], ["1:sub 4 1 /a", "1:child 7 1 q", "1:get 0 a", "1:stop 1"]]),
 ],
 "all": [],
}

def seq(fmt, *ranges):
    return "; ".join(fmt % t for t in zip(*ranges))

def big(prop, thorough=False):
    """Programs with many messages, subscribers, buses or repetitions (run under few schedules): nothing may depend on how many."""
    n = 3 if thorough else 1
    R = range
    END = "idle 0; stop 0; idle 1000000; join 1"
    sp = lambda i, v: 5000 if i == 61 else v + {5: 6000, 9: 7000, 13: 8000, 18: 9000}.get(i % 23, 0)       # all kinds of payloads among them
    backlog = text("backlog", ["root 0 root; child 1 0 p; subd 0 0 /a 0; subd 1 1 /a 1; pub 0 0 /a; pub 1 1 /a; %s; spawn 1; idle 1000000; %s; idle 1000000; publish 0 9000; %s" %
                   (seq("publish %d %d", [i % 3 // 2 for i in R(300 * n)], [sp(i, i + 1) for i in R(300 * n)]), seq("publish %d %d", [i % 2 for i in R(140)], R(2000, 2140)), END), "start 0"], [[], []])
    burst = text("burst", ["root 0 root; child 1 0 p; subd 0 0 /a 0; pub 0 0 /a; pub 1 1 /a; spawn 1; spawn 2; idle 1000000; publish 0 9000; idle 0; stop 0; idle 1000000; join 1; join 2", "start 0", seq("publish %d %d", [i % 2 for i in R(90)], [sp(i, i + 1) for i in R(90)])],
                 [["1:" + o for o in seq("publish %d %d", [0] * 80, R(1000, 1080)).split("; ")]])
    wide = text("wide", ["root 0 root; %s; %s; %s; pub 0 0 /a; pub 1 40 /a; spawn 1; publish 0 1; publish 1 2; idle 0; publish 0 3; %s" %
                (seq("child %d 0 c%d", R(1, 41), R(1, 41)), seq("subd %d %d /a %d", R(40), R(1, 41), R(40)), seq("subd %d 0 /a %d", R(40, 75), R(40, 75)), END), "start 0"], [[]] * 75)
    deep = text("deep", ["root 0 root; %s; %s; pub 0 24 /a; pub 1 12 /a; pub 2 0 /a; spawn 1; publish 0 1; publish 1 2; publish 2 3; idle 1000000; publish 0 4; publish 2 5; %s" %
                (seq("child %d %d c", R(1, 25), R(24)), seq("subd %d %d /a %d", R(13), R(0, 25, 2), R(13)), END), "start 0"], [[]] * 13)
    far = text("far", ["root 0 %s; %s; %s; %s; sub 0 0 /a; setcb 0 0; sub 1 9 /a; setcb 1 1; spawn 1; %s; %s" %
               ("r" * 33, seq("child %d %d %s", R(1, 13), [0, 1, 2, 3, 4, 5, 6, 7, 8, 0, 10, 11], ["n" * (3 + 11 * i) for i in R(12)]), seq("pub %d %d /a", R(13), R(13)), "publish 12 1; publish 9 2",
                seq("publish %d %d", R(13), R(10, 23)), "idle 0; " + seq("bpub %d %s /a %d", R(13), ["s" * (5 + 9 * i) for i in R(13)], R(30, 43)) + "; " + END), "start 0"], [[], []])
    topics = text("topics", ["root 0 root; %s; %s; spawn 1; %s; %s" % (seq("subd %d 0 /t%d %d", R(40), R(40), R(40)), seq("pub %d 0 /t%d", R(40), R(40)), seq("publish %d %d", R(40), R(1, 41)), END), "start 0"], [[]] * 40)
    names = text("names", ["root 0 root; %s; child 99 0 n7; child 98 0 n69; child 97 0 n70; child 96 5 n5; %s; detach 8; child 95 0 n7; child 94 0 n8; get 0 n7; get 0 n3" %
                 (seq("child %d 0 n%d", R(1, 71), R(70)), seq("get 0 n%d", R(72)))], [])
    deln = text("many", ["root 0 root; child 1 0 p; %s; %s; pub 0 0 /a; spawn 1; publish 0 1; idle 0; %s; publish 0 2; idle 0; %s; %s; publish 0 3; %s" %
                (seq("subd %d 0 /a %d", R(40), R(40)), seq("subd %d 1 /a %d", R(40, 60), R(40, 60)), seq("delsub 0 %d", R(0, 40, 3)), seq("has 0 %d", R(40)), seq("delsub 1 %d", R(40, 60)), END), "start 0"], [[]] * 60)
    again = text("again", ["root 0 root; child 1 0 p; subd 0 0 /a 0; pub 0 0 /a; pub 1 1 /a; %s; spawn 1; %s; join 1" %
                 ("publish 0 1", "; ".join("idle 0; publish 1 %d; idle 0; stop 0; idle 1000000; publish 0 %d" % (10 + i, 100 + i) for i in R(14))), "; ".join(["start 0; sleep 500000"] * 14)], [[]])
    chain = text("chain", ["root 0 root; child 1 0 p; subd 0 0 /a 0; subd 1 1 /a 1; pub 0 0 /a; pub 1 1 /a; spawn 1; publish 0 1; idle 1000000; publish 1 2; " + END, "start 0"],
                 [["%d:publish 1 %d" % (i, 1000 + i) for i in R(1, 100)], ["%d:publish 0 %d" % (i, 2000 + i) for i in R(1, 30)]])
    rounds = text("rounds", ["root 0 root; subd 0 0 /a 0; pub 0 0 /a; spawn 1; %s; %s" % ("; ".join("publish 0 %d; idle 0%s" % (i + 1, "; sleep 350000" if i % 25 == 7 else "") for i in R(80)), END), "start 0"], [[]])
    subs = text("subs", ["root 0 root; subd 0 0 /a 0; pub 0 0 /a; spawn 1; %s; %s" % ("; ".join("subd %d 0 /a %d; publish 0 %d; idle 0; delsub 0 %d" % (i, i, i, i) for i in R(1, 40)), END), "start 0"], [[]] * 40)
    return {"C01": [backlog, burst, wide, deep, topics, chain, subs], "C02": [backlog, burst, deep, chain], "C03": [backlog, wide, topics, far, deep], "C04": [deln, subs, wide], "C05": [again, backlog, deep], "C06": [names, wide, deep],
            "C07": [rounds, chain, again, burst], "C08": [burst, names, deln, again, chain]}[prop]

def programs(family, seed, n):
    """The first n programs of a family: the fixed ones, then random ones."""
    out = list(HAND.get(family, []))
    i = 0
    while len(out) < n:
        rng = random.Random("%s/%d/%d" % (family, seed, i))
        out.append(Gen(rng, **FAMILIES[family]).make("%s-%d-%d" % (family, seed, i)))
        i += 1
    return out[:max(n, 1)]

if __name__ == "__main__":
    import sys
    print("".join(programs(sys.argv[1], int(sys.argv[2]), int(sys.argv[3]))))
