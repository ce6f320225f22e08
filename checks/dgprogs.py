"""Operation sequences on datagrams and messages (for harness/datagram_driver.cpp)."""
import json, random, struct

def hx(s):
    return (s if isinstance(s, bytes) else s.encode()).hex()
def dbl(f):
    return struct.pack(">d", f).hex()
E = {"k": "e"}
def V(t, v): return {"k": "v", "t": t, "v": v}
def S(s): return V("s", hx(s))
def I(i): return V("i", str(i))
def F(f): return V("d", dbl(f))
def B(b): return V("b", "1" if b else "0")
def L(*a): return {"k": "l", "l": list(a)}
def M(**d): return {"k": "d", "d": {hx(k): v for k, v in d.items()}}

INTS = [0, 1, -1, 2, 7, 10, 127, 128, 255, 256, 32767, 65535, 65536, 2147483647, -2147483648, -2147483647]
DOUBLES = [0.0, 1.0, -1.0, 0.5, 0.1, 1e300, -1e300, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, float("inf"), float("-inf"), 3.0, 1234567.0, -3e9, 2147483647.0, 1e6, 65536.0, 0.1234567891, 100000.5, 123456789.123456789, 1e-10, 2147483648.0, 1e21]
STRINGS = [b"", b"a", b"b", b"ab", b"0", b"1", b"true", b"null", b"7", b"\0", b"a\0b", b"\0a", b"\xff\xfe", "äöü€😀".encode(), b"a/b", b"\"q\\", b"\n\t", b"x" * 300, b"{}", b"[]", b" ", b"longer than a small string buffer holds"]
KEYS = [b"a", b"b", b"", b"ab", b"a/b", b"key with space", "ü".encode(), b"k\0k", b"0", b"invocationId", b"A", b"x" * 40]

class G:
    def __init__(self, rng, keys=6, rich=True):
        self.r, self.rich = rng, rich
        self.keys = KEYS[:2] + rng.sample(KEYS[2:], keys - 2) if keys <= len(KEYS) else KEYS
        self.ops = []
        self.H = ["A", "B", "C", "D", "E"]; self.M = ["m", "n", "o"]
    def key(self): return hx(self.r.choice(self.keys))
    def value(self):
        r = self.r; t = r.choice("iidssb")
        if t == "i": return "i", str(r.choice(INTS) if self.rich else r.choice([0, 1, 2]))
        if t == "d": return "d", dbl(r.choice(DOUBLES) if self.rich else r.choice([0.0, 1.0, 2.5]))
        if t == "b": return "b", r.choice("01")
        if self.rich and r.random() < 0.2: return "s", bytes(r.randrange(256) for _ in range(r.choice([1, 3, 15, 16, 17, 40]))).hex()
        return "s", hx(r.choice(STRINGS) if self.rich else r.choice([b"a", b"0", b"", b"1"]))
    def tree(self, depth=3, leaf=0.35):
        r = self.r; p = r.random()
        if depth == 0 or p < leaf:
            return dict(E) if r.random() < 0.15 else V(*self.value())
        if p < leaf + (1 - leaf) / 2:
            return L(*[self.tree(depth - 1, leaf + 0.1) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4]))])
        return {"k": "d", "d": {k: self.tree(depth - 1, leaf + 0.1) for k in r.sample([hx(k) for k in self.keys], r.choice([0, 1, 1, 2, 3]))}}
    def near(self, t):
        """A tree that differs from t in one place, or a tree equal to it."""
        r = self.r; t = json.loads(json.dumps(t))
        spots = []
        def walk(n, put):
            spots.append((n, put))
            if n["k"] == "l":
                for i, c in enumerate(n["l"]): walk(c, (n["l"], i))
            if n["k"] == "d":
                for k, c in n["d"].items(): walk(c, (n["d"], k))
        box = [t]; walk(t, (box, 0))
        n, (c, i) = r.choice(spots)
        p = r.random()
        if p < 0.25: return box[0]
        if n["k"] == "v" and p < 0.8:
            q = r.random()
            if q < 0.4:
                v, t = n["v"], n["t"]
                if t == "i": c[i] = V("d", dbl(float(int(v))))
                elif t == "s": c[i] = r.choice([S(bytes.fromhex(v) + b"\0"), I(0), S(bytes.fromhex(v)[:-1])])
                elif t == "b": c[i] = r.choice([I(int(v)), S("true"), B(v == "0")])
                else: c[i] = r.choice([F(struct.unpack(">d", bytes.fromhex(v))[0] / 2 + 1e-9), V("d", v[:-1] + ("1" if v[-1] == "0" else "0")) if v[1:4] != "ff" else I(1), V("d", ("8" if v[0] == "0" else "0") + v[1:]), I(1)])
            else: c[i] = V(*self.value())
        elif n["k"] == "l" and n["l"]:
            q = r.random()
            if q < 0.3: n["l"].pop()
            elif q < 0.5: n["l"].append(json.loads(json.dumps(n["l"][0])))
            elif q < 0.7: n["l"].reverse()
            elif q < 0.85: c[i] = {"k": "d", "d": {hx(str(j)): x for j, x in enumerate(n["l"])}}
            else: n["l"].append(dict(E))
        elif n["k"] == "d" and n["d"]:
            q = r.random(); k = r.choice(sorted(n["d"]))
            if q < 0.3: del n["d"][k]
            elif q < 0.6: v = n["d"].pop(k); n["d"][self.key()] = v
            elif q < 0.8: c[i] = L(*n["d"].values())
            else: n["d"][self.key()] = dict(E)
        else:
            c[i] = r.choice([dict(E), L(), {"k": "d", "d": {}}, I(0), S(""), B(False), F(0.0), L(dict(E))])
        return box[0]
    def add(self, op, **kw):
        kw["op"] = op; self.ops.append(kw)
    def h(self): return self.r.choice(self.H)
    def m(self): return self.r.choice(self.M)
    def step(self, w):
        r = self.r; kinds = sorted(w); op = r.choices(kinds, [w[k] for k in kinds])[0]
        a, b = self.h(), self.h()
        if op in ("create", "add", "sett"): self.add(op, a=a, tree=self.tree(2 if op != "create" else 3), form=r.randrange(3), lit=r.randrange(2))
        elif op == "copy": self.add(op, a=a, b=b, form=r.randrange(2))
        elif op == "setv":
            t, v = self.value(); self.add(op, a=a, t=t, v=v, form=r.randrange(2))
        elif op == "seth": self.add(op, a=a, b=b)
        elif op == "key": self.add(op, a=a, b=b, s=self.key())
        elif op == "idx": self.add(op, a=a, b=b, i=r.choice([0, 0, 0, 1, 1, 2, 3, 4, 2147483646]))
        elif op == "rmk": self.add(op, a=a, s=self.key())
        elif op == "rmi": self.add(op, a=a, i=r.choice([0, 0, 0, 1, 1, 2, 3, 2147483646]))
        elif op == "exists": self.add(op, a=a, s=self.key())
        elif op in ("clear", "count", "kind", "isempty"): self.add(op, a=a)
        elif op == "get": self.add(op, a=a, t=r.choice("idsb"), form=r.randrange(2))
        elif op == "path":
            t, d = self.value(); self.add(op, a=a, p=self.path(), t=r.choice([t, t, "i"]) if False else t, **{"def": d})
        elif op == "eq": self.add(op, a=a, b=b)
        elif op == "mnew": self.add(op, m=self.m(), a=a, s=self.name(), top=self.name())
        elif op == "mcopy": self.add(op, m=self.m(), o=self.m(), form=r.randrange(2))
        elif op == "mget": self.add(op, a=a, m=self.m())
        elif op == "meq": self.add(op, m=self.m(), o=self.m())
        elif op == "wire": self.add(op, m=self.m(), o=self.m())
        elif op == "print": self.add(op, a=a)
        elif op == "mprint": self.add(op, m=self.m())
    def name(self):
        return hx(self.r.choice(STRINGS + [b"/t", b"a/b/c", b"t", b"u"])) if self.rich else hx(self.r.choice([b"a", b"/t", b""]))
    def path(self):
        r = self.r
        p = b"/".join(r.choice(self.keys) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4])))
        q = r.random()
        if q < 0.1: p = b"/" + p
        elif q < 0.25: p += b"/"
        elif q < 0.3: p = p.replace(b"/", b"//", 1)
        elif q < 0.35: p += b"//"
        elif q < 0.38: p = r.choice([b"/", b"//", b""])
        return hx(p)
    def program(self, tag):
        head = {"tag": tag, "keys": [hx(k) for k in sorted(set(self.keys) | set(getattr(self, "more", [])))]}
        if getattr(self, "every", 1) > 1: head["every"] = self.every
        if getattr(self, "deep", False): head["deep"] = True
        if any(o["op"] in ("print", "mprint") for o in self.ops): head["texts"] = texts(self.ops)
        return [head] + self.ops

def texts(ops):
    """How floating-point numbers look in a stream."""
    out = {}
    def walk(n):
        if isinstance(n, dict):
            if n.get("t") == "d" and len(n.get("v", "")) == 16: out[n["v"]] = hx("%g" % struct.unpack(">d", bytes.fromhex(n["v"]))[0])
            for v in n.values(): walk(v)
        elif isinstance(n, list):
            for v in n: walk(v)
    walk(ops)
    return out or {"none": ""}

def f_tree(r):
    g = G(r, 4, r.random() < 0.3)
    for a in "AB": g.add("create", a=a, tree=g.tree(2), form=r.randrange(3), lit=1)
    w = dict(create=2, setv=3, seth=2, key=6, idx=5, add=4, rmk=3, rmi=3, clear=2, count=3, exists=2, kind=1, isempty=1, get=2, copy=2, sett=1, eq=1)
    for _ in range(30): g.step(w)
    return g
def f_alias(r):
    g = G(r, 3, False); g.H = ["A", "B", "C", "D"]
    for a in "ABC": g.add("create", a=a, tree=g.tree(3), form=0)
    g.add("mnew", m="m", a="A", s=hx("s"), top=hx("t"))
    w = dict(copy=3, seth=5, key=8, idx=6, setv=5, add=3, mnew=2, mget=2, mcopy=1, rmk=1, rmi=1, clear=1, sett=1, wire=1, eq=1)
    for _ in range(26): g.step(w)
    return g
def f_equal(r):
    g = G(r, 4, True); g.M = ["m", "n"]; g.more = [b"%d" % i for i in range(10)]
    for _ in range(7):
        t = g.tree(r.choice([0, 1, 2, 3, 4]), 0.2); u = g.near(t)
        g.add("create", a="A", tree=t, form=r.randrange(3), lit=1); g.add("create", a="B", tree=u, form=r.randrange(3)); g.add("copy", a="C", b="A", form=0)
        for a, b in ("AB", "BA", "AA", "AC", "CA", "BC"): g.add("eq", a=a, b=b)
        s, s2, top, top2 = g.name(), g.name(), g.name(), g.name()
        g.add("mnew", m="m", a="A", s=s, top=top); g.add("mnew", m="n", a=r.choice("AB"), s=r.choice([s, s, s2]), top=r.choice([top, top, top2]))
        for m, o in ("mn", "nm", "mm"): g.add("meq", m=m, o=o)
        g.add("mcopy", m="n", o="m", form=r.randrange(2)); g.add("meq", m="m", o="n")
    return g
def f_path(r):
    g = G(r, 5, r.random() < 0.5)
    for _ in range(3):
        g.add("create", a="A", tree=g.tree(4, 0.1), form=0)
        for _ in range(4):
            g.add("key", a=r.choice("BC"), b=r.choice("AABC"), s=g.key())
        if r.random() < 0.5: g.step(dict(setv=1, sett=1, rmk=1, add=1, clear=1))
        for _ in range(14):
            t, d = g.value(); g.add("path", a=r.choice("AAABC"), p=g.path(), t=t, **{"def": d})
    # paths that certainly lead somewhere
    t = {"k": "v", "t": "i", "v": "5"}; ks = [r.choice(g.keys) for _ in range(r.randint(1, 6))]
    for k in reversed(ks): t = {"k": "d", "d": {hx(k): t, hx(g.keys[0]) + "7a": I(1)}}
    g.more = [g.keys[0] + b"z"]
    g.add("create", a="A", tree=t, form=0)
    p = b"/".join(ks)
    for q in (p, p + b"/", p + b"//", b"/" + p, p[:-1], p + b"/x", b"/".join(ks[:-1]), p.replace(b"/", b"//")):
        for ty, d in (("i", "7"), ("d", dbl(1.5)), ("s", hx("z")), ("b", "1")):
            g.add("path", a="A", p=hx(q), t=ty, **{"def": d})
    return g
def f_wire(r):
    g = G(r, 8, True); g.M = ["m", "n"]
    for i in range(5):
        t = g.tree(r.choice([0, 1, 2, 3, 5]), 0.15)
        if r.random() < 0.15:
            for _ in range(r.randint(5, 40)): t = L(t) if r.random() < 0.5 else {"k": "d", "d": {g.key(): t}}
        if r.random() < 0.15: t = L(*[g.tree(0) for _ in range(r.choice([20, 60]))])
        g.add("create", a="A", tree=t, form=0)
        g.add("mnew", m="m", a="A", s=g.name(), top=g.name())
        if r.random() < 0.3: g.add("prepend", m="m", n=hx("link0"))
        g.add("wire", m="n", o="m"); g.add("meq", m="m", o="n")
        if r.random() < 0.4: g.add("wire", m="m", o="n"); g.add("mget", a="B", m="m"); g.add("eq", a="A", b="B")
    return g
def f_trail(r):
    g = G(r, 3, False); g.M = ["m", "n"]
    names = [b"a", b"ab", b"b", b"link0", b"link", b"link01", b"link1", b"", b"aa", "ü".encode(), b"lin", b"0"]
    ns = r.sample(names, 5) + [b"a", b"ab"]
    starts = [b"", b"a", b"ab", b"b", b"a/b", b"link0", b"link0/x", b"link", b"root/child", b"link01/x", b"//", b"/", b"aa/a"]
    g.add("create", a="A", tree=g.tree(2), form=0)
    for m in "mn": g.add("mnew", m=m, a="A", s=hx(r.choice(starts + ns)), top=hx(r.choice([b"/t", b"a", b"a/b"])))
    for _ in range(40):
        p = r.random(); m = g.m(); n = hx(r.choice(ns))
        if p < 0.3: g.add("prepend", m=m, n=n)
        elif p < 0.6: g.add("wassent", m=m, n=n)
        elif p < 0.85: g.add("remove", m=m, n=n)
        elif p < 0.9: g.add("mcopy", m=m, o=g.m(), form=r.randrange(2))
        elif p < 0.95: g.add("wire", m=m, o=g.m())
        else: g.add("mnew", m=m, a="A", s=hx(r.choice(starts + ns)), top=hx("t"))
    return g

# ---- JSON ----
def jdoc(g, depth, leaf):
    r = g.r; p = r.random()
    if depth == 0 or p < leaf:
        k = r.choice("nbiifsss")
        if k == "n": return {"j": "n"}
        if k == "b": return {"j": "b", "v": r.choice("01")}
        if k == "i": return {"j": "i", "v": str(r.choice(INTS + [r.randrange(-2**31, 2**31)]))}
        if k == "f": return {"j": "f", "v": dbl(r.choice([x for x in DOUBLES if abs(x) != float("inf")] + [r.uniform(-1e6, 1e6)]))}
        s = r.choice([b"", b"a", "äöü€😀".encode(), b"\"\\/", b"\n\t\r\b\f", b"a\0b", b"\x01\x1f", b"x" * 200, b"true", b"{\"a\":1}", b"[1,2", b"12", "\u2028".encode(), b"'", b"//", b"/* */", b"\x7f"])
        return {"j": "s", "v": hx(s)}
    if p < leaf + (1 - leaf) / 2:
        return {"j": "a", "a": [jdoc(g, depth - 1, leaf + 0.1) for _ in range(r.choice([0, 0, 1, 2, 3, 4]))]}
    return {"j": "o", "o": {k: jdoc(g, depth - 1, leaf + 0.1) for k in r.sample([hx(k) for k in g.keys], r.choice([0, 0, 1, 2, 3]))}}
def jstring(b, r):
    out = '"'
    for ch in b.decode():
        o = ord(ch); p = r.random()
        if ch == '"' or ch == "\\": out += "\\" + ch
        elif o < 0x20:
            short = {"\n": "\\n", "\t": "\\t", "\r": "\\r", "\b": "\\b", "\f": "\\f"}
            out += short[ch] if ch in short and p < 0.7 else "\\u%04x" % o
        elif ch == "/" and p < 0.4: out += "\\/"
        elif o > 0x7e and p < 0.5 or p < 0.05:
            if o < 0x10000: out += "\\u%04X" % o
            else: o -= 0x10000; out += "\\u%04x\\u%04x" % (0xd800 + (o >> 10), 0xdc00 + (o & 1023))
        else: out += ch
    return out + '"'
def jtext(d, r):
    ws = lambda: r.choice(["", "", "", " ", "\n", "\t", "  \r\n"])
    k = d["j"]
    if k == "n": return "null"
    if k == "b": return "true" if d["v"] == "1" else "false"
    if k == "i": return d["v"]
    if k == "f":
        s = repr(struct.unpack(">d", bytes.fromhex(d["v"]))[0])
        return s if "." in s or "e" in s else s + ".0"
    if k == "s": return jstring(bytes.fromhex(d["v"]), r)
    if k == "x":
        return "".join("[" + ws() if w == "l" else "{" + jstring(bytes.fromhex(w[1:]), r) + ws() + ":" for w in d["p"]) + jtext(d["d"], r) + "".join("]" if w == "l" else "}" + ws() for w in reversed(d["p"]))
    if k == "a": return "[" + ws() + ",".join(ws() + jtext(x, r) + ws() for x in d["a"]) + "]"
    return "{" + ws() + ",".join(ws() + jstring(bytes.fromhex(kk), r) + ws() + ":" + ws() + jtext(x, r) + ws() for kk, x in d["o"].items()) + "}"
BAD = ["{", "[", "", " ", "{\"a\"", "{\"a\":", "{\"a\" 1}", "{1:2}", "[1 2]", "[}", "{]", "{\"a\":1]", "[1}", "tru", "nul", "{\"a\":tru}", "[nope]", "{a:1}", "[\"unterminated]", "{\"a\":}", "[,]", "[,1]", "{,}", "}", "]", ":", "\"abc",
       "[1,2", "[[[", "{\"a\":{\"b\":[1,{\"c\":", "[\"\\x\"]", "[\"\\u12\"]", "[-]", "@", "[1,@]", "<a/>", "a=b", "[\"a\":1]", "{\"a\",1}", "\\"]
def f_json(r):
    g = G(r, 8, True)
    g.keys = [k for k in KEYS if k != b"k\0k"]
    for i in range(6):
        d = jdoc(g, r.choice([1, 2, 3, 4, 5]), 0.1)
        while d["j"] not in "ao": d = jdoc(g, 3, 0.1)
        if r.random() < 0.1:
            for _ in range(r.randint(10, 60)): d = {"j": "a", "a": [d]} if r.random() < 0.5 else {"j": "o", "o": {g.key(): d}}
        t = jtext(d, r).encode()
        if r.random() < 0.2: t = b" \n" + t
        g.add("json", a="A", whole=True, doc=d, text=t.hex())
        for _ in range(2):
            s = t.lstrip(); g.add("json", a="B", whole=False, doc={"j": "n"}, text=(t[:r.randrange(len(t) - len(s), len(t))] if r.random() < 0.7 else t[:-1]).hex())
        b = r.choice(BAD); g.add("json", a="C", whole=False, doc={"j": "n"}, text=hx(b))
        if b.startswith("[") and r.random() < 0.5 and b[-1:] != "]": g.add("json", a="C", whole=False, doc={"j": "n"}, text=hx("[" * r.randint(1, 40) + b))
        g.add("kind", a="A")
    return g
def f_bytes(r):
    g = G(r, 6, True); g.M = ["m", "n"]
    t = g.tree(r.choice([0, 1, 2, 3]), 0.2)
    g.add("create", a="A", tree=t, form=0); g.add("mnew", m="m", a="A", s=g.name(), top=g.name())
    for i in range(25):
        muts = []; p = r.random()
        if p < 0.05: pass
        elif p < 0.25: muts.append({"k": "cut", "n": r.randrange(1 << 16)})
        elif p < 0.5:
            for _ in range(r.choice([1, 1, 1, 2, 4])): muts.append({"k": "flip", "n": r.randrange(1 << 16), "bit": r.randrange(8)})
        elif p < 0.65:
            for _ in range(r.choice([1, 2, 3])): muts.append({"k": "byte", "n": r.randrange(1 << 16) if r.random() < 0.5 else r.randrange(32), "v": r.choice([0, 1, 255, 127, 128, 4, 8])})
        elif p < 0.85: muts.append({"k": "word", "n": r.randrange(1 << 16), "v": r.choice([0, 1, -1, 4, 8, 2147483647, -2147483648, 65536, 100000, -4, 16, 1000])})
        elif p < 0.9: muts.append({"k": "append", "v": bytes(r.randrange(256) for _ in range(r.choice([1, 4, 50]))).hex()})
        else: muts.append({"k": "set", "v": r.choice([b"", b"\0", b"\0\0\0\0", b"\xff" * 4, b"\xff" * 64, b"\0" * 64, b"\x04\0\0\0", b"hello world, this is no message", bytes(r.randrange(256) for _ in range(r.choice([3, 8, 40, 200])))]).hex()})
        g.add("bytes", m="n", o="m", mut=muts)
    g.add("wire", m="n", o="m"); g.add("meq", m="n", o="m")
    return g

def f_print(r):
    g = G(r, r.choice([4, 8]), r.random() < 0.6)
    for i in range(4):
        g.add("create", a="A", tree=g.tree(r.choice([0, 1, 2, 3, 4]), 0.2), form=r.randrange(3), lit=1); g.add("print", a="A")
        g.add("mnew", m="m", a="A", s=g.name(), top=g.name()); g.add("mprint", m="m")
        for _ in range(5):
            g.step(dict(setv=3, seth=2, key=5, idx=4, add=3, rmk=1, rmi=1, clear=1, copy=1, sett=1, create=1)); g.add("print", a=g.h())
        g.add("mprint", m="m"); g.add("wire", m="n", o="m"); g.add("mprint", m="n"); g.add("mget", a="B", m="n"); g.add("print", a="B")
    return g

# ---- large values: lists of hundreds of elements, many keys, long texts, deep nesting (observed from time to time only) ----
def big(g, kind):
    r = g.r
    if kind == "list": return L(*[g.tree(r.choice([0, 0, 0, 1]), 0.6) for _ in range(r.choice([60, 130, 257, 300]))])
    if kind == "huge":         # under a key or in a list
        n = r.choice([513, 700, 1001, 1025])
        if r.random() < 0.5: g.more = getattr(g, "more", []) + [b"h%d" % i for i in range(n)]; t = {"k": "d", "d": {hx(k): g.tree(0) for k in g.more}}
        else: t = L(*[g.tree(0) for _ in range(n)])
        return r.choice([lambda x: x, lambda x: L(I(1), x, I(2)), lambda x: {"k": "d", "d": {g.key(): x}}])(t)
    if kind == "dict":
        g.more = getattr(g, "more", []) + [b"k%d" % i for i in range(r.choice([70, 140, 260]))]
        return {"k": "d", "d": {hx(k): g.tree(0) for k in g.more}}
    if kind == "text":
        n = r.choice([255, 256, 1000, 4095, 4096, 65535, 65536, 70000])
        return r.choice([lambda x: x, L, lambda x: {"k": "d", "d": {g.key(): x}}])(S(bytes([r.choice([97, 0, 255])]) * (n - 1) + b"e"))
    g.deep = True
    return {"k": "n", "p": [r.choice(["l", "d" + g.key()]) for _ in range(r.choice([30, 70, 110, 150, 220]))], "t": g.tree(1)}
BIG = ["list", "dict", "text", "deep"]
def f_large(r):
    g = G(r, 4, False); g.H = ["A", "B", "C"]; g.M = ["m", "n"]; kind = r.choice(BIG)
    t = big(g, kind); g.every = 12
    g.add("create", a="A", tree=t, form=0)
    if kind == "list" and r.random() < 0.5:
        for _ in range(r.choice([20, 70])): g.add("add", a="A", tree=g.tree(0), form=0)
    if kind == "dict":
        for _ in range(10): g.add("key", a="C", b="A", s=hx(r.choice(g.more))); g.add("setv", a="C", t="i", v="7", form=0)
        for _ in range(10): g.add("rmk", a="A", s=hx(r.choice(g.more)))
        for _ in range(10): g.add("exists", a="A", s=hx(r.choice(g.more)))
    if kind == "list":
        n = len(t["l"])
        for _ in range(8): g.add("idx", a="C", b="A", i=r.choice([0, n - 1, n - 2, r.randrange(n), 255, 256, n, n + 1])); g.add("setv", a="C", t="i", v="7", form=0)
        for _ in range(8): g.add("rmi", a="A", i=r.choice([0, n - 1, n - 5, r.randrange(n), 255, 256, n, n + 1])); g.add("count", a="A")
        if r.random() < 0.3:
            for _ in range(n - 10): g.add("rmi", a="A", i=0)
    if kind == "list" and r.random() < 0.7:         # a copy's nested parts are its own
        g.add("create", a="A", tree=L(*[r.choice([g.tree(0), L(I(i)), {"k": "d", "d": {g.key(): I(i)}}]) for i in range(r.choice([17, 33, 70]))]), form=0); t = g.ops[-1]["tree"]
        g.add("copy", a="B", b="A", form=r.randrange(2))
        for _ in range(6):
            i = r.randrange(len(t["l"])); x = t["l"][i]
            g.add("idx", a="C", b="B", i=i)
            if x["k"] == "l": g.add("idx", a="C", b="C", i=0)
            elif x["k"] == "d": g.add("key", a="C", b="C", s=r.choice(list(x["d"])))
            g.add("setv", a="C", t="s", v=hx("own"), form=0)
        g.add("eq", a="A", b="B")
    if kind == "deep":
        g.add("copy", a="B", b="A", form=0)
        g.every = 60
        for w in t["p"][:r.choice([len(t["p"]), len(t["p"]), 100, 1])]:
            if w == "l": g.add("idx", a="B", b="B", i=0)
            else: g.add("key", a="B", b="B", s=w[1:])
        g.add("setv", a="B", t="s", v=hx("end"), form=0)
    g.add("count" if kind in ("list", "dict") else "kind", a="A")
    g.add("copy", a="B", b="A", form=r.randrange(2)); g.add("eq", a="A", b="B")
    g.add("mnew", m="m", a="A", s=g.name(), top=g.name()); g.add("wire", m="n", o="m"); g.add("meq", m="m", o="n"); g.add("mget", a="C", m="n"); g.add("eq", a="C", b="B")
    g.add("key", a="D", b="B", s=hx("a")); g.add("eq", a="A", b="B"); g.add("clear", a="B"); g.add("seth", a="B", b="C"); g.add("eq", a="B", b="A")
    return g
def f_bigprint(r):
    g = G(r, 4, False); g.H = ["A", "B"]; g.M = ["m", "n"]; g.every = 50
    t = big(g, r.choice(BIG + ["huge"] * 3)); g.add("create", a="A", tree=t, form=0); g.add("print", a="A"); g.add("print", a="A")
    g.add("mnew", m="m", a="A", s=g.name(), top=g.name()); g.add("mprint", m="m"); g.add("wire", m="n", o="m"); g.add("mprint", m="n")
    if t["k"] == "d": g.add("key", a="B", b="A", s=r.choice(list(t["d"]))); g.add("print", a="B")
    if t["k"] == "l": g.add("idx", a="B", b="A", i=r.choice([0, len(t["l"]) - 1, len(t["l"])])); g.add("print", a="B"); g.add("print", a="A")
    return g
def f_huge(r):
    """As f_large, of one size more, observed at the end."""
    g = G(r, 4, False); g.H = ["A", "B", "C"]; g.M = ["m", "n"]; g.every = 50
    t = big(g, "huge"); g.add("create", a="A", tree=t, form=0); g.add("copy", a="B", b="A", form=r.randrange(2)); g.add("eq", a="A", b="B")
    g.add("mnew", m="m", a="A", s=g.name(), top=g.name()); g.add("wire", m="n", o="m"); g.add("meq", m="m", o="n"); g.add("mget", a="C", m="n"); g.add("eq", a="C", b="B")
    g.add("count", a="C") if t["k"] in "ld" else None
    if t["k"] == "l": g.add("rmi", a="B", i=len(t["l"]) - 1); g.add("eq", a="A", b="B"); g.add("idx", a="C", b="C", i=len(t["l"]) - 1); g.add("kind", a="C")
    if t["k"] == "d": k = r.choice(list(t["d"])); g.add("rmk", a="B", s=k); g.add("eq", a="A", b="B"); g.add("key", a="C", b="C", s=k); g.add("kind", a="C")
    return g
def f_vast(r):
    """A message of more than 4096 values."""
    g = G(r, 4, False); g.H = ["A", "B", "C"]; g.M = ["m", "n"]; g.every = 50
    g.add("create", a="A", tree=L(*[L(*[I(i * 100 + j) for j in range(65)]) for i in range(65)]), form=0)
    g.add("mnew", m="m", a="A", s=g.name(), top=g.name()); g.add("wire", m="n", o="m"); g.add("meq", m="m", o="n"); g.add("clear", a="A")
    return g
def f_bigequal(r):
    g = G(r, 4, False); g.every = 50
    for kind in r.sample(BIG, 2):
        t = big(g, kind); g.add("create", a="A", tree=t, form=0)
        for _ in range(3):
            u = json.loads(json.dumps(t))
            n = u; last = None
            if n["k"] == "n":
                if r.random() < 0.4: n["p"][r.randrange(len(n["p"]))] = r.choice(["l", "d" + g.key()])
                elif r.random() < 0.3: n["p"].pop()
                last = (n, "t"); n = n["t"]
            while n["k"] in "ld" and (n["l"] if n["k"] == "l" else n["d"]):     # changes or not the last, the first or some other thing
                ks = range(len(n["l"])) if n["k"] == "l" else sorted(n["d"]); c = n["l"] if n["k"] == "l" else n["d"]
                k = ks[-1] if r.random() < 0.5 else ks[0] if r.random() < 0.3 else r.choice(ks)
                last = (c, k); n = c[k]
            if r.random() < 0.7:
                v = V(*g.value()) if n["k"] != "v" or n["t"] != "s" or r.random() < 0.2 else V("s", n["v"][:-2] + "66")
                if last: last[0][last[1]] = v
                else: u = v
            g.add("create", a="B", tree=u, form=0); g.add("eq", a="A", b="B"); g.add("eq", a="B", b="A")
            g.add("mnew", m="m", a="A", s=hx("s"), top=hx("t")); g.add("mnew", m="n", a="B", s=hx("s"), top=hx("t")); g.add("meq", m="m", o="n")
    return g
def f_bigpath(r):
    g = G(r, 4, False); g.every = 60
    n = r.choice([20, 40, 80, 140]); ks = [r.choice(g.keys) for _ in range(n)]
    if r.random() < 0.3:
        g.more = [b"y" * r.choice([255, 256, 400])]; ks = ks[:6] + g.more
    v = g.value(); g.deep = True; t = {"k": "n", "p": ["d" + hx(k) for k in ks], "t": V(*v)}
    if r.random() < 0.3: t = {"k": "d", "d": {hx(ks[0]): {"k": "n", "p": t["p"][1:], "t": V(*v)}, hx(b"zz"): I(1)}}; g.more = getattr(g, "more", []) + [b"zz"]
    g.add("create", a="A", tree=t, form=0)
    for _ in range(10):
        q = ks[:] if r.random() < 0.6 else ks[:r.randrange(1, len(ks) + 1)]
        if r.random() < 0.3: q[r.randrange(len(q))] = r.choice(g.keys)
        ty, d = r.choice([v, v, v, g.value()]) ; d = g.value() if False else d
        p = b"/".join(q) + (b"/" if r.random() < 0.2 else b"")
        dd = {"i": "41", "d": dbl(4.5), "s": hx("def"), "b": "0"}[ty]
        g.add("path", a="A", p=hx(p), t=ty, **{"def": dd})
    return g
def f_deepjson(r): return f_bigjson(r, True)
def f_bigjson(r, deepest=False):
    g = G(r, 6, True); g.keys = [k for k in g.keys if k != b"k\0k"]; g.every = 6; kind = "deep" if deepest else r.choice(BIG)
    if kind == "list": d = {"j": "a", "a": [jdoc(g, 0, 0.3) for _ in range(r.choice([64, 200, 500]))]}
    elif kind == "dict":
        g.more = [b"k%d" % i for i in range(r.choice([40, 130, 300]))]; d = {"j": "o", "o": {hx(k): jdoc(g, 0, 0.3) for k in g.more}}
    elif kind == "text": d = {"j": "a", "a": [{"j": "s", "v": ("61" * (r.choice([256, 4096, 32768, 70000]) - 1)) + "62"}]}
    else:
        g.deep = True; d = {"j": "x", "p": [r.choice(["l", "d" + g.key()]) for _ in range(r.choice([800, 900, 990]) if deepest else r.choice([40, 100, 140, 260]))], "d": jdoc(g, 1, 0)}
    t = jtext(d, r).encode()
    g.add("json", a="A", whole=True, doc=d, text=t.hex())
    for n in (1, 2, r.randrange(1, len(t) - 10)): g.add("json", a="B", whole=False, doc={"j": "n"}, text=t.rstrip()[:-n].hex())
    g.add("kind", a="A")
    return g

FAMILIES = {"print": f_print, "bigprint": f_bigprint, "huge": f_huge, "vast": f_vast, "large": f_large, "bigequal": f_bigequal, "bigpath": f_bigpath, "bigjson": f_bigjson, "deepjson": f_deepjson, "tree": f_tree, "alias": f_alias, "equal": f_equal, "path": f_path, "wire": f_wire, "trail": f_trail, "json": f_json, "bytes": f_bytes}
def programs(family, seed, n):
    return [FAMILIES[family](random.Random("dg/%s/%d/%d" % (family, seed, i))).program("%s-%d-%d" % (family, seed, i)) for i in range(n)]
