"""C19 to C23: hosts and plugin managers with generated plugin libraries and configuration files, validated against
spec/Host.tla; under the deterministic scheduler with stand-ins for the libraries, and as the real program with real ones."""
import concurrent.futures, json, os, random, shutil, signal, stat, subprocess, tempfile, threading, time
import build, dgprogs, sched

IDS = ["Alpha", "Beta", "Gamma", "x.y", "Link", "beta"]

def canon(v):
    if v is None: return "e"
    if isinstance(v, bool): return "b:%d" % v
    if isinstance(v, int): return "i:%d" % v
    if isinstance(v, str): return "s:" + v
    if isinstance(v, list): return "[" + ",".join(canon(x) for x in v) + "]"
    return "{" + "".join("%s=%s;" % (k, canon(v[k])) for k in ("a", "b", "id", "x") if k in v) + "%d}" % len(v)
def value(r, d=0):
    p = r.random()
    if p < 0.35 and d < 3: return {k: value(r, d + 1) for k in r.sample(["a", "b", "id", "x"], r.randint(0, 3))}
    if p < 0.5 and d < 3: return [value(r, d + 1) for _ in range(r.randint(0, 3))]
    return r.choice([0, 1, -7, 2147483647, "", "text", "Alpha", True, False, "a/b"])
MISSING = object()

class Layout:
    """Directories, libraries and configuration files."""
    def __init__(self, r, base, real, focus):
        self.r, self.base, self.real = r, base, real
        self.files, self.libs, self.added, self.paths, self.names = [], [], [], [], []
        self.dirs = {"exe": base + "/exe", "cwd": base + "/cwd", "lib": base + "/cwd/lib", "sub": base + "/cwd/sub", "add": base + "/add", "other": base + "/other"}
        if not real: self.dirs["exe!"] = self.dirs.pop("exe")     # there, the program is the driver
        elif r.random() < 0.3: self.dirs["exe"] = self.dirs["cwd"]
        for d in self.dirs.values():
            os.makedirs(d, exist_ok=True)
        if not real:
            if r.random() < 0.6: self.added.append("add"); self.paths.append(r.choice([self.dirs["add"], self.dirs["add"] + "/", "../add"]))
            if r.random() < 0.3: self.added.append("sub"); self.paths.append(r.choice(["sub", "./sub", self.dirs["sub"]]))
            if r.random() < 0.2: self.paths.append(base + "/nowhere")
            if r.random() < 0.15: self.paths.append(r.choice(self.paths + [self.dirs["cwd"], self.dirs["lib"], "."]))    # searched twice
        if not self.added and r.random() < 0.2: shutil.rmtree(self.dirs["lib"]); del self.dirs["lib"]
        searched = [d for d in ("exe", "cwd", "lib") if d in self.dirs and (real or d != "exe")] + self.added
        many = focus == "C23"
        n = r.choice([5, 7, 9, 11]) if many else r.choice([1, 2, 2, 3, 4])
        ids = IDS[:]; r.shuffle(ids)
        for i in range(n):
            good = r.random() < (0.45 if many else 0.85)
            kind = "good" if good or r.random() < 0.4 else r.choice(["text", "noinfo", "nullinfo", "nocreate", "emptyid"])
            name = ("libplugin_", "p%d" % i, "so") if good or r.random() < 0.4 else r.choice([("plugin_", "p%d" % i, "so"), ("lib", "p%d" % i, "so"), ("libplugin", "p%d" % i, "so"), ("xlibplugin_", "p%d" % i, "so"), ("Libplugin_", "p%d" % i, "so"),
                       ("libplugin_", "p%d" % i, "SO"), ("libplugin_", "p%d" % i, "sos"), ("libplugin_", "p%d.so" % i, "1"), ("libplugin_", "p%d" % i, ""), ("libplugin_", "p%d" % i, "dll"), ("libplugin_", "p%dso" % i, None), ("", "p%d" % i, "so")])
            if self.names and r.random() < 0.25: name = r.choice(self.names)       # of the same name as one elsewhere
            self.names.append(name)
            d = r.choice(searched) if good or r.random() < 0.6 else r.choice([x for x in self.dirs if x not in searched] or searched)
            if good and r.random() < 0.1: name = ("libplugin_", r.choice(["", "a.b", "libplugin_", ".so", "p%d so" % i]) + ("" if r.random() < 0.5 else "%d" % i), "so")
            fid = "" if kind == "emptyid" else (ids[i] if i < len(ids) and r.random() < (0.7 if many else 0.93) else r.choice(ids[:2]))
            self.lib(d, name, kind, fid, "dir" if not good and r.random() < 0.08 else "link" if r.random() < 0.05 else "broken" if not good and r.random() < 0.05 else "file")
        if self.real and self.dirs["exe"] == self.dirs["cwd"]:
            for f in self.files:
                if f["dir"] == "exe": f["dir"] = "cwd"
    def lib(self, d, name, kind, fid, node):
        r = self.r; fn = name[0] + name[1] + ("" if name[2] is None else "." + name[2])
        path = os.path.join(self.dirs[d], fn)
        if os.path.lexists(path): return
        b = {}
        f = {"dir": d, "pre": name[0], "ext": name[2] or "", "reg": node in ("file", "link"), "open": kind != "text", "info": {"noinfo": "none", "nullinfo": "null"}.get(kind, "good"), "creator": kind != "nocreate", "id": fid}
        self.files.append(f); i = len(self.files)
        real = path
        if node == "dir": os.makedirs(path)
        elif node == "broken": os.symlink(self.base + "/nothing", path)
        else:
            if node == "link": real = self.dirs["other"] + "/target%d" % i; os.symlink(real, path)
            if self.real and kind != "text": shutil.copyfile(fixture(kind), real)
            else:
                with open(real, "w") as fh: fh.write(self.r.choice(["", "no library", "\x7fELF"]))
        self.libs.append({"path": os.path.realpath(real), "given": path, "i": i, "kind": kind, "id": fid, "b": b, "node": node})
    def behaviours(self, stops):
        r = self.r
        for l in self.libs:
            b = l["b"]
            if r.random() < 0.5: b["rpub"] = r.choice([1, 1, 2, 3])
            if r.random() < 0.2: b["ipub"] = 1
            if r.random() < 0.3: b["isl"] = r.choice([100, 2000, 20000])
            if r.random() < 0.2: b["csl"] = r.choice([100, 5000])
            if r.random() < 0.3: b["roff"] = 1
            if r.random() < 0.25: b["rown"] = r.choice([0, 0, 500, 20000])
            elif r.random() < 0.3: b["rslow"] = r.choice([500, 5000, 200000])
            if r.random() < 0.2: b["lpub"] = 1
            if r.random() < 0.2: b["dsl"] = r.choice([500, 20000])
            if r.random() < 0.3: b["ddel"] = 0
            if r.random() < 0.12: b["nullat"] = r.choice([1, 2, 2, 3])
            if stops and r.random() < 0.4: b[r.choice(["fstop", "cstop", "istop", "rstop", "dstop", "gstop", "cbstop"])] = 1
            if r.random() < 0.5: b["int"] = 1
    def speclines(self):
        return [(l, "%d %s %s %s" % (l["i"], l["kind"], l["id"] or "~", " ".join("%s=%d" % kv for kv in sorted(l["b"].items())))) for l in self.libs]

def entries(r, ids):
    """(entry as JSON value, expected (type, conf) or None)."""
    out = []; n = r.choice([0, 1, 1, 2, 3, 5])
    if r.random() < 0.04: n = 14; ids = [r.choice(ids)]
    for _ in range(n):
        p = r.random()
        if p < 0.7:
            e = {"type": r.choice(ids) if r.random() < 0.93 else r.choice(["Nope", "alpha", "Alpha0", " Alpha", "Al"])}; c = MISSING
            if r.random() < 0.75: c = value(r) if r.random() < 0.3 else {k: value(r, 1) for k in r.sample(["a", "b", "id", "x"], r.randint(0, 4))}; e["configuration"] = c
            if r.random() < 0.15: e[r.choice(["a", "Type", "config", "plugins"])] = value(r)
            if r.random() < 0.3: e = dict(reversed(list(e.items())))
            out.append((e, (e["type"], "e" if c is MISSING else canon(c))))
        else:
            out.append((r.choice([5, "Alpha", None, [], {}, {"configuration": {"a": 1}}, {"type": 5}, {"type": None}, {"type": ["Alpha"]}, {"type": {"a": "Alpha"}}, {"type": ""}, True, [{"type": "Alpha"}], {"type": True, "configuration": 1}]), None))
    return out
def configfile(r, ids, path):
    """Writes a configuration file; returns the entries that it has."""
    es = entries(r, ids); p = r.random()
    doc = {"plugins": [e for e, _ in es]}
    if r.random() < 0.2: doc = {r.choice(["a", "version"]): value(r), **doc}
    text = json.dumps(doc, indent=r.choice([None, None, 1, 4]), separators=r.choice([None, (",", ":")]) )
    exp = [x for _, x in es if x]
    if p < 0.78: pass
    elif p < 0.81: return [], None
    elif p < 0.84: text, exp = "", []
    elif p < 0.88: text, exp = text[:r.randrange(len(text) - 1)], []
    elif p < 0.91: text, exp = r.choice(dgprogs.BAD), []
    elif p < 0.95: text, exp = json.dumps(r.choice([{"plugins": {"type": "Alpha"}}, {"plugins": "Alpha"}, {"plugins": None}, {"plugins": 3}, {"plugins": {}}, {"Plugins": doc["plugins"]}])), []
    elif p < 0.98: text, exp = json.dumps(r.choice([doc["plugins"], [doc], "plugins", 5, None, [], True])), []
    else:
        os.makedirs(path, exist_ok=True); return [], None
    with open(path, "w") as f: f.write(text)
    return exp, text

def sched_program(tag, seed, base, focus):
    r = random.Random(seed); manager = r.random() < {"C19": 0.75, "C20": 0.2}.get(focus, 0)
    L = Layout(r, base, False, focus)
    ids = [f["id"] for f in L.files if f["id"]] or ["Alpha"]
    stops = not manager and r.random() < (0.5 if focus == "C22" else 0.25)
    L.behaviours(stops)
    if manager:
        for l in L.libs:
            if r.random() < 0.3: l["b"]["nullat"] = r.choice([1, 2, 3])
            l["b"].pop("ddel", None)          # a manager's bus goes on running: what a plugin leaves there outlives it
    head = {"manager": manager, "files": L.files, "added": L.added, "entries": []}
    lines = ["prog " + tag, "cwd " + L.dirs["cwd"]] + ["path " + p for p in L.paths] + ["lib %s|%s" % (l["path"], s) for l, s in L.speclines() if l["node"] in ("file", "link")]
    if manager:
        t = ["pm"] + (["inst %s -1 -1 0" % r.choice(ids)] if r.random() < 0.2 else []) + ["load"]
        many = r.random() < 0.12
        for _ in range(r.choice([11, 13, 22]) if many else r.choice([2, 4, 6, 12])):
            i = ids[0] if many and r.random() < 0.95 else r.choice(ids) if r.random() < 0.85 else r.choice(["Nope", "~", "Alpha0", "alpha"])
            t.append("inst %s %d %d %d" % (i, r.choice([-1, -1, 0, 1]), r.choice([-1, r.randrange(20)]), r.random() < 0.6))
            if r.random() < 0.3: t.append("child %d %s%d" % (r.randrange(2), i, r.randrange(4)))
        for i in r.sample(ids, min(2, len(ids))) + ["Nope"]: t += ["child %d %s%d" % (h, i, k) for h in (0, 1) for k in (0, r.choice([1, 2, 5]))]
        t += ["settle 60000"] + r.choice([["unload", "endpm"], ["unload", "endpm"], ["drop", "endpm"], ["unloadheld", "release", "endpm"]])
        lines.append("thr " + "; ".join(t))
    else:
        for i in range(r.choice([0, 1, 1, 1, 2, 3]) if focus in ("C21", "C22") else r.choice([1, 1, 2])):
            p = "%s/conf%d" % (base, i); exp, _ = configfile(r, ids, p)
            if r.random() < 0.2: p = os.path.relpath(p, L.dirs["cwd"])
            head["entries"] += [{"type": a, "conf": b} for a, b in exp]; lines.append("conf " + p)
        early = focus == "C22" and r.random() < 0.4 or r.random() < 0.12
        lines.append("thr new; " + r.choice(["", "isst; "]) + (r.choice(["", "", "stop; "]) if early else "") + "start; isst" + r.choice(["", "; stop; isst"]))
        lines.append("thr waithost; " + "".join("sleep %d; isst; " % r.choice([0, 100, 3000]) for _ in range(r.choice([0, 1, 2, 4]))) + "settle 400000; stop; isst" + r.choice(["", "; stop", "; sleep 500; isst; stop"]))
        if early: lines.append("thr waithost; sleep %d; stop; %s" % (r.choice([0, 0, 10, 500, 5000, 30000]), r.choice(["", "stop; isst", "sleep 1000; stop; isst"])))
    return "\n".join(lines) + "\n", head

def fixture(kind):
    return _fix[kind if kind in ("noinfo", "nocreate") else "good"]
_fix = {}
NOUNIQ = ("-fno-gnu-unique",)
def driver():
    return build.sched_driver("host_driver", extra_srcs=[], libs=["-Wl,--wrap=dlopen,--wrap=dlsym,--wrap=dlclose,--wrap=dlerror", build.compile_obj(os.path.join(build.H, "dlstub.cpp"), "runtime")])
def program_and_fixtures():
    src = os.path.join(build.H, "fixture_lib.cpp")
    for k, d in (("good", ()), ("noinfo", ("-DNOINFO",)), ("nocreate", ("-DNOCREATE",))):
        _fix[k] = build.link("fixture-" + k, [build.compile_obj(src, "picasan", NOUNIQ + d)], ["-shared", "-fsanitize=address,undefined"])
    jobs = [(s, "asan") for s in build.lib_sources()] + [(os.path.join(build.REPO, "src", "main.cpp"), "asan")]
    points = build.compile_obj(os.path.join(build.H, "main_points.cpp"), "asan")
    return build.link("lamppost", [points] + build.compile_all(jobs), ["-fsanitize=address,undefined", "-rdynamic", "-Wl,--wrap=sigaction"] + build.LIBS)

def real_run(tag, seed, base, focus, exe):
    r = random.Random(seed)
    L = Layout(r, base, True, focus)
    ids = [f["id"] for f in L.files if f["id"]] or ["Alpha"]
    stops = r.random() < (0.5 if focus == "C22" else 0.2)
    L.behaviours(stops)
    for l, s in L.speclines():
        for p in {l["path"], l["given"]}:
            if l["node"] in ("file", "link"):
                with open(p + ".spec", "w") as f: f.write(s + "\n")
    prog = os.path.join(L.dirs["exe"], "lamppost")
    os.link(exe, prog)
    conf = base + "/conf"; exp, text = configfile(r, ids, conf)
    use = r.random() < 0.93
    if not use: exp = []
    fifo = use and text is not None and r.random() < (0.3 if focus == "C22" else 0.05)
    if fifo: os.unlink(conf); os.mkfifo(conf)
    evp = base + "/events"; open(evp, "w").close()
    def emit(e):
        fd = os.open(evp, os.O_WRONLY | os.O_APPEND); os.write(fd, (json.dumps(e) + "\n").encode()); os.close(fd)
    emit({"t": 0, "e": "c", "op": "start"})
    def seen():
        with open(evp) as f: return [json.loads(x) for x in f.read().split("\n")[:-1]]
    env = dict(os.environ, HOST_EVENTS=evp, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99", UBSAN_OPTIONS="halt_on_error=1")
    point = None
    if r.random() < (0.6 if focus == "C22" else 0.1):
        kind = r.choice(["hook"] + ["line"] * 7 + ["exit"] * 2)
        point = "%s %d %d" % (kind, r.randint(1, 70) if r.random() < 0.8 else r.randint(1, 200), r.choice([signal.SIGTERM, signal.SIGINT]))
        env["HOST_POINT"] = point
    p = subprocess.Popen([prog] + ([conf] if use else []), cwd=L.dirs["cwd"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    tail = []
    def reader():
        for line in p.stdout: tail.append(line.decode("utf8", "replace"))
    th = threading.Thread(target=reader, daemon=True); th.start()
    end = time.time() + 60
    def caught():            # the program handles both signals
        try:
            with open("/proc/%d/status" % p.pid) as f: m = dict(l.split(":", 1) for l in f if ":" in l)
            c = int(m["SigCgt"], 16) | int(m["SigIgn"], 16)
            return c & 1 << signal.SIGTERM - 1 and c & 1 << signal.SIGINT - 1
        except (OSError, KeyError): return True
    def sig():
        if p.poll() is None:
            emit({"t": 0, "e": "sig"})
            try: p.send_signal(r.choice([signal.SIGTERM, signal.SIGINT]))
            except ProcessLookupError: pass
    proper = {f["id"] for i, f in enumerate(L.files) if f["dir"] in ("exe", "cwd", "lib") and f["reg"] and f["pre"] == "libplugin_" and f["ext"] == "so" and f["open"] and f["info"] == "good" and f["creator"]} - {""}
    known = [e for e in exp if e[0] in proper]
    plan = r.choice(["settle", "settle", "early", "event", "deinit"]) if focus == "C22" else r.choice(["settle"] * 6 + ["event", "early"])
    if point: plan = "settle"
    while p.poll() is None and time.time() < end - 30 and not caught(): time.sleep(0.002)
    k = r.randint(1, 6 + 5 * len(known))
    if plan == "early": sig()
    if fifo:
        if r.random() < 0.5: time.sleep(r.choice([0, 0.01, 0.05])); sig()
        def feed():
            try:
                with open(conf, "w") as f: f.write(text)
            except BrokenPipeError: pass
        ft = threading.Thread(target=feed, daemon=True); ft.start()
    limit = time.time() + 20
    def expected(ev):        # everything that has to happen has: the instances run, and what was said was heard
        ready, want, got = [], set(), set(); n = 0
        for e in ev:
            if e["e"] == "inited": ready.append(e["name"])
            elif e["e"] == "said": want |= {(x, e["v"]) for x in ready + ["#0"]}
            elif e["e"] == "heard": got.add((e["by"], e["v"]))
            elif e["e"] == "run" or e["e"] == "create" and e["null"]: n += 1
        return n >= len(known) and want - {(x, v) for x, v in want if x == "#0"} <= got
    while p.poll() is None and time.time() < limit:
        ev = seen()
        if plan == "event" and len(ev) >= k: sig(); break
        if any(e["e"] == "sig" for e in ev): break
        if plan != "early" and expected(ev): emit({"t": 0, "e": "settled"}); break
        time.sleep(0.01)
    else:
        if p.poll() is None: emit({"t": 0, "e": "settled"})
    if p.poll() is None and (point is None or time.time() > limit or not any(e["e"] == "sig" for e in seen())): sig()
    if plan == "deinit":
        limit = time.time() + 5
        while p.poll() is None and time.time() < limit:
            if any(e["e"] in ("deinit", "gone") for e in seen()): break
            time.sleep(0.002)
        sig(); sig()
    try:
        p.wait(max(1, end - time.time()))
    except subprocess.TimeoutExpired:
        emit({"t": 0, "e": "hang"}); p.kill(); p.wait()
    th.join(5)
    emit({"t": 0, "e": "exit", "code": p.returncode})
    head = {"tag": tag, "mode": 0, "manager": False, "files": L.files, "added": [], "entries": [{"type": a, "conf": b} for a, b in exp], "plan": plan, "point": point or ""}
    tr = [head] + seen()
    for e in tr[1:]: e.setdefault("t", 0)
    if p.returncode not in (0, None): tr.append({"t": 0, "e": "crash", "output": "".join(tail)[-1500:]})
    return tr

def run(check):
    focus = check.prop
    driver(); check.log("driver built")
    exe = program_and_fixtures(); check.log("program built")
    base = tempfile.mkdtemp(prefix="hostfiles", dir=build.BUILD)
    try:
        rounds = [(320, 9, 0), (100, 6, 1), (160 if focus != "C19" else 40, 0, 0)] if not check.thorough else [(1200, 25, 0), (500, 25, 1), (800, 0, 0)]
        for n, (progs, schedules, mode) in enumerate(rounds):
            heads, ps, traces = {}, [], []
            if schedules:
                for i in range(progs):
                    tag = "host%s-%d-%d" % (focus, check.seed + n, i)
                    p, heads[tag] = sched_program(tag, "%s/%d" % (tag, n), "%s/%d-%d" % (base, n, i), focus); ps.append(p)
                traces, st = sched.run_driver(driver(), ps, check.seed, schedules, mode)
                for k, v in st.items(): check.add(k, v)
                if n == 0: check.sample({"program": ps[-1]}, 1)
            else:
                def one(i, k=0):
                    b = "%s/r%d-%d" % (base, i, k); os.makedirs(b)
                    try: return real_run("real%s-%d-%d" % (focus, check.seed, i), "%s/%d/%d" % (focus, check.seed, i), b, focus, exe)
                    finally: shutil.rmtree(b, ignore_errors=True)
                with concurrent.futures.ThreadPoolExecutor(12) as ex: traces = list(ex.map(one, range(progs)))
                check.add("program_runs", len(traces))
            check.log("round %d%s: %d programs, %d traces" % (n, "" if schedules else " (real program)", progs, len(traces)))
            def annotate(t):
                a = [dict(e) for e in t]
                if schedules: a[0] = dict(heads[t[0]["tag"]], tag=t[0]["tag"], mode=t[0]["mode"])
                return a
            again = None
            if not schedules:
                def once(t):
                    i = int(t[0]["tag"].rsplit("-", 1)[1])
                    with concurrent.futures.ThreadPoolExecutor(4) as ex: return list(ex.map(lambda k: one(i, k), range(4)))
                again = sched.again("HostTrace", once, annotate)
            if sched.validate(check, "HostTrace", traces, annotate, full_env=("FULL", "0", "0"), rerun=again):
                return
    finally:
        shutil.rmtree(base, ignore_errors=True)
    check.assumptions += ["library and configuration contents are generated; schedules are sampled", "the libraries are stand-ins where schedules are explored, and real ones in the runs of the real program (signals at chosen and at accidental moments)",
                          "template identifiers do not end in digits"]
