"""Model checking of the specifications themselves: the listed properties, stated over what users see, hold in every behaviour
of spec/X.tla within small bounds (spec/XMC.tla), and the situations in which they could fail are reached."""
import os, re, tempfile, threading
import tlc
from build import BUILD

BUSOPS = {"C01": ["start0", "pub0", "pub1", "sub12", "none11"], "C02": ["start0", "pub0", "pub1"], "C03": ["start0", "pub0", "pub1"], "C04": ["start0", "pub1", "del11", "del10", "delpub"],
          "C05": ["start0", "pub1", "stop0", "stop1", "start1", "detach"], "C06": ["kid", "kid2", "get", "detach"], "C07": ["start0", "pub0", "del11", "stop0", "kid2", "sub12"]}
BUSINV = {"C01": ["Once", "Fitting", "Complete"], "C02": ["OneOrder", "RealTime", "OneCallback", "InStep"], "C03": ["OnlyPublished"], "C04": ["NotRunning", "Mute", "/Silence"],
          "C05": ["/Asleep", "/NotOwedAsleep", "/NotPermittedAsleep", "Complete"], "C06": ["Names"], "C07": ["NeverStuck", "Complete"]}
BUSSIT = {"C01": ["two delivered", "half delivered"], "C02": ["two delivered", "two pending"], "C03": ["two delivered"], "C04": ["deleted in a callback", "deletion waits", "deleted and delivered"],
          "C05": ["pending while stopped"], "C06": ["a child was refused"], "C07": ["deleted in a callback", "deletion waits"]}
RPCINV = {"C09": ["AtMostOnce", "OwnResponse", "FirstResponse", "UniqueIds"], "C10": ["InTime", "/NotEarly", "/NotMissed"], "C11": ["AskedOnce", "AllAsked", "NothingElse", "NeverStuck"]}
HOSTINV = {"C19": ["OwnBus", "Numbered", "SenderIsName"], "C20": ["Orderly", "AllGone", "InOpenLibrary", "EndedFirst"], "C21": ["InOrder", "AllMade"], "C22": ["OnlyAsked", "CanStop", "AllGone"], "C23": ["FromProper", "OneTemplate"]}
UTILITIES = {"C26": [("paths", 2, ["PathsFit", "CombineFits"], ["an extension"]), ("files", 3, ["Tree", "Somewhere", "ListedExist", "AllListed", "NoListOfFile"], ["two listed", "through a link", "a link to nothing"])],
             "C28": [("configs", 3, ["Compared"], ["equal", "different"])], "C30": [("buffers", 5, ["Buffered"], ["two chunks"])],
             "C32": [("failures", 1, ["Named"], ["DuplicateKey", "KeyNotFound", "IndexOutOfBounds", "ArgumentNull"])], "C33": [("settings", 6, ["Kept"], ["two paths"])]}

def q(x):
    if isinstance(x, bool): return "TRUE" if x else "FALSE"
    if isinstance(x, (list, set, tuple)): return "{" + ", ".join(q(y) for y in x) + "}"
    return '"%s"' % x if isinstance(x, str) else str(x)

def models(prop, thorough):
    """(module, constants, invariants and /properties, situations)"""
    if prop in BUSOPS:
        calls = {"C02": 4, "C03": 4, "C06": 4}.get(prop, 4) + (1 if thorough else 0)
        return [("BusMC", {"Calls": calls, "Clients": ["x", "y"] if prop != "C07" or thorough else ["x"], "Ops": BUSOPS[prop]}, BUSINV[prop] + ["Note"], BUSSIT[prop])]
    if prop in RPCINV:
        c = {"C09": ({"Calls": 3, "Clients": ["x"], "Ops": ["req", "resp"], "Consumers": ["c", "d"]}, ["answered twice"]),
             "C10": ({"Calls": 3, "Clients": ["x"], "Ops": ["breq", "resp"], "Consumers": ["c"]}, ["blocking answered", "answered too late"]),
             "C11": ({"Calls": 3, "Clients": ["x"], "Ops": ["req", "raw"], "Consumers": ["c"]}, ["two requests at two providers"])}[prop]
        if thorough: c[0].update({"C09": {"Calls": 4}, "C10": {"Clients": ["x", "y"]}, "C11": {"Clients": ["x", "y"]}}[prop])
        return [("RPCMC", c[0], RPCINV[prop] + ["Note"], c[1])]
    if prop in HOSTINV:
        return [("HostMC", {"Entries": 3 if thorough else 2, "Words": 1, "Nulls": False, "Twins": True}, HOSTINV[prop] + ["Note"], ["two lived and ended", "heard by two", "a second instance", "settled"]),
                ("HostMC", {"Entries": 4 if thorough else 3, "Words": 0, "Nulls": True, "Twins": False}, HOSTINV[prop] + ["Note"], ["two lived and ended", "a second instance", "settled"])]
    if prop in ("C24", "C25"):
        inv = ["AllArrives", "Once", "Unchanged", "Trails", "NoEcho", "Note"] if prop == "C24" else ["NothingOfNone", "Note"]
        n = 4 if thorough else 3
        r = [("LinkMC", {"Topology": t, "Publications": n, "Closings": 0, "Frames": 0}, inv, ["two seen", "came through a link"]) for t in ("star", "chain")]
        return (r if prop == "C24" else []) + [("LinkMC", {"Topology": "both", "Publications": n - 1, "Closings": 1, "Frames": 2}, inv, ["two seen", "came through a link"])]
    if prop == "C27":
        return [("LogMC", {"Threads": ["t", "u", "w"], "Calls": 3 if thorough else 2}, ["Whole", "NothingElse", "InOrder", "Note"], ["two at once", "all written"])]
    if prop == "C31":
        inv = ["AnsweredOnce", "AllAnswered", "EveryInstance", "Greetings", "IsSettled", "Noted"]
        return [("SysInfoMC", {"Instances": 1, "Requests": 1, "Messages": 2 if thorough else 1, "Periods": 2}, inv, ["answered", "greeted twice", "noted"]),
                ("SysInfoMC", {"Instances": 2, "Requests": 1, "Messages": 0, "Periods": 0}, inv, ["answered"])]
    if prop in UTILITIES:
        return [("UtilitiesMC", {"Part": part, "Steps": steps + thorough}, inv + ["Note"], sits) for part, steps, inv, sits in UTILITIES[prop]]
    return []

def check_one(m, timeout):
    module, const, invs, sits = m
    f = tempfile.NamedTemporaryFile("w", suffix=".cfg", dir=BUILD, delete=False)
    f.write("SPECIFICATION MCSpec\nCONSTANTS\n" + "".join("  %s = %s\n" % (k, q(v)) for k, v in const.items()))
    f.write("INVARIANTS " + " ".join(i for i in invs if i[0] != "/") + "\n")
    if any(i[0] == "/" for i in invs): f.write("PROPERTIES " + " ".join(i[1:] for i in invs if i[0] == "/") + "\n")
    f.write("CHECK_DEADLOCK FALSE\n"); f.close()
    try:
        out = tlc.run_tlc(module, f.name, workers=2, timeout=timeout)
    finally:
        os.unlink(f.name)
    if out is None:
        return None, m
    if "Model checking completed. No error has been found" not in out:
        raise tlc.TlcError("%s %s: %s" % (module, const, tlc.brief(out)))
    missing = set(sits) - set(re.findall(r'<<"SITUATION", "([^"]*)">>', out))
    if missing:
        raise tlc.TlcError("%s %s: not reached: %s" % (module, const, sorted(missing)))
    return tlc.stats(out), m

class Models(threading.Thread):
    """Checks the models of a property next to its other work."""
    def __init__(self, check):
        super().__init__(daemon=True)
        self.check, self.results, self.error = check, [], None
        self.start()
    def run(self):
        try:
            for m in models(self.check.prop, self.check.thorough):
                self.results.append(check_one(m, 3000 if self.check.thorough else 240))
        except Exception as e:           # an error in the specification, not in the code: reported as such
            self.error = e
    def finish(self):
        self.join()
        if self.error: raise self.error
        for st, (module, const, invs, sits) in self.results:
            name = "%s(%s)" % (module, ", ".join("%s=%s" % kv for kv in const.items()))
            if st is None:
                self.check.add("models_not_finished_in_time", 1); continue
            self.check.add("states", st[1]); self.check.add("transitions", st[0]); self.check.add("models_checked", 1)
            self.check.cov.setdefault("models", []).append({"model": name, "distinct_states": st[1], "properties": [i.strip("/") for i in invs if not i.startswith("Note")], "situations_reached": sits})
