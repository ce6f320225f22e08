"""What all checks share: reporting, known findings, evidence, replay files."""
import hashlib, json, os, sys, time
from build import VERIF, BUILD

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
KNOWN = os.path.join(VERIF, "known_findings.json")

class Check:
    def __init__(self, prop, tier=None, seed=None, level="model_checking"):
        self.prop, self.tier, self.seed, self.level = prop, tier or TIER, SEED if seed is None else seed, level
        self.t0 = time.time()
        self.violations = []          # (what, replay object)
        self.known_hits = []
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.known = []
        if os.path.exists(KNOWN):
            self.known = [k for k in json.load(open(KNOWN))["findings"] if k["property"] == prop and k["status"] == "open"]

    @property
    def thorough(self):
        return self.tier == "thorough"

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    def add(self, key, n):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, s, limit=3):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(s if len(json.dumps(s)) < 6000 else json.dumps(s)[:6000])

    def violation(self, what, replay, key=None):
        """key identifies the failing input or history; a known finding lists the keys it covers."""
        for k in self.known:
            if key is not None and key in k.get("keys", []):
                self.known_hits.append((k, what))
                return
        self.violations.append((what, replay))

    def finish(self):
        for k in {id(k): k for k, _ in self.known_hits}.values():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        self.cov["wall_build_and_run_s"] = round(time.time() - self.t0, 1)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        d = os.path.join(VERIF, "evidence"); os.makedirs(d, exist_ok=True)
        body = json.dumps(ev, indent=1)
        if len(body) > 60000:
            ev["coverage"]["samples"] = [json.dumps(s)[:1500] for s in ev["coverage"]["samples"][:2]]
            body = json.dumps(ev, indent=1)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            f.write(body + "\n")
        if self.violations:
            rd = os.path.join(BUILD, "replay"); os.makedirs(rd, exist_ok=True)
            for what, replay in self.violations[:5]:
                b = json.dumps(replay, indent=1)
                p = os.path.join(rd, "%s-%s.json" % (self.prop, hashlib.sha256(b.encode()).hexdigest()[:12]))
                with open(p, "w") as f:
                    f.write(b + "\n")
                print("  " + what.replace("\n", "\n  "))
                print("VIOLATION property=%s replay=%s" % (self.prop, p), flush=True)
            return 1
        self.log("held on everything explored")
        return 0
