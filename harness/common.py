"""Shared check plumbing: evidence, verdict lines, known findings, replay files."""
import hashlib, json, os, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Check:
    def __init__(self, prop, tier=None, seed=None):
        self.prop = prop
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        self.seed = int(seed if seed is not None else os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.violations = []     # (clause, description, replay data)
        self.known = []          # (finding id, text)
        self.info = {}
        self.assumptions = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        rv = thorough if self.thorough else quick
        # smaller samples for mutation trials (tools/mutate.py)
        scale = float(os.environ.get("VERIF_SCALE", "1"))
        return max(30, int(rv * scale)) if scale != 1 and isinstance(rv, int) and rv > 30 else rv

    def tlc(self, r):
        self.states += r.distinct
        self.transitions += r.generated
        return r

    def violation(self, clause, text, data):
        self.violations.append((clause, text, data))

    def finding(self, fid, text):
        self.known.append((fid, text))

    def sample(self, x, limit=3):
        if len(self.samples) < limit:
            self.samples.append(x)

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "samples": self.samples or ["(none)"]}
        cov.update(self.info)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for fid, text in self.known:
            print(f"KNOWN-FINDING: property={self.prop} {fid}: {text}")
        if not self.violations:
            print(f"{self.prop}: held on {self.traces} validated executions, {self.states} specification states "
                  f"({ev['wall_s']} s)")
            return 0
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        shown = set()
        for clause, text, data in self.violations:
            if clause in shown and len(shown) >= 1 and sum(1 for c in shown if c == clause) >= 1:
                continue
            shown.add(clause)
            blob = json.dumps({"property": self.prop, "clause": clause, "text": text, "data": data},
                              indent=1, default=str)
            name = f"{self.prop}-{hashlib.sha1(blob.encode()).hexdigest()[:10]}.json"
            path = os.path.join(VERIF, "replays", name)
            with open(path, "w") as f:
                f.write(blob)
            print(f"{self.prop} [{clause}] {text}"[:1500])
            print(f"VIOLATION property={self.prop} replay={path}")
        print(f"{self.prop}: {len(self.violations)} violations")
        return 1


def known_findings():
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        return json.load(f)
