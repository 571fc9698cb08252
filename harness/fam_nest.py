"""C22: nested mocks and snapshots leave no trace; validated against Nest.tla."""
import json, os, random
from harness import sandbox, tlc
from harness.common import known_findings

VALS = ["-", "=x", "=", "=ä y", "=q"]
NAMES = ["BTV_A", "BTV_B", "BTV_C"]
FNS = ["f", "g", "meth", "stat", "clas"]
CLAUSES = {"inside", "env-trace", "function-trace", "library-trace", "result"}


class Gen:
    def __init__(self, r):
        self.r, self.n, self.once = r, 0, set()

    def dec(self, top):
        r = self.r
        self.n += 1
        k = r.choice(["menv", "menv", "mmiss", "senv", "mfun", "mfun", "sfun", "req", "httpx", "setup", "setup"])
        if k in ("senv", "sfun", "req", "httpx"):
            # several of them do not meet
            free = [x for x in (NAMES if k == "senv" else FNS) if (k, x) not in self.once]
            if not free:
                k = "menv"
            self.once.add(k)
        m = []
        if k in ("menv", "mmiss"):
            m = [[n, r.choice(VALS if r.random() < .93 else ["bad"])] for n in r.sample(NAMES, r.randint(1, 3))]
        elif k == "senv":
            m = [[n, ""] for n in r.sample(free, r.randint(1, len(free)))]
            self.once |= {(k, n) for n, _ in m}
        elif k == "mfun":
            m = [[f, r.choice(["m1", "m2", "m3"])] for f in r.sample(FNS, r.randint(1, 3))]
        elif k == "sfun":
            m = [[f, ""] for f in r.sample(free, r.randint(1, min(3, len(free))))]
            self.once |= {(k, f) for f, _ in m}
        elif k == "setup":
            m = [[f"s{self.n}", r.choice(["ok", "ok", "ok", "ok", "bad", "late"])]]
        return {"k": k, "m": m, "id": str(self.n)}

    def decs(self, top=False):
        return [self.dec(top) for _ in range(self.r.choice([1, 1, 2, 2, 3, 4] if top else [1, 1, 2, 3]))]

    def body(self, depth, nests):
        r = self.r
        rv = []
        for _ in range(r.randint(1, 5)):
            o = r.choice(["set", "obs", "obs", "call", "call", "nest"] + (["raise"] if r.random() < .3 else []))
            x = {"op": o, "n": "", "v": "", "decs": [], "body": []}
            if o == "set":
                x["n"], x["v"] = r.choice(NAMES), r.choice(VALS)
            elif o == "obs":
                x["n"] = r.choice(NAMES)
            elif o == "call":
                x["n"] = r.choice(FNS)
            elif o == "raise":
                x["v"] = r.choice(["", "base", "exit"])
            elif depth > 0 and nests:
                x["v"] = r.choice(["", "catch"])
                x["decs"] = self.decs()
                x["body"] = self.body(depth - 1, nests)
            else:
                continue
            rv.append(x)
        return rv


def history(r):
    g = Gen(r)
    form = r.choice(["fn", "async", "async", "method"])
    h = {"form": form, "fns": FNS, "decs": g.decs(True), "body": g.body(2, form != "fn"), "steps": []}
    for k in range(r.randint(1, 3)):
        h["steps"].append({"s": r.random() < (.8 if k == 0 else .3), "S": r.random() < .1, "a": r.random() < .8,
                           "u": r.random() < .8, "env": {n: r.choice(VALS) for n in NAMES}, "real": f"r{k}."})
    h["combine"] = r.random() < .3
    return h


def loose(r):
    """programs which may fail while their snapshots are stored: only the traces they leave are judged"""
    g = Gen(r)
    h = {"form": r.choice(["fn", "async", "method"]), "fns": FNS, "decs": g.decs(True), "steps": [], "loose": True}
    for k in ("req", "httpx", "sfun"):
        if k not in g.once and r.random() < .7:
            h["decs"].insert(r.randrange(len(h["decs"]) + 1), {"k": k, "m": [[f, ""] for f in r.sample(FNS, 2)] if k == "sfun" else [], "id": k})
    named = sorted({n for d in h["decs"] if d["k"] in ("menv", "mmiss", "senv") for n, _ in d["m"]})
    h["body"] = []
    for _ in range(r.randint(1, 5)):
        o = r.choice(["http", "http", "http", "odd", "wipe", "call", "raise"] + ["set"] * bool(named))
        h["body"].append({"op": o, "n": {"http": r.choice(["requests", "httpx"]), "set": r.choice(named or [""]), "raise": ""}.get(o, r.choice(FNS)),
                          "v": {"http": r.choice(["ok", "bin", "bin", "refused"]), "set": r.choice(VALS)}.get(o, ""), "decs": [], "body": [],
                          "by": r.choice(["", "own", "mounted"]) if o == "http" else ""})
    for k in range(2):
        h["steps"].append({"s": r.random() < .8, "S": r.random() < .1, "a": True, "u": True, "env": {n: r.choice(VALS) for n in NAMES}, "real": f"r{k}."})
    return h


def trace(tid, h, o):
    return {"id": tid, "loose": bool(h.get("loose")), "fns": h["fns"], "decs": h["decs"], "body": h["body"],
            "steps": [dict(st, **{k: s[k] for k in ("log", "after", "others", "fntrace", "libtrace", "res")})
                      for st, s in zip(h["steps"], o)]}


def validate(chk, ts):
    path = os.path.join(sandbox.scratch(), "nest.json")
    with open(path, "w") as f:
        json.dump(ts, f)
    r = chk.tlc(tlc.run("NestTrace", env={"TRACES": path}, workers=8, timeout=1800))
    v = {x["id"]: x for x in r.printed}
    if len(v) != len(ts):
        raise tlc.TlcError(f"{len(ts)} programs but {len(v)} verdicts\n" + r.output[-3000:])
    return v


def run(chk, farm, hs):
    res = farm.run("harness.drv_nest", "run_history", hs, timeout=60)
    ts, keep = [], {}
    for k, (h, x) in enumerate(zip(hs, res)):
        if x["status"] != "done":
            raise tlc.TlcError("nesting driver failed: " + str(x)[:3000])
        ts.append(trace(f"n{k}", h, x["value"]))
        keep[f"n{k}"] = (h, x["value"])
    vs = validate(chk, ts)
    chk.traces += sum(len(t["steps"]) for t in ts)
    seen = {}
    for tid, v in vs.items():
        h, o = keep[tid]
        for c in v["bad"]:
            seen[c] = seen.get(c, 0) + 1
        if v["bad"]:
            b = v["log"][0]
            chk.violation("+".join(sorted(b["bad"])), f"decorators {json.dumps(h['decs'])} body {json.dumps(h['body'])} run "
                          f"{json.dumps(h['steps'][b['step'] - 1])}: {json.dumps(o[b['step'] - 1])[:2500]} specification "
                          f"{json.dumps(b['want'])}"[:4000], {"history": h, "family": "fam_nest"})
    if seen:
        chk.info["clauses_seen"] = seen
    chk.info["programs"] = len(hs)
    return vs


def check(chk, replay=None):
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    farm = sandbox.Farm(preload=("booktest", "coverage", "requests", "httpx"), paths=(here,))
    try:
        err = farm.start()
        if err:
            chk.violation("import", "booktest cannot be imported: " + err[-500:], {})
            return
        if replay:
            run(chk, farm, [replay["data"]["history"]])
            return
        m = chk.tlc(tlc.run("NestMC", workers=8, check=False, consts={"Depth": chk.pick(1, 2)}, quick_jit=not chk.thorough))
        if m.violated:
            raise tlc.TlcError("the specification violates " + m.violated)
        r = random.Random(chk.seed * 1000 + int(chk.prop[1:]))
        hs = [history(r) for _ in range(chk.pick(1200, 20000))]
        hs += [loose(r) for _ in range(chk.pick(300, 5000))]
        vs = run(chk, farm, hs)
        k = next(iter(vs))
        chk.sample({"verdict": vs[k], "history": hs[0]})
    finally:
        farm.close()
