"""C29: the memory caches.  Spec: Lru.tla, LruMC.tla, LruTrace.tla."""
import json, os, random
from . import tlc, sandbox


def chunks(x, n):
    return [x[k:k + n] for k in range(0, len(x), n)]


def drive(farm, jobs):
    rv = []
    for x in farm.run("harness.drv_lru", "drive", chunks(jobs, 500), timeout=240):
        if x["status"] != "done":
            rv = None
            break
        rv += x["value"]
    return rv


def trace(k, a, o):
    return {"id": f"h{k}", "kind": a["kind"], "size": a["size"], "held": o["held"],
            "ops": [{"op": x[0], "k": x[1], "v": x[2], "got": g, "len": n} for x, (g, n) in zip(a["ops"], o["ops"])]}


def validate(chk, jobs, obs):
    path = os.path.join(sandbox.scratch(), "caches.json")
    with open(path, "w") as f:
        json.dump([trace(k, a, o) for k, (a, o) in enumerate(zip(jobs, obs))], f)
    r = chk.tlc(tlc.run("LruTrace", env={"TRACES": path}, workers=8, timeout=1800))
    v = {x["id"]: x for x in r.printed}
    if len(v) != len(jobs):
        raise tlc.TlcError(f"{len(jobs)} histories but {len(v)} verdicts\n" + r.output[-3000:])
    return v


def judge(chk, jobs, farm):
    obs = drive(farm, jobs)
    if obs is None:
        # an operation raised or did not end: find the history
        for a in jobs:
            x = farm.run("harness.drv_lru", "drive", [[a]], timeout=60)[0]
            if x["status"] != "done":
                chk.violation("breaks-down", f"history {a}: {str(x)[-800:]}", {"job": a})
                return
        raise tlc.TlcError("the driver of the caches failed")
    vs = validate(chk, jobs, obs)
    chk.traces += len(vs)
    for k, (a, o) in enumerate(zip(jobs, obs)):
        v = vs[f"h{k}"]
        if v["bad"] or o["extra"]:
            chk.violation("+".join(sorted(v["bad"])) or "evicted", f"cache {a['kind']} of {a['size']} after {a['ops'][:v['at']]}: "
                          f"observed {o}, specification {v['held']}", {"job": a})


def check(chk, replay=None):
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    farm = sandbox.Farm(preload=("booktest",), paths=(here,))
    try:
        err = farm.start()
        if err:
            chk.violation("import", "booktest cannot be imported: " + err[-500:], {})
            return
        if replay:
            judge(chk, [replay["data"]["job"]], farm)
            return
        # every history of the specification, and what it shows there
        r = chk.tlc(tlc.run("LruMC", consts={"Depth": chk.pick(6, 7), "Emit": "TRUE"}, workers=8, timeout=1800))
        hs = [x for x in r.printed if len(x["ops"])]
        jobs = [{"kind": "lru", "size": x["size"], "ops": [[o["op"], o["k"], o["v"]] for o in x["ops"]]} for x in hs]
        obs = drive(farm, jobs)
        chk.info["histories_replayed"] = len(jobs)
        if obs is None:
            judge(chk, jobs, farm)
        else:
            for x, a, o in zip(hs, jobs, obs):
                want = {e["k"]: e["v"] for e in x["end"]}
                if o["ops"] != x["shown"] or dict(o["held"]) != want or o["extra"]:
                    chk.violation("history", f"cache of {a['size']} after {a['ops']}: observed {o}, specification {x['shown']} {x['end']}",
                                  {"job": a})
            chk.traces += len(jobs)
        rnd = random.Random(chk.seed * 1000 + 529)
        jobs = []
        for _ in range(chk.pick(300, 6000)):
            size = rnd.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 13, 16])
            keys = [rnd.choice(["k", "", "a/b", "\u00e4", "0"]) + str(n) for n in range(rnd.choice([1, size, size + 1, 2 * size + 1, size + 5]))] or ["k"]
            bias = rnd.random()
            jobs.append({"kind": rnd.choice(["lru"] * 6 + ["none"]), "size": size, "full": rnd.random() < 0.7,
                         "ops": [[("set" if rnd.random() < bias else "get"), rnd.choice(keys), str(n)]
                                 for n in range(rnd.choice([5, 20, 60, 150]))]})
        judge(chk, jobs, farm)
        chk.sample({"history": jobs[0]})
    finally:
        farm.close()
