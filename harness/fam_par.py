"""C15-C18: parallel runs.  Spec: Par.tla, ParMC.tla, ParTrace.tla; the end state: Run.tla, RunTrace.tla."""
import json, os, random
from . import fam_run, tlc, sandbox, suites
from .common import known_findings

LIVE = {"crash", "hang"}
CLAUSES = {
    "C15": {"executed-unselected", "executed-twice", "started-early", "too-many", "not-executed"} | LIVE,
    "C16": {"resource-shared", "not-executed"} | LIVE,
    "C17": {"snapshot-changed", "ok-without-snapshot", "summary-hidden", "executed-twice", "not-executed", "not-recorded", "failure-hidden", "status-hidden"} | LIVE,
    "C18": {"not-executed", "not-recorded", "failure-hidden", "status-hidden", "summary-hidden"} | LIVE,
    # the parallel part of properties about all kinds of runs
    "C07": {"snapshot-changed"} | LIVE, "C08": {"ok-without-snapshot"} | LIVE, "C10": {"not-recorded", "record-lost"} | LIVE, "C11": {"executed-unselected", "not-recorded", "not-executed"} | LIVE, "C14": LIVE, "C32": {"index"} | LIVE,
    "C09": {"status-hidden", "summary-hidden"} | LIVE,
    "C05": {"failure-hidden"} | LIVE, "C12": {"not-executed", "not-stopped"} | LIVE,
    "C13": {"executed-unselected", "not-executed", "executed-twice", "started-early"} | LIVE,
    "C24": {"executed-unselected", "not-executed"} | LIVE,
}
# clauses of RunTrace
OUTCOME = {"C15": set(), "C16": set(), "C17": fam_run.CLAUSES["C17"],
           **{p: fam_run.CLAUSES[p] for p in ("C05", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C24", "C32")},
           "C18": {"record-missing", "record-result", "exit-status", "summary", "not-executed", "record-stale"}}
CORE = ("C15", "C16", "C17", "C18")
BREAKS = ["raise", "exit", "unp", "base", "cancel", "kbd", "genexit"]
NAMES = ["test/a", "test/ab", "test/s/x", "test/s/y", "book/z", "test/t/u/v", "test/a b", "book/s/x", "test/s.x", "test/t.u/v", "test/A", "test/a_b"]
# an apostrophe at the end: another value under the same identifier
RES = ["=gpu", "=port 80", "=gpu'", "=port 443", "=big file"]


def suite(r, prop):
    if prop != "C16" and r.random() < 0.25:
        return fam_run.suite(r, "C13")
    n = r.choice([2, 3, 3, 4, 4, 5, 6])
    names = r.sample(NAMES, n)
    cases = []
    shape = r.choice(["none", "sparse", "dense", "chain"])
    if prop in ("C15",) and shape == "none":
        shape = "dense"
    for k, nm in enumerate(names):
        deps = []
        if k and shape == "chain":
            deps = [f"f{k - 1}"]
        elif k and r.random() < {"none": 0, "sparse": 0.35, "dense": 0.8}.get(shape, 0):
            deps = [f"f{j}" for j in r.sample(range(k), r.choice([1, 1, min(2, k), min(3, k)]))]
        for _ in range(r.choice([0, 1, 1, 2]) if prop == "C16" else r.choice([0, 0, 0, 1])):
            x = r.choice(RES[:r.choice([1, 2, 3, 5])])
            if x.rstrip("'") not in [d.rstrip("'") for d in deps]:
                deps.insert(r.randrange(len(deps) + 1), x)
        cases.append({"name": nm, "fn": f"f{k}", "inst": "", "deps": deps, "async": r.random() < 0.2})
    r.shuffle(cases)
    return {"cases": cases}


def scripts(r, su, prop, old=None):
    dep = fam_run.depended(su)
    rv = {}
    for c in su["cases"]:
        if old and r.random() < 0.4:
            rv[c["name"]] = old[c["name"]]
            continue
        mode = "ok"
        if prop == "C18" and r.random() < 0.35:
            mode = r.choice(BREAKS + ["fail"])
        elif prop == "C17" and r.random() < 0.25:
            mode = r.choice(fam_run.FAILS + ["base"])
        elif r.random() < 0.06:
            mode = r.choice(["fail", "raise"])
        ret = r.choice(fam_run.RETS) if r.random() < (0.8 if c["fn"] in dep else 0.3) else ""
        rv[c["name"]] = {"text": r.choice(fam_run.TEXTS), "mode": mode, "ret": ret,
                         "att": r.choice(fam_run.ATTS) if prop == "C17" else ""}
    return rv


def gate(r, names):
    order = list(names)
    r.shuffle(order)
    return {"order": order, "batch": r.choice([[1], [1], [2], [1, 2], [9]])}


def history(r, prop):
    su = suite(r, prop)
    unsent = prop in ("C15", "C17", "C18") and r.random() < 0.06
    if unsent:
        # a test that does not reach the workers
        su = fam_run.suite(r, "C13")
        c = r.choice(su["cases"])
        for x in su["cases"]:
            if x["fn"] == c["fn"]:
                x["form"] = "unloadable" if c["inst"] else "lambda"
    names = [c["name"] for c in su["cases"]]
    sc = None
    segs = []
    env = []
    if r.random() < 0.4:
        # durations of an earlier run set the order in which cases are started
        durs = [r.randrange(0, 900) for _ in names]
        known = [n for n in names if r.random() < 0.9]
        env.append(["write", "books/.out/cases.txt",
                    "".join(f"{n}\t{r.choice(['OK', 'OK', 'DIFF', 'FAIL'])}\t{d}\n" for n, d in zip(known, durs))
                    + ("test/gone\tOK\t5\nbook/gone/too\tFAIL\t7\n" if r.random() < .3 else "")])
    if r.random() < 0.25:
        # leftovers of an earlier parallel run that was killed
        for n in r.sample(names, r.randrange(1, len(names) + 1)):
            env.append(["write", f"books/.out/.batches/{n.replace('/', '.')}/cases.txt",
                        f"{n}\t{r.choice(['OK', 'FAIL', 'DIFF'])}\t7\n"])
    # runs of one process, which keeps results in memory, some of them parallel
    long = prop in ("C13", "C14", "C17") and r.random() < (0.7 if prop == "C14" else 0.25)
    cap = r.choice([8, 8, 999, 1, 0])
    for k in range(r.choice([3, 4]) if long else r.choice([1, 1, 2, 2, 3] if prop == "C17" else [1, 1, 1, 2])):
        if sc is None or r.random() < 0.7:
            sc = scripts(r, su, prop, sc)
        inv = fam_run.invocation(r, su, prop, True, True)
        inv["cap"] = cap if long else 8
        inv["p"] = r.choice([1, 2, 2, 3, 4, 6])
        if r.random() < 0.1:
            inv["p"] = 99
        st = {"inv": inv, "sc": sc, "gate": gate(r, names)}
        if r.random() < 0.2:
            inv["i"] = True
            ok = all(x["mode"] == "ok" for x in sc.values()) and not any(c["deps"] for c in su["cases"])
            inv["ans"] = [r.choice("ac") if ok else "c"] * 20
        elif r.random() < (0.7 if prop == "C12" else 0.2):
            # a dialogue in the order in which results come in, which may stop the run
            inv[r.choice("iI")] = True
            inv["ans"] = [r.choice(["a", "a", "c", "c", "x", "abort", "A", "quit", "ca", " a "]) for _ in range(r.choice([0, 1, 2, 5] if prop != "C12" else [0, 0, 1, 2]))]
            inv["ans"] += r.choice([["q"] * 40, ["q"] + ["a"] * 60, ["q"] + ["c", "a"] * 30, ["c"] * 60])
        elif r.random() < (0.2 if prop in ("C09", "C10", "C11", "C18") else 0.05):
            # interrupted while tests are running, and continued
            st["gate"].update({"int": r.choice([0, 1, 1, 2, 3]), "alone": r.random() < 0.3})
            inv.update({k: False for k in "iIfvL"})
        elif r.random() < 0.15:
            # stops after the first case that is not ok: what was running is not specified
            inv["f"] = True
        if (k or long) and r.random() < (0.5 if long else 0.25):
            inv["p"] = 0
        if k and "int" in segs[-1]["steps"][-1].get("gate", {}):
            inv["c"] = inv["c"] or r.random() < 0.6
        if prop in ("C17", "C18") and inv["p"] and not unsent and "int" not in st["gate"] and r.random() < 0.15:
            inv["i"] = False
            st["setup"] = {"before": r.sample(range(1, len(names) + 2), r.choice([1, 1, 2])), "after": [],
                           "base": r.random() < 0.5}
        if unsent:
            inv["i"] = inv["I"] = inv["f"] = False
            st["unsent"] = True
        if prop == "C18" and inv["p"] and "setup" not in st and not unsent and "int" not in st["gate"] and r.random() < 0.2:
            # neither the output nor the result of a case can be written
            c = r.choice(names)
            inv["i"] = False
            st["broken"] = [c]
            env = env if k == 0 else []
            env.append(["mkdir", f"books/.out/{c}." + r.choice(["bin", "md"])])
            segs.append({"env": env, "steps": [st]})
            break
        if long and segs:
            if r.random() < 0.2:
                st["other"] = True
            segs[0]["steps"].append(st)
        else:
            segs.append({"env": env if k == 0 else [], "steps": [st]})
    return {"suite": su, "segments": segs}


def small(chk, r):
    """the schedules that the specification allows for small jobs"""
    n = 3
    a = chk.tlc(tlc.run("ParMC", workers=8, quick_jit=False, timeout=1200, heap="6g",
                        consts={"Res": "{1}" if not chk.thorough else "{1, 2}"}))
    e = chk.tlc(tlc.run("ParMC", cfg="ParEmit.cfg", workers=8, timeout=600))
    jobs = sorted(e.printed, key=lambda x: json.dumps(x, sort_keys=True))
    hs = []
    for x in r.sample(jobs, min(len(jobs), chk.pick(110, 2500))):
        names = {k: f"test/c{k}" for k in range(1, n + 1)}
        cases = [{"name": names[k], "fn": f"f{k}", "inst": "",
                  "deps": [f"f{d}" for d in x["deps"][k - 1]] + [f"=r{q}" for q in x["res"][k - 1]]}
                 for k in range(1, n + 1)]
        order = list(cases)
        r.shuffle(order)
        su = {"cases": order}
        inv = {"cmd": "run", "ans": [], "args": [], "cap": 8, "p": x["procs"]}
        inv.update({k: False for k in "cfauiIrvL"})
        dur = {c: 1000 - 10 * k for k, c in enumerate(x["starts"])}
        hs.append({"suite": su, "model": {"starts": [names[c] for c in x["starts"]], "ends": [names[c] for c in x["ends"]]},
                   "segments": [{"env": [["write", "books/.out/cases.txt",
                                          "".join(f"{names[c]}\tOK\t{dur[c]}\n" for c in sorted(dur))]],
                                 "steps": [{"inv": inv, "sc": {c["name"]: {"text": "v1", "mode": "ok", "ret": "r1", "att": ""}
                                                               for c in cases},
                                            "gate": {"order": [names[c] for c in x["ends"]], "batch": [1]}}]}]})
    return hs


def par_trace(tid, h, s, st):
    o = s["obs"]
    lost = 99 if st.get("unsent") else len(st.get("setup", {}).get("before", []))
    return {"id": tid, "S": suites.spec_suite(h["suite"]), "inv": fam_run.spec_inv(s["inv"]), 
            "procs": s["inv"]["p"] if s["inv"]["p"] != 99 else os.cpu_count(), "idx": o["w"]["idx"],
            "broken": sorted(st.get("broken", [])),
            "bin": s["pre"]["bin"], "rec": s["pre"]["rec"], "events": [e for e in o.get("events", []) if e["k"] != "int"],
            "int": any(e["k"] == "int" for e in o.get("events", [])), "reported": o.get("reported", []), "status": o["status"],
            "exp": s["pre"]["exp"], "expAfter": o["w"]["exp"],
            # what a test writes, where its dependencies do not show in it
            "text": {c["name"]: s["sc"][c["name"]]["text"] if not c["deps"] and s["sc"][c["name"]]["mode"] == "ok" else "~"
                     for c in h["suite"]["cases"]},
            "post": o["w"]["bin"], "after": o["w"]["rec"], "lost": lost, "rc": o["rc"], "sum": o["sum"],
            "fails": [c for c, x in s["sc"].items() if x["mode"] != "ok"]}


def validate(chk, traces):
    path = os.path.join(sandbox.scratch(), "par.json")
    with open(path, "w") as f:
        json.dump(traces, f)
    r = chk.tlc(tlc.run("ParTrace", env={"TRACES": path}, workers=8, timeout=1800))
    v = {x["id"]: x for x in r.printed}
    if len(v) != len(traces):
        raise tlc.TlcError(f"{len(traces)} parallel runs but {len(v)} verdicts\n" + r.output[-3000:])
    return v


def run(chk, farm, hs):
    res = farm.run("harness.drv_run", "run_history", hs, timeout=90)
    pts, rts, keep = [], [], {}
    for k, (h, x) in enumerate(zip(hs, res)):
        if x["status"] != "done" or not x["value"]:
            raise tlc.TlcError("parallel driver failed: " + str(x)[:3000])
        sts = [st for seg in h["segments"] for st in seg["steps"]]
        for j, (s, st) in enumerate(zip(x["value"], sts)):
            if s["inv"]["p"]:
                pts.append(par_trace(f"p{k}.{j}", h, s, st))
                keep[f"p{k}.{j}"] = (h, s, pts[-1])
        if OUTCOME[chk.prop] and not any("setup" in st or "unsent" in st or "int" in st.get("gate", {}) or "broken" in st or st["inv"]["f"] or "q" in st["inv"]["ans"]
                                           or len(set(st["inv"]["ans"])) > 1 for st in sts):
            rts.append(fam_run.trace(f"r{k}", h, x["value"]))
            keep[f"r{k}"] = (h, x["value"], rts[-1])
    vs = validate(chk, pts)
    chk.traces += len(vs)
    seen = {}
    reached = tried = 0
    overlap = 0
    for tid, v in vs.items():
        h, s, t = keep[tid]
        ev = t["events"]
        overlap += any(a["k"] == "start" and b["k"] == "start" for a, b in zip(ev, ev[1:]))
        if "model" in h:
            tried += 1
            reached += h["model"]["starts"] == v["starts"] and h["model"]["ends"] == v["ends"]
        for c in v["bad"]:
            seen[c] = seen.get(c, 0) + 1
        hit = set(v["bad"]) & CLAUSES[chk.prop]
        if hit:
            chk.violation("+".join(sorted(hit)), f"{json.dumps(s['inv'])} tests {json.dumps(s['sc'])} events "
                          f"{json.dumps(ev)} record {t['after']} status {t['status']} rc {t['rc']}: specification "
                          f"todo {v['todo']} {s['obs'].get('error')}"[:4000], {"history": h, "family": "fam_par"})
    if rts:
        ws = fam_run.validate(chk, rts)
        chk.traces += sum(v["steps"] for v in ws.values())
        for tid, v in ws.items():
            h, steps, _ = keep[tid]
            for b in v["bad"]:
                for c in b["bad"]:
                    seen[c] = seen.get(c, 0) + 1
                s = steps[b["step"] - 1]
                hit = set(b["bad"]) & OUTCOME[chk.prop]
                if hit:
                    chk.violation("+".join(sorted(hit)),
                                  f"step {b['step']} {json.dumps(s['inv'])} tests {json.dumps(s['sc'])} before "
                                  f"{json.dumps(s['pre'])}: booktest {json.dumps(s['obs'])[:3000]} specification "
                                  f"{json.dumps({k: v[k] for k in ('w', 'rc', 'log', 'ran', 'sum')})}",
                                  {"history": h, "family": "fam_par"})
    chk.info["parallel_runs"] = len(vs)
    chk.info["parallel_runs_with_overlap"] = overlap
    if tried:
        chk.info["schedules_of_the_model_tried"] = tried
        chk.info["schedules_of_the_model_reached_exactly"] = reached
    if seen:
        chk.info["clauses_seen"] = seen
    return vs


def findings(chk, farm):
    """the recorded defects of this property: still there?"""
    for f in known_findings()["findings"]:
        h = f.get("input", {}).get("history")
        if f["property"] == chk.prop and chk.prop in CORE and h:
            x = farm.run("harness.drv_run", "run_history", [h], timeout=60)[0]
            st = h["segments"][-1]["steps"][-1]
            v = validate(chk, [par_trace("f", h, x["value"][-1], st)])["f"]
            if set(v["bad"]) & set(f["input"]["clauses"]):
                chk.finding(f["id"], f["what"])


def check(chk, replay=None):
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    farm = sandbox.Farm(preload=("booktest", "coverage"), paths=(here,))
    try:
        err = farm.start()
        if err:
            chk.violation("import", "booktest cannot be imported: " + err[-500:], {})
            return
        if replay:
            run(chk, farm, [replay["data"]["history"]])
            return
        r = random.Random(chk.seed * 1000 + int(chk.prop[1:]))
        hs = [history(r, chk.prop) for _ in range(chk.pick(320 if chk.prop in CORE else 90, 4000 if chk.prop in CORE else 1000))]
        findings(chk, farm)
        hs += small(chk, r) if chk.prop in ("C15", "C16") else []
        vs = run(chk, farm, hs)
        k = next(iter(vs))
        chk.sample({"verdict": vs[k], "history": hs[0]})
    finally:
        farm.close()
