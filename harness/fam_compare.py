"""C01-C06: the comparison engine.  Spec: Compare.tla, CompareTrace.tla, CompareMC.tla."""
import json, os, random, re
from . import gen_compare as g, tlc, sandbox
from .common import known_findings

CLAUSES = {
    "C01": {"difference-hidden", "failure-hidden"},
    "C02": {"false-difference", "false-failure", "crash", "hang", "missing"},
    "C03": {"difference-hidden", "false-difference", "failure-hidden", "false-failure", "crash", "hang", "missing"},
    "C04": {"difference-hidden", "false-difference", "failure-hidden", "false-failure", "crash", "hang", "missing"},
    "C05": {"failure-hidden", "false-failure", "crash", "hang", "missing"},
    "C06": {"output", "marks", "report", "beside", "crash", "hang", "missing"},
}
FOCUS = {"C01": None, "C02": None, "C03": "section", "C04": "set", "C05": "fail", "C06": None}


def validate(chk, traces, workers=8):
    """runs CompareTrace on the recorded executions; returns id -> verdict"""
    d = sandbox.scratch()
    path = os.path.join(d, "traces.json")
    with open(path, "w") as f:
        json.dump({"alnum": g.ALNUM, "numeric": g.NUMERIC, "traces": traces}, f)
    r = chk.tlc(tlc.run("CompareTrace", env={"TRACES": path}, workers=workers, timeout=1800))
    v = {x["id"]: x for x in r.printed}
    if len(v) != len(traces):
        raise tlc.TlcError(f"{len(traces)} traces but {len(v)} verdicts\n" + r.output[-2000:])
    return v


def execute(farm, cases, batch=50):
    """cases: [{id, snap, ops}] -> observation per case; a broken batch is narrowed to its cases"""
    obs = {}
    batches = [cases[k:k + batch] for k in range(0, len(cases), batch)]
    res = farm.run("harness.drv_compare", "run_batch",
                   [{"cases": b} for b in batches], timeout=30)
    again = []
    for b, r in zip(batches, res):
        if r["status"] == "done" and all(x["status"] == "done" for x in r["value"]):
            for c, x in zip(b, r["value"]):
                obs[c["id"]] = x
        else:
            again.extend(b)
    if again:
        again = again[:400]
        res = farm.run("harness.drv_compare", "run_batch", [{"cases": [c]} for c in again], timeout=10)
        for c, r in zip(again, res):
            if r["status"] == "done":
                obs[c["id"]] = r["value"][0]
            else:
                obs[c["id"]] = {"status": r["status"], "error": r.get("error")}
    return obs


def trace_of(c, o):
    real = {"status": o["status"], "res": "", "out": [], "mark": [], "rep": [], "side": []}
    for k in ("res", "out", "mark", "rep", "side"):
        if k in o:
            real[k] = o[k]
    return {"id": c["id"], "ex": c["snap"] is not None,
            "exp": [] if c["snap"] is None else g.snap_lines(c["snap"]),
            "ops": [y for x in c["ops"] for y in g.spec_ops(x, c["id"])], "real": real}


def has(ops, kinds):
    return any(o["op"] in kinds for o in ops)


SECTION_OPS = {"h", "header", "anchor", "anchorln", "kv", "it"}
SET_OPS = {"tset", "tlist", "tdf"}


def relevant(prop, c):
    if prop == "C03":
        return has(c["ops"], SECTION_OPS)
    if prop == "C04":
        return has(c["ops"], SET_OPS)
    return True


def random_cases(prop, r, n):
    """programs without a snapshot"""
    focus = FOCUS[prop]
    rv = [{"id": f"p{k}", "snap": None, "ops": g.program(r, focus if r.random() < 0.7 else None)}
          for k in range(n)]
    for c in rv:
        if r.random() < (0.5 if prop == "C03" else 0.1):
            c["secs"] = g.sections(r)
            c["ops"] = [o for s in c["secs"] for o in s]
    return rv


def strings(chk, r):
    """every text of a few characters around the borders of tokens, in programs of many lines"""
    import itertools
    alpha = "1.-a "
    xs = ["".join(x) for n in range(1, chk.pick(5, 6) + 1) for x in itertools.product(alpha, repeat=n)]
    xs += ["".join(r.choice("12.+-a _\t²") for _ in range(r.choice([5, 6, 7, 8]))) for _ in range(chk.pick(1500, 20000))]
    return [{"id": f"s{k}", "snap": None, "ops": [{"op": "tln", "x": x} for x in xs[k:k + 30]]}
            for k in range(0, len(xs), 30)]


def second_cases(prop, r, first, obs, per):
    focus = FOCUS[prop]
    rv = []
    for c in first:
        o = obs.get(c["id"])
        if not o or o["status"] != "done" or o["text"] is None or "\r" in o["text"]:
            continue
        for k in range(per):
            snap = o["text"]
            q = r.random()
            if "secs" in c and r.random() < 0.6:
                ops = g.rearranged(r, c["secs"])
            elif prop == "C02" and q < 0.6 or q < 0.15:
                ops = g.ignored_variation(r, c["ops"])
            elif q < 0.85:
                ops = g.variation(r, c["ops"], focus)
            else:
                ops = c["ops"] if r.random() < 0.6 else g.variation(r, c["ops"], focus)
                snap = g.edit_snapshot(r, snap)
            if has(ops, {"ifloat", "tms"}) and re.search(r"\.\d{4}", snap):
                continue    # the rounding of floats is not specified
            rv.append({"id": f"{c['id']}-{k}", "snap": snap, "ops": ops})
    return rv


def judge(chk, cases, obs, verdicts):
    want = CLAUSES[chk.prop]
    for c in cases:
        if c["id"] not in obs:
            continue
        v = verdicts[c["id"]]
        if not relevant(chk.prop, c):
            continue
        bad = set(v["bad"]) & want
        if bad:
            o = obs[c["id"]]
            chk.violation("+".join(sorted(bad)),
                          f"calls {json.dumps(c['ops'])} snapshot {json.dumps(c['snap'])}: specification "
                          f"{v['res']} {json.dumps(v['out'])} {json.dumps(v['mark'])}, booktest "
                          f"{o.get('res', o['status'])} {json.dumps(o.get('out'))} {json.dumps(o.get('mark'))} "
                          f"{o.get('error') or ''}",
                          {"case": c, "real": o, "spec": v})


def run_cases(chk, farm, cases):
    obs = execute(farm, cases)
    traces = [trace_of(c, obs[c["id"]]) for c in cases if c["id"] in obs]
    if not traces:
        return obs, {}
    verdicts = validate(chk, traces)
    chk.traces += len(traces)
    judge(chk, cases, obs, verdicts)
    return obs, verdicts


def from_spec(o):
    """an operation of the specification as a call of the test stream"""
    o = dict(o)
    k = o["op"]
    if k == "ifloat":
        o.update(value=float(o["x"]), unit=o["post"].strip() or None)
    elif k == "raise":
        o["kind"] = "value"
    return o


def clauses(res, out, mark, o, wild):
    """the same clauses as CompareTrace!Clauses, for histories generated by the specification"""
    if o["status"] != "done":
        return {o["status"]}
    bad = set()
    if o["res"] != res:
        bad.add("failure-hidden" if res == "FAIL" else "false-failure" if o["res"] == "FAIL" else
                "difference-hidden" if o["res"] == "OK" else "false-difference")
    n = len(out) - (1 if wild else 0)
    if o["out"][:n] != out[:n] or (not wild and len(o["out"]) != n):
        bad.add("output")
    if o["mark"][:n] != mark[:n] or (not wild and len(o["mark"]) != n) or (wild and "!" not in o["mark"][n:]):
        bad.add("marks")
    if o["rep"] != o["out"]:
        bad.add("report")
    return bad


def replay_histories(chk, farm, hist):
    cases = [{"id": f"h{k}", "snap": "".join(l + "\n" for l in h["snap"]), "ops": [from_spec(x) for x in h["ops"]]}
             for k, h in enumerate(hist)]
    obs = execute(farm, cases)
    for c, h in zip(cases, hist):
        o = obs.get(c["id"])
        if o is None:
            continue
        chk.traces += 1
        wild = bool(h["ops"]) and h["ops"][-1]["op"] == "raise"
        bad = clauses(h["res"], h["out"], h["mark"], o, wild) & CLAUSES[chk.prop]
        if bad:
            chk.violation("+".join(sorted(bad)),
                          f"history of the specification {json.dumps(h)}: booktest "
                          f"{o.get('res', o['status'])} {json.dumps(o.get('out'))} {json.dumps(o.get('mark'))} {o.get('error') or ''}",
                          {"history": h, "real": o})


DESIGN = {
    # property: (module, constants quick, constants thorough, number of histories replayed)
    "C01": ("CompareMC", {"N": 2}, {"N": 3}),
    "C02": ("CompareMC", {"N": 2}, {"N": 3}),
    "C03": ("SectionMC", {"Kinds": '{"h1", "key"}'}, {}),
    "C04": ("CompareMC", {"N": 2}, {"N": 3}),
    "C05": ("CompareMC", {"N": 2}, {"N": 3}),
    "C06": ("CompareMC", {"N": 2}, {"N": 3}),
}


def design(chk, farm, r):
    """explores the specification exhaustively, and replays its histories on the real code"""
    module, quick, thorough = DESIGN[chk.prop]
    consts = dict(thorough if chk.thorough else quick)
    consts["Emit"] = "TRUE"
    t = chk.tlc(tlc.run(module, workers=8, consts=consts, quick_jit=not chk.thorough, timeout=3000))
    if chk.thorough and chk.prop == "C03":
        chk.tlc(tlc.run("CompareMC", workers=8, consts={"N": 4, "Sections": "TRUE"}, quick_jit=False, timeout=3000))
        chk.tlc(tlc.run("SectionMC", workers=8, consts={"K": 3, "Kinds": '{"h1"}'}, quick_jit=False, timeout=3000))
    hist = [h for h in t.printed if relevant(chk.prop, h)]
    chk.info["histories_enumerated"] = len(hist)
    hist.sort(key=lambda h: json.dumps(h, sort_keys=True))
    n = chk.pick(800, 20000)
    if len(hist) > n:
        hist = r.sample(hist, n)
    chk.info["histories_replayed"] = len(hist)
    replay_histories(chk, farm, hist)


def findings(chk, farm):
    """the recorded defects of this property: still there?"""
    fs = [f for f in known_findings()["findings"] if chk.prop == f["property"] and "snap" in f.get("input", {})]
    cases = [{"id": f"f{k}", "snap": f["input"]["snap"], "ops": f["input"]["ops"]} for k, f in enumerate(fs)]
    if cases:
        obs = execute(farm, cases)
        for c, f in zip(cases, fs):
            if obs.get(c["id"], {}).get("res") == f["input"]["res"]:
                chk.finding(f["id"], f["what"])


def check(chk, replay=None):
    farm = sandbox.Farm(preload=("booktest", "pandas"), paths=(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),))
    try:
        err = farm.start()
        if err:
            chk.violation("import", "booktest cannot be imported: " + err[-500:], {})
            return
        if replay:
            if "history" in replay["data"]:
                replay_histories(chk, farm, [replay["data"]["history"]])
            else:
                run_cases(chk, farm, [replay["data"]["case"]])
            return
        r = random.Random(chk.seed * 1000 + int(chk.prop[1:]))
        first = random_cases(chk.prop, r, chk.pick(900, 6000))
        if chk.prop == "C06":
            first += strings(chk, r)
        obs1, v1 = run_cases(chk, farm, first)
        second = second_cases(chk.prop, r, [c for c in first if c["id"][0] == "p"], obs1, 4)
        obs2, v2 = run_cases(chk, farm, second)
        large = []
        for k in range(chk.pick(24, 200)):
            snap, ops = g.big(r, r.choice({"C03": ["sections"], "C04": ["set", "set", "sections"]}.get(chk.prop, ["line", "line", "lines", "sections", "set"])))
            large.append({"id": f"b{k}", "snap": snap, "ops": ops})
        run_cases(chk, farm, large)
        if second:
            chk.sample({"calls": second[0]["ops"], "snapshot": second[0]["snap"], "verdict": v2[second[0]["id"]]})
        hist = {}
        for v in list(v1.values()) + list(v2.values()):
            hist[v["res"]] = hist.get(v["res"], 0) + 1
        chk.info["results_predicted"] = hist
        design(chk, farm, r)
        findings(chk, farm)
    finally:
        farm.close()
