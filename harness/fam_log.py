"""C28: where stderr and log output go.  Spec: Log.tla, LogTrace.tla, LogMC.tla."""
import json, os, random
from . import tlc, sandbox
from .common import known_findings

LIVE = {"crash", "hang"}
WRITES = ["err", "err", "err", "raw", "log", "log", "warning", "exc", "warn", "thread", "threadlog", "info", "info", "debug"]
PAYLOAD = ["", "", "", ":x", ": two words", ":a\nb", ":\u00e4\u20ac", ":%s", ":\t", ":\udc80", ":" + "long " * 30]
ENDS = [[], [], [], [["fail"]], [["raise", "boom"]], [["exit", "0"]], [["exit", "2"]], [["lambda"]], [["assert"]], [["t", "new"]],
        [["raise", "\u20ac"]],
        [["raise", "x\udc80"]], [["t", "\ud800 x"]], [["h", "end"]]]


def prog(r, kbd):
    rv = [["t", "one"]] if r.random() < 0.6 else []
    err = log = True
    for _ in range(r.choice([0, 1, 2, 3, 5])):
        q = r.random()
        if q < 0.75:
            k = r.choice(WRITES)
            if not err and k in ("err", "raw", "warn", "thread") or not log and k in ("log", "warning", "exc", "threadlog", "info", "debug"):
                continue
            rv.append([k, r.choice(["", "a", "a.b"]), r.choice(PAYLOAD)])
        elif q < 0.8:
            rv.append(["redirect"])
        elif q < 0.83:
            rv.append(["keep"])
            err = False
        elif q < 0.87:
            rv.append(["handler"])
        elif q < 0.89:
            rv.append(["clear"])
            log = False
        elif q < 0.91 and err:
            rv.append(["basic"])
        else:
            rv.append([r.choice(["t", "i"]), r.choice(["one", "two", "three"])])
    rv += r.choice(ENDS)
    if kbd:
        rv.append(["kbd"])
    if r.random() < 0.2:
        rv.append(["err", "", ":late"] if err else ["i", "x"])
    return rv


def history(r):
    cases = []
    for k in range(r.choice([1, 2, 3, 4, 6])):
        m = r.choice(["ma", "mb"])
        cases.append({"id": f"c{k}", "module": m, "fn": f"f{k}", "name": f"test/{m}/f{k}", "async": r.random() < 0.3})
    a = {"cases": cases, "setup": r.random() < 0.6, "level": r.choice(["WARNING", "WARNING", "ERROR", "INFO", "DEBUG"]),
         "handlers": r.choice([[], [""], ["%(levelname)s %(name)s|%(message)s"], ["", "%(message)s;"], ["%(asctime)s %(message)s"]]),
         "segments": []}
    inv = 0
    broken = False
    for _ in range(r.choice([1, 1, 2])):
        seg = {"steps": []}
        a["segments"].append(seg)
        for _ in range(r.choice([1, 2, 3, 4])):
            inv += 1
            par = r.random() < 0.25
            kbd = r.choice(cases)["id"] if not par and r.random() < 0.12 else ""
            progs = {c["id"]: prog(r, c["id"] == kbd) for c in cases}
            st = {"kind": "run", "inv": inv, "outside": r.randrange(4), "progs": progs, "show": r.random() < 0.5, "partial": bool(kbd),
                  "answers": [], "args": []}
            if r.random() < 0.12:
                st.update(kind="review", args=["-w"])
            else:
                if par:
                    st["args"].append(r.choice(["-p1", "-p2", "-p3"]))
                q = r.random()
                if q < 0.15:
                    st["args"].append("-f")
                    st["partial"] = st["partial"] or par
                elif q < 0.4:
                    st["args"].append(r.choice(["-i", "-I"]))
                    st["answers"] = [r.choice("cccaq") for _ in range(r.choice([0, 2, 8]))]
                    # a run without further answers, or one that is quit, leaves what is not reviewed
                    st["partial"] = True
                elif q < 0.6:
                    st["args"].append("-a")
                if r.random() < 0.15:
                    st["args"].append("-c")
            if st["show"]:
                st["args"].append("-L")
            if r.random() < 0.3:
                st["args"].append("-v")
            if r.random() < 0.06 and st["kind"] == "run":
                # a snapshot that cannot be read
                st["edit"] = [[f"books/{r.choice(cases)['name']}.md", r.choice(["\xff\xfe one\n", "one\n" * 3000 + "\xff\n"])]]
                broken = True
            st["partial"] = st["partial"] or broken
            st["cut"] = broken or par and "-f" in st["args"]
            st["args"].append("*")
            seg["steps"].append(st)
    return a


def trace(tid, a, obs):
    steps = []
    for seg, os_ in zip(a["segments"], obs):
        for st, o in zip(seg["steps"], os_):
            full = {"status": "done", "main": 0, "events": [], "points": [], "logs": {}, "own": [], "printed": []}
            full.update({k: o[k] for k in full if k in o})
            steps.append({"kind": st["kind"], "show": st["show"], "partial": st["partial"], "cut": st["cut"], **full})
        if len(os_) > len(seg["steps"]):
            steps[-1]["status"] = os_[-1]["status"]
        elif len(os_) < len(seg["steps"]):
            break
    return {"id": tid, "steps": steps}


def validate(chk, traces):
    path = os.path.join(sandbox.scratch(), "logs.json")
    with open(path, "w") as f:
        json.dump(traces, f)
    r = chk.tlc(tlc.run("LogTrace", env={"TRACES": path}, workers=8, timeout=1800))
    v = {x["id"]: x for x in r.printed}
    if len(v) != len(traces):
        raise tlc.TlcError(f"{len(traces)} histories but {len(v)} verdicts\n" + r.output[-3000:])
    return v


def run(chk, farm, hs):
    res = farm.run("harness.drv_log", "run_logs", hs, timeout=240)
    traces, keep = [], {}
    for k, (a, x) in enumerate(zip(hs, res)):
        if x["status"] != "done":
            raise tlc.TlcError("log driver failed: " + str(x)[-3000:])
        if not x["value"] or len(x["value"][0]) < 1 or "events" not in x["value"][0][0]:
            raise tlc.TlcError("log driver failed: " + str(x)[-3000:])
        t = trace(f"l{k}", a, x["value"])
        traces.append(t)
        keep[t["id"]] = (a, x["value"], t)
    vs = validate(chk, traces)
    chk.traces += sum(v["steps"] for v in vs.values())
    seen = {}
    for tid, v in vs.items():
        a, obs, t = keep[tid]
        for b in v["bad"]:
            for c in b["bad"]:
                seen[c] = seen.get(c, 0) + 1
            flat = [(st, o) for seg, os_ in zip(a["segments"], obs) for st, o in zip(seg["steps"], os_)]
            st, o = flat[b["step"] - 1]
            brief = {k: o.get(k) for k in ("rc", "error", "logs", "own", "printed", "points", "events")}
            chk.violation("+".join(sorted(b["bad"])), f"step {b['step']} booktest {' '.join(st['args'])}: observed {json.dumps(brief)[:2500]} "
                          f"specification {json.dumps(v['spec'])[:800]}", {"history": a, "family": "fam_log"})
    if seen:
        chk.info["clauses_seen"] = seen
    return vs


def check(chk, replay=None):
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    farm = sandbox.Farm(preload=("booktest", "booktest.cli"), paths=(here,))
    try:
        err = farm.start()
        if err:
            chk.violation("import", "booktest cannot be imported: " + err[-500:], {})
            return
        if replay:
            run(chk, farm, [replay["data"]["history"]])
            return
        chk.tlc(tlc.run("LogMC", consts={"MaxEvents": chk.pick(6, 8)}, workers=8, timeout=1200))
        r = random.Random(chk.seed * 1000 + 528)
        hs = [history(r) for _ in range(chk.pick(400, 6000))]
        vs = run(chk, farm, hs)
        ends = {}
        chk.info["invocations"] = sum(len(g["steps"]) for a in hs for g in a["segments"])
        chk.sample({"history": hs[0], "verdict": vs.get("l0")})
    finally:
        farm.close()
