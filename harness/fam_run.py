"""C05, C07-C14, C32: histories of invocations.  Spec: Names.tla, Run.tla, RunTrace.tla, RunMC.tla."""
import json, os, random
from hashlib import sha1
from . import tlc, sandbox, suites
from .common import known_findings

CLAUSES = {
    "C05": {"failure-accepted", "failure-hidden"},
    "C07": {"snapshot-changed"},
    "C08": {"not-installed", "torn-snapshot", "killed-order"},
    "C09": {"exit-status", "summary"},
    "C10": {"record-duplicate", "record-changed", "record-missing", "record-result", "record-stale", "forget"},
    "C11": {"executed-passed", "wrongly-skipped", "result-lost", "killed-record", "killed-log"},
    "C12": {"not-stopped", "not-executed", "review-order"},
    "C13": {"executed-unselected", "not-executed", "executed-twice", "dependency-order"},
    "C14": {"arguments", "stored-result", "killed-result"},
    "C17": {"outputs", "snapshot-changed", "not-installed", "record-result", "record-missing", "record-changed",
            "record-stale", "exit-status", "stored-result", "arguments", "executed-twice", "not-executed",
            "executed-unselected", "executed-passed", "summary", "crash", "hang"},
    "C32": {"index", "list"},
    "C26": {"exit-status", "not-stopped", "not-executed", "executed-passed", "executed-unselected", "snapshot-changed",
            "not-installed", "record-missing", "record-changed", "record-result", "reviewed-unselected", "review-order",
            "list", "summary", "stored-result"},
    "C31": {"outside", "tools", "list", "index", "stored-result", "arguments", "not-installed", "not-executed",
            "record-missing", "record-result", "snapshot-changed", "outputs", "exit-status", "summary", "forget"},
    "C24": {"executed-unselected", "not-executed", "list", "tools", "reviewed-unselected", "review-order", "forget",
            "record-changed", "record-missing", "exit-status"},
}
LIVE = {"crash", "hang"}

NAMES = ["test/a", "test/ab", "test/s/x", "test/s/y", "book/z", "test/t/u/v", "test/a b", "book/s/x", "test/s.x", "test/t.u/v", "test/A", "test/a_b"]
TEXTS = ["v1", "v2", "v1 x"]
RETS = ["r1", "r2", "r3", "r1", "r2", "r3", "0", "[]", "False"]
# the third file of a test is named by its content
ATTS = ["", "f=1", "f=2", "g=1", "f=1,g=2", f"{sha1(b'1').hexdigest()}.png=1", f"{sha1(b'2').hexdigest()}.png=2,g=3",
        *(f"{sha1(suites.content(v).encode()).hexdigest()}.png={v}" for v in ("B1", "B2")), "d/f=1", "d/f=2,d/h=1,g=1"]
FAILS = ["fail", "assert", "raise", "exit", "unfinished", "unp", "odd"]


SEGMENTS = ["a", "ab", "a b", "A", "a.b", "test", "b", "a-b", "skip:a", "x1", "kip", "*"]


def crowded(r):
    """names that are prefixes of each other in letters or in segments"""
    rv = []
    while len(rv) < r.choice([3, 5, 7, 9]):
        top = r.choice(["test", "test", "book", "tests", "other", "tes", "skips", "pipe", ":k"])
        n = "/".join([top] + [r.choice(SEGMENTS) for _ in range(r.choice([0, 1, 1, 2, 3]))])
        # a case below the directory of another one would share its attachments
        if not any(n == o or n.startswith(o + "/") or o.startswith(n + "/") for o in rv):
            rv.append(n)
    return rv


def suite(r, prop):
    if prop == "C24" and r.random() < 0.8:
        return {"cases": [{"name": n, "fn": f"f{k}", "inst": "", "deps": [], "async": False}
                          for k, n in enumerate(crowded(r))]}
    n = r.choice([1, 2, 3, 3, 4, 5])
    names = r.sample(NAMES if prop != "C31" or r.random() < 0.4 else STRANGE, n)
    cases = []
    dense = prop in ("C13", "C14", "C11", "C17") or r.random() < 0.4
    for k, nm in enumerate(names):
        deps = []
        if k and dense and r.random() < 0.75:
            deps = [f"f{j}" for j in r.sample(range(k), r.choice([1, 1, min(2, k)]))]
        if r.random() < 0.15:
            deps.insert(r.randrange(len(deps) + 1), r.choice(["=port 80", "=gpu", "=port 443"]))
        cases.append({"name": nm, "fn": f"f{k}", "inst": "", "deps": deps, "async": r.random() < 0.2})
    if r.random() < (0.5 if prop in ("C13", "C14") else 0.15):
        # a test book class with one or two instances, and maybe a user from outside
        two = r.random() < 0.6
        insts = ["test/k1", "book/k2"][: 2 if two else 1]
        extra = ["f0"] if r.random() < 0.3 else []
        third = r.random() < 0.5
        for i in insts:
            cases.append({"name": i + "/data", "fn": "Kdata", "inst": i, "cls": "K", "deps": extra})
            cases.append({"name": i + "/use", "fn": "Kuse", "inst": i, "cls": "K", "deps": ["Kdata"],
                          "async": False})
            if third:
                cases.append({"name": i + "/both", "fn": "Kboth", "inst": i, "cls": "K", "deps": ["Kuse", "Kdata"]})
        if r.random() < 0.5:
            cases.append({"name": "book/m/other", "fn": "Mother", "inst": "book/m", "cls": "M", "deps": ["Kdata"]})
        if r.random() < 0.5:
            cases.append({"name": "test/outside", "fn": "outside", "inst": "", "deps": ["Kdata"]})
        if r.random() < 0.5:
            # methods of an instance keep their order, instances and functions may be listed in any order
            blocks = {}
            for c in cases:
                blocks.setdefault(c["inst"] or c["name"], []).append(c)
            bs = list(blocks.values())
            r.shuffle(bs)
            cases = [c for b in bs for c in b]
    else:
        r.shuffle(cases)
    return {"cases": cases}


# spellings of the books directory, and where it is (in the working directory)
SPELLINGS = [["books/", "books"], ["./books", "books"], ["books//", "books"], ["a/../books", "books"],
             ["@CWD@/books", "books"], ["@CWD@/books/", "books"], ["deep/er/books", "deep/er/books"],
             ["my books", "my books"], ["it's", "it's"], ['q"q', 'q"q'], ["$(touch pwned)", "$(touch pwned)"],
             ["b;touch pwned;", "b;touch pwned;"], ["b&c", "b&c"], ["*", "*"], ["b\u00f6ks", "b\u00f6ks"], ["-books", "-books"],
             ["#b", "#b"], ["b\\n", "b\\n"], ["`touch pwned`", "`touch pwned`"], ["link", "real"], ["~", "~"],
             ["books", "books"], ["b|c", "b|c"], ["b>c", "b>c"], ["$HOME", "$HOME"], ["b$BTV", "b$BTV"], ["${BTV}", "${BTV}"], ["b*?[a]", "b*?[a]"], ["{a,b}", "{a,b}"],
             ["b%20c", "b%20c"], ["B.md", "B.md"], [".hidden", ".hidden"], ["~root/b", "~root/b"], ["%s{}", "%s{}"]]
STRANGE = ["test/$(touch pwned)", "test/it's", "test/a;touch pwned", "test/a&b", 'test/q"', "test/a*", "test/a b",
           "test/`touch pwned`", "book/x>y", "book/~", "book/-x", "test/#x", "test/%s", "book/a\\b"]


def prefixes(names):
    rv = ["*"]
    for n in names:
        p = n.split("/")
        for k in range(1, len(p) + 1):
            rv.append("/".join(p[:k]))
    return rv


def depended(su):
    return {d for c in su["cases"] for d in c["deps"]}


def scripts(r, su, prop, old=None):
    rv = {}
    dep = depended(su)
    for c in su["cases"]:
        if old and r.random() < 0.45:
            rv[c["name"]] = old[c["name"]]
            continue
        pf = 0.45 if prop in ("C05", "C12") else 0.2
        mode = r.choice(FAILS) if r.random() < pf else "ok"
        ret = r.choice(RETS) if r.random() < (0.8 if c["fn"] in dep else 0.5) else ""
        rv[c["name"]] = {"text": r.choice(TEXTS), "mode": mode, "ret": ret, "att": r.choice(ATTS)}
        if r.random() < 0.15:
            rv[c["name"]]["tmp"] = True
    return rv


def answers(r, prop):
    alpha = ["a", "a", "c", "c", "q"] if prop in ("C12", "C09") else ["a", "a", "a", "c", "c", "c", "q"]
    alpha += r.sample(["abort", "A", "accept", " a", "a ", "q!", "quit", "C", "continue", "aq", "0", "\t"], 2) if r.random() < .4 else []
    alpha += ["v", "l", "d", "D", "x", ""] * (2 if prop == "C31" else 1)
    return [r.choice(alpha) for _ in range(r.choice([2, 6, 10, 20]))] + (["c"] * 12 if r.random() < 0.85 else [])


def invocation(r, su, prop, first, par=False):
    names = [c["name"] for c in su["cases"]]
    q = r.random()
    cmd = "run"
    if not first:
        if q < (0.35 if prop in ("C05", "C07", "C08", "C10", "C12", "C09") else 0.15):
            cmd = "review"
        elif q < (0.5 if prop == "C10" else 0.42 if prop in ("C07", "C11") else 0.2):
            cmd = "forget"
        elif q < 0.55 and prop in ("C32", "C07") or q < 0.22:
            cmd = "list"
        if prop == "C31" and r.random() < 0.4:
            cmd = r.choice(["review", "list"])
        if prop == "C24":
            cmd = r.choice(["run", "run", "review", "forget", "list", "list", "list"])
    inv = {"cmd": cmd, "ans": []}
    pr = {"c": 0.15, "f": 0.12, "a": 0.3, "u": 0.15, "i": 0.15, "I": 0.08, "r": 0.1, "v": 0.1, "L": 0.1}
    boost = {"C05": {"a": 0.5, "i": 0.3, "u": 0.3}, "C07": {"a": 0.12, "i": 0.25}, "C08": {"a": 0.6, "u": 0.3, "i": 0.2},
             "C09": {"a": 0.3, "i": 0.25, "I": 0.15}, "C11": {"c": 0.7, "f": 0.3}, "C12": {"f": 0.5, "i": 0.4, "I": 0.2},
             "C26": {k: 0.08 for k in "cfauiIr"},
             "C31": {"i": 0.4, "I": 0.35},
             "C24": {"f": 0, "i": 0, "I": 0, "c": 0.25, "a": 0.5},
             "C13": {"r": 0.35, "c": 0.2}, "C14": {"a": 0.3, "c": 0.2, "r": 0.2}}
    pr.update(boost.get(prop, {}))
    for k, v in pr.items():
        inv[k] = r.random() < v
    if par:
        inv["i"] = inv["I"] = inv["f"] = False
        inv["p"] = r.choice([1, 2, 3, 4])
    else:
        inv["p"] = 0
    if inv["i"] or inv["I"]:
        inv["ans"] = answers(r, prop)
    q = r.random()
    if q < 0.45:
        inv["args"] = []
    elif q < 0.55:
        inv["args"] = ["*"]
    else:
        ps = prefixes(names)
        inv["args"] = r.sample(ps, min(len(ps), r.choice([1, 1, 2] if prop != "C24" else [1, 1, 2, 3])))
        if prop == "C24" and r.random() < 0.5:
            skips = ["skip:" + r.choice(ps[1:]) for _ in range(r.choice([1, 1, 2, 3]))]
            inv["args"] = r.choice([skips, inv["args"] + skips, skips + inv["args"]])
        elif r.random() < 0.25:
            inv["args"].append("skip:" + r.choice(ps[1:]))
            if r.random() < 0.3:
                inv["args"] = inv["args"][-1:]
    if cmd == "list":
        inv["via"] = r.choice(["-l", "-l", "--path"] if prop not in ("C24", "C31") else ["-l", "--path", "--print", "--view"])
        if inv["via"] == "--view":
            inv["c"] = False
    elif cmd == "review":
        inv["via"] = r.choice(["-w", "--review"])
    return inv


TOOL_VARS = {f"BOOKTEST_{k}": f"sh tool.sh {v}" for k, v in
             (("MD_VIEWER", "v"), ("LOG_VIEWER", "l"), ("DIFF_TOOL", "d"), ("FAST_DIFF_TOOL", "D"))}


def defaults(r, su):
    """a default selection, from the environment or the configuration file"""
    y = {"env": dict(TOOL_VARS), "proj": []}
    if r.random() < 0.5:
        ps = prefixes([c["name"] for c in su["cases"]]) + ["nosuch", "tes"]
        ps = r.sample(ps, min(len(ps), r.choice([1, 2, 2, 3])))
        ps = [("skip:" if r.random() < 0.3 else "") + p for p in ps]
        ps = ["skip:a" if p == "skip:*" else p for p in ps]
        if r.random() < 0.5:
            y["env"]["BOOKTEST_DEFAULT_TESTS"] = ",".join(ps)
        else:
            y["proj"].append("default_tests=" + ",".join(ps))
    return y


KEYS = {"c": "continue", "f": "fail_fast", "a": "accept", "u": "update", "i": "interactive",
        "I": "always_interactive", "r": "refresh_sources"}


def varied(r, su):
    """the suite after its tests were edited: tests removed, listed in another order, with other dependencies"""
    cases = list(su["cases"])
    q = r.random()
    if q < 0.7:
        dep = depended(su)
        free = [c for c in cases if c["fn"] not in dep and not c["inst"]]
        gone = r.sample(free, min(len(free), r.choice([1, 1, 2])))
        cases = [c for c in cases if c not in gone]
    if q > 0.6:
        blocks = {}
        for c in cases:
            blocks.setdefault(c["inst"] or c["name"], []).append(c)
        bs = list(blocks.values())
        r.shuffle(bs)
        cases = [c for b in bs for c in b]
    if q > 0.8:
        cases = [dict(c, deps=[d for d in c["deps"] if r.random() < 0.5]) if not c["inst"] else c for c in cases]
    return {"cases": cases} if cases else su


def layered(r, su, par):
    """options from the layers of the configuration"""
    y = {"home": [], "proj": [], "env": {}}
    keys = r.sample("cfauiIr", r.choice([1, 2, 3, 4]))
    if par:
        keys = [k for k in keys if k in "caur"] + ["p"]
    for k in keys:
        for layer in r.sample(["home", "proj", "env"], r.choice([1, 2, 2, 3])):
            key, v = {**KEYS, "p": "parallel"}[k], r.choice("01")
            if layer == "env":
                y["env"]["BOOKTEST_" + (key.upper() if r.random() < 0.9 else key)] = v
            else:
                y[layer].append(f"{key}={v}")
                if r.random() < 0.3:
                    y[layer].append(r.choice(["", "# comment", f"#{key}={r.choice('01')}", "  ", f"x_{key}=a=b", "timeout=5 "]))
    if r.random() < 0.4:
        ps = r.sample(prefixes([c["name"] for c in su["cases"]])[1:], 1)
        y[r.choice(["home", "proj"])].append("default_tests=" + ps[0])
    return y


def history(r, prop, par=False):
    su = suite(r, prop)
    sc = None
    segs = []
    n = r.choice([2, 3, 4, 5])
    kills = prop in ("C08", "C11") or (prop in ("C07", "C10", "C14") and r.random() < 0.2)
    cap = r.choice([8, 8, 0, 1, 2, 999])
    if prop == "C26":
        par = r.random() < 0.1
    seg = None
    for k in range(n):
        if sc is None or r.random() < 0.6:
            sc = scripts(r, su, prop, sc)
        st = {"inv": invocation(r, su, prop, k == 0, par and r.random() < 0.7), "sc": sc}
        if prop == "C26":
            if par:
                st["inv"].update(f=False, i=False, I=False)
            else:
                st["inv"]["ans"] = answers(r, prop)
                if r.random() < 0.3:
                    # defaults of this invocation
                    st["inv"]["extra"] = [[KEYS[x], r.random() < 0.6] for x in r.sample("cfauiIr", r.choice([1, 1, 2]))]
        st["inv"]["cap"] = cap if r.random() < 0.85 else r.choice([8, 0, 1])
        if kills and not st["inv"]["p"] and r.random() < 0.4:
            st["kill"] = r.randrange(1, 12 * len(su["cases"]) + 6)
        if seg is None or r.random() < 0.6 or st["inv"]["cap"] != cap:
            seg = {"env": [], "steps": []}
            if r.random() < (0.4 if prop in ("C10", "C32", "C24") else 0.2):
                seg["suite"] = varied(r, su)
            if prop == "C24":
                seg["layers"] = defaults(r, su)
            if prop == "C31":
                seg["layers"] = {"env": dict(TOOL_VARS, BTV="elsewhere")}
            if prop == "C26":
                seg["layers"] = layered(r, su, par)
            segs.append(seg)
        if st.get("kill") and seg["steps"]:
            seg = {"env": [], "steps": [], **{k: seg[k] for k in ("suite",) if k in seg}}
            segs.append(seg)
        if not seg["steps"] and r.random() < (0.3 if k == 0 else 0.08):
            c = r.choice(su["cases"])["name"]
            q = r.random()
            if q < 0.6:
                seg["env"].append(["write", f"books/{c}.md", r.choice(TEXTS) + "\n"])
                if r.random() < 0.4:
                    seg["env"].append(["write", f"books/{c}/old", "o"])
            elif q < 0.8:
                seg["env"].append(["rm", f"books/{c}.md"])
            elif q < 0.9:
                seg["env"].append(["rm", f"books/.out/{c}.bin"])
            else:
                seg["env"].append(["rm", "books/.out"])
        if k > 0 and not seg["steps"] and prop in ("C09", "C10", "C11", "C24", "C32") and r.random() < .2:
            seg["env"].append(["tear", "books/.out/" + r.choice(["cases.txt", "cases.txt", "metrics.json"]), r.choice([1, 2, 4, 9, 18, 21, 24, 30, 60, "name", "name"])])
        if "suite" in seg:
            # only what is known can be named
            ps = prefixes([c["name"] for c in seg["suite"]["cases"]])
            st["inv"]["args"] = [a for a in st["inv"]["args"] if a.removeprefix("skip:") in ps]
        if seg["steps"] and not st.get("kill") and r.random() < (0.3 if prop in ("C13", "C14") else 0.06):
            # what happens while this process keeps its memory: another process runs, or a result is removed
            if r.random() < 0.75:
                st["other"] = True
            else:
                st["env"] = [["rm", f"books/.out/{r.choice(su['cases'])['name']}.bin"]]
        seg["steps"].append(st)
        if st.get("kill") or (st["inv"]["cap"] != cap):
            seg = None
    if prop == "C14" and all(st["inv"]["cap"] == 0 and not st["inv"]["p"] for g in segs for st in g["steps"]):
        # dependents that change what they receive
        for g in segs:
            for st in g["steps"]:
                st["sc"] = {c: dict(x, mut=True, ret="[]" if r.random() < .5 else x["ret"]) for c, x in st["sc"].items()}
    if prop == "C31":
        b = list(r.choice(SPELLINGS))
        extra = [["mkdir", "a"]] + ([["mkdir", "real"], ["link", "link", "real"]] if b[0] == "link" else [])
        return {"suite": su, "segments": segs, "books": b, "env": extra}
    return {"suite": su, "segments": segs}


def spec_inv(inv, args=None):
    rv = {k: bool(inv.get(k)) for k in "cfauiIrp"}
    rv.update(cmd=inv["cmd"], tools=False, via=inv.get("via") or "", ans=inv["ans"], cap=inv["cap"],
              extra=[[k, str(v)] for k, v in inv.get("extra") or []],
              sel=inv["args"] or (["test", "book"] if args is None else args))
    return rv


def trace(tid, h, steps):
    rv, ss = [], [None]
    for s in steps:
        o = {k: s["obs"][k] for k in ("status", "rc", "log", "sum", "shown", "list", "w", "extra", "tools", "outside")}
        y = s.get("layers") or {}
        if s.get("suite") not in ss:
            ss.append(s["suite"])
        rv.append({"inv": spec_inv(s["inv"], []), "s": ss.index(s.get("suite")) + 1, "sc": s["sc"], "fresh": s["fresh"], "killed": s["killed"],
                   "Y": {"home": y.get("home") or [], "proj": y.get("proj") or [],
                         "env": [list(e) for e in (y.get("env") or {}).items()]},
                   "pre": s["pre"], "obs": o})
    full = suites.spec_suite(h["suite"])
    return {"id": tid, "S": [full] + [dict(full, **{k: {**full[k], **v} if k != "names" else v for k, v in suites.spec_suite(s).items()})
                                      for s in ss[1:]], "steps": rv}


def validate(chk, traces, workers=8):
    d = sandbox.scratch()
    path = os.path.join(d, "traces.json")
    with open(path, "w") as f:
        json.dump(traces, f)
    r = chk.tlc(tlc.run("RunTrace", env={"TRACES": path}, workers=workers, timeout=1800))
    v = {x["id"]: x for x in r.printed}
    if len(v) != len(traces):
        raise tlc.TlcError(f"{len(traces)} histories but {len(v)} verdicts\n" + r.output[-3000:])
    return v


def run_histories(chk, farm, hs, timeout=60):
    res = farm.run("harness.drv_run", "run_history", hs, timeout=timeout)
    traces, keep = [], {}
    for k, (h, x) in enumerate(zip(hs, res)):
        if x["status"] != "done":
            raise tlc.TlcError("history driver failed: " + str(x))
        if not x["value"]:
            raise tlc.TlcError("history without steps: " + json.dumps(h)[:2000])
        traces.append(trace(f"h{k}", h, x["value"]))
        keep[f"h{k}"] = (h, x["value"])
    if not traces:
        return {}
    vs = validate(chk, traces)
    chk.traces += sum(v["steps"] for v in vs.values())
    want = CLAUSES[chk.prop] | LIVE
    seen = {}
    for tid, v in vs.items():
        h, steps = keep[tid]
        for b in v["bad"]:
            for c in b["bad"]:
                seen[c] = seen.get(c, 0) + 1
            hit = set(b["bad"]) & want
            if hit:
                s = steps[b["step"] - 1]
                chk.violation("+".join(sorted(hit)),
                              f"step {b['step']} {json.dumps(s['inv'])} tests {json.dumps(s['sc'])} before "
                              f"{json.dumps(s['pre'])}: booktest {json.dumps(s['obs'])[:3000]} specification "
                              f"{json.dumps({k: v[k] for k in ('w', 'rc', 'log', 'ran', 'sum')})}",
                              {"history": h, "family": "fam_run"})
    if seen:
        chk.info["clauses_seen"] = seen
    return vs


def design(chk):
    """explores the specification; returns its suite, invocations and scripts"""
    quick = not chk.thorough
    r = chk.tlc(tlc.run("RunMC", workers=8, quick_jit=False, timeout=3000, heap="10g",
                        consts={"N": 2 if quick else 3}))
    if not quick:
        r = chk.tlc(tlc.run("RunMC", workers=8, quick_jit=False, timeout=3000, heap="10g",
                            consts={"N": 2, "Big": "TRUE"}))
    return r.printed[0]


def small_histories(chk, r, pool):
    """the histories of RunMC with two or three invocations (in the thorough run: killed at every point)"""
    S = pool["S"]
    su = {"cases": [{"name": n, "fn": S["fn"][n], "inst": "", "deps": S["deps"][n]} for n in S["names"]]}
    key = lambda x: json.dumps(x, sort_keys=True)
    invs, scs = sorted(pool["invs"], key=key), sorted(pool["scripts"], key=key)

    def step(inv, sc, kill=0):
        inv = dict(inv, args=inv["sel"], p=0)
        st = {"inv": inv, "sc": sc}
        if kill:
            st["kill"] = kill
        return st
    steps = [(i, s) for i in invs for s in scs]
    pairs = [(a, b) for a in steps for b in steps]
    n = chk.pick(150, len(pairs))
    rv = []
    for a, b in r.sample(pairs, min(n, len(pairs))):
        if r.random() < 0.5:
            segs = [{"steps": [step(*a), step(*b)]}]
        else:
            segs = [{"steps": [step(*a)]}, {"steps": [step(*b)]}]
        rv.append({"suite": su, "segments": segs})
    if chk.prop in ("C08", "C11") or chk.thorough:
        start = [s for s in steps if s[0]["cmd"] == "run"]
        for _ in range(chk.pick(4, 40)):
            a, b, c = r.choice(start), r.choice(steps), r.choice(steps)
            for kill in range(1, 32):
                rv.append({"suite": su, "segments": [{"steps": [step(*a)]}, {"steps": [step(*b, kill)]},
                                                     {"steps": [step(*c)]}]})
    return rv


def findings(chk, farm):
    """the recorded defects of this property: still there?"""
    fs = [f for f in known_findings()["findings"] if chk.prop == f["property"] and "history" in f.get("input", {})]
    if not fs:
        return
    res = farm.run("harness.drv_run", "run_history", [f["input"]["history"] for f in fs], timeout=60)
    ts = [trace(f"f{k}", f["input"]["history"], x["value"]) for k, (f, x) in enumerate(zip(fs, res))]
    for v in validate(chk, ts).values():
        f = fs[int(v["id"][1:])]
        if {c for b in v["bad"] for c in b["bad"]} & set(f["input"]["clauses"]):
            chk.finding(f["id"], f["what"])


def check(chk, replay=None):
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    farm = sandbox.Farm(preload=("booktest",), paths=(here,))
    try:
        err = farm.start()
        if err:
            chk.violation("import", "booktest cannot be imported: " + err[-500:], {})
            return
        if replay:
            run_histories(chk, farm, [replay["data"]["history"]])
            return
        r = random.Random(chk.seed * 1000 + int(chk.prop[1:]))
        hs = [history(r, chk.prop) for _ in range(chk.pick(260, 4000))]
        hs += small_histories(chk, r, design(chk))
        findings(chk, farm)
        vs = run_histories(chk, farm, hs)
        kinds = {}
        for h in hs:
            for g in h["segments"]:
                for s in g["steps"]:
                    k = s["inv"]["cmd"] + (" killed" if s.get("kill") else "")
                    kinds[k] = kinds.get(k, 0) + 1
        chk.info["invocations"] = kinds
        chk.sample({"history": hs[0], "verdict": vs["h0"]})
    finally:
        farm.close()
