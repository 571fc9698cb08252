"""C19-C21, C23: histories of tests with snapshots, validated against Snap.tla."""
import json, os, random, re
from harness import drv_snap, sandbox, tlc
from harness.common import known_findings

CLAUSES = {"C19": {"real-call", "missing-hidden"},
           "C20": {"garbled", "crossed", "order", "lost", "stale"},
           "C21": {"lost", "not-captured", "recalled", "kept", "stale", "broken", "asked-twice"},
           "C23": {"leak", "body-leak", "lost", "recalled", "crossed", "real-call", "kept", "stale", "order"}}
KINDS = {"C19": ["fun", "req", "httpx", "env"], "C20": ["fun", "req", "httpx"],
         "C21": ["fun", "req", "httpx", "env"], "C23": ["req", "httpx"]}


# ---------------------------------------------------------------- generation

def mixed(r, s):
    return "".join(x.upper() if r.random() < .5 else x.lower() for x in s)


def spell(r, s):
    return r.choice([s, s.upper(), s.lower(), s.title(), mixed(r, s)])


def http_pool(r, o, focus):
    """a few requests which differ in one respect"""
    base = {"m": r.choice(["GET", "POST"]), "u": r.choice(["/a", "/a/b?x=1&y=2", "/r/1", "/ä b", "/"]), "b": "", "h": {}}
    if base["u"].startswith("/r"):
        base["m"] = "GET"
    if base["m"] == "POST" and r.random() < .7:
        base["b"] = r.choice(["body-Number-one", "body-ÄÖ-two-three", "BIN1" if o["body"] == "raw" else "Body-Three-x"])
    pool = [base]
    n = r.randint(1, 3)
    for _ in range(n):
        c = json.loads(json.dumps(r.choice(pool)))
        x = r.choice(["m", "u", "q", "b", "bc", "h", "hv"]) if not focus else r.choice(["h", "hv", "hv", "hi", "hi"])
        if x == "m" and not c["u"].startswith("/r"):
            c["m"] = r.choice([m for m in ("GET", "POST", "PUT", "DELETE", "PATCH") if m != c["m"]])
            if c["m"] == "GET":
                c["b"] = ""
        elif x == "u":
            c["u"] = r.choice(["/c", "/a/", "/a/b", "/A", "/a.b", "/aa", "/r/2" if c["m"] == "GET" else "/cc"])
        elif x == "q":
            c["u"] = c["u"].split("?")[0] + "?" + r.choice(["x=1", "x=2&y=2", "y=2&x=1", "ts=3", "x=01", "X=1", "x=1&x=1", "x=1&x=2", "x=2&x=1"])
        elif x == "b" and c["m"] != "GET":
            c["b"] = r.choice(["body-Number-four", "", "body-five-five-five", "BIN2" if o["body"] == "raw" else "body-six-66"])
        elif x == "bc" and c["b"] and not c["b"].startswith("BIN"):
            c["b"] = r.choice([c["b"].upper(), c["b"].lower()])
        elif x == "h":
            c["h"][r.choice(["x-key", "x-other-key"])] = r.choice(["visible-k1", "visible-k2", "visible-K1"])
        elif x == "hv" and c["h"]:
            k = r.choice(list(c["h"]))
            c["h"][k] = r.choice(["visible-k1", "visible-k2", "visible-k3"])
        elif x == "hi":
            c["h"]["x-token"] = "?"
        pool.append(c)
    return pool


NAMES = ["x-key", "x-other-key", "x-token", "x-api"]


def http_call(r, h, c):
    """one use of a request: values of ignored headers vary"""
    o = h["o"]
    hs = []
    for k, v in c["h"].items():
        if v == "?":
            v = "visible-val"
        if o["ign"] == "all" or k in o["list"]:
            v = secret(r, h)
        elif v not in h["bodies"]:
            # a detail, not a secret
            h["bodies"].append(v)
        hs.append([k, v])
    if r.random() < .5:
        for k in NAMES:
            if k not in c["h"] and (o["ign"] == "all" or k in o["list"]) and r.random() < .6:
                hs.append([k, secret(r, h)])
    out = []
    for k, v in hs:
        out.append([spell(r, k) if (o["ign"] == "all" or k in o["list"]) else h["spell"][k], v])
    r.shuffle(out)
    if c["b"] and c["b"] not in h["bodies"]:
        h["bodies"].append(c["b"])
    rv = {"m": c["m"], "u": c["u"], "b": c["b"], "h": out}
    if r.random() < .5:
        rv["text"] = True
    return rv


def secret(r, h):
    s = f"SECRET{r.randrange(10**8):08d}x"
    h["secrets"].append(s)
    return s


FUNS = ["f", "g", "f2", "meth", "stat", "clas"]
ARGS = [[], [1], ["1"], [1.5], [True], [None], [[1, 2]], [[2, 1]], [1, 2], [[1], 2], [{"a": 1}], [{"a": [1]}], ["ä\n"], [""], ["a", "b"], ["ab"], [0], [-1]]
# what is easily taken for the same
NEAR = [[1, 1.0, True, "1", [1], "1.0", 1.5, -1], [0, 0.0, False, None, "", [], {}, "0", "None", "null"], ["ä\n", "ä", "Ä\n", "a\n", "ä\r\n", "ä\n "],
        [{"a": 1}, {"a": 1.0}, {"A": 1}, {"a": 1, "b": None}, {"a": [1]}, ["a", 1]], ["a", "A", " a", "a ", "á", "'a'", "a/b", "a\u0000"],
        [2 ** 53, 2 ** 53 + 1, float(2 ** 53), 2 ** 64], [0.1 + 0.2, 0.3, 0.30000001], [[1, 2], [2, 1], [1, 2, 2], [[1], 2], "[1, 2]"]]
KWS = [{}, {}, {}, {"a": 1}, {"b": 1}, {"a": "1"}, {"a": 1, "b": 2}, {"c": [1]}]


def fun_pool(r, h):
    pool = [{"f": r.choice(h["funcs"]), "args": r.choice(ARGS), "kw": r.choice(KWS)} for _ in range(r.randint(1, 3))]
    for _ in range(r.randint(0, 3)):
        c = dict(r.choice(pool))
        x = r.choice(["f", "args", "kw"])
        c[x] = r.choice({"f": h["funcs"], "args": ARGS, "kw": KWS}[x])
        pool.append(c)
    if r.random() < .7:
        # the same call but for one value
        c, near = r.choice(pool), r.choice(NEAR)
        at = r.randrange(len(near) - 1)
        near = near[at:at + 3]
        r.shuffle(near)
        pool = pool[:2]
        for v in near:
            d = dict(c, args=c["args"][:1] + [v]) if r.random() < .7 else dict(c, kw=dict(c["kw"], a=v))
            pool.append(d)
            if r.random() < .6:
                pool.append(d)
    return pool


def run_step(r, h, pool, p=None):
    kind = h["o"]["kind"]
    fl = {k: r.random() < q for k, q in zip("sSau", (.42, .18, .6, .6))}
    st = {"op": "run", "fl": fl, "tell": r.random() < .5}
    if len(h["cases"]) == 1 and r.random() < .13:
        st["i"] = True
    if r.random() < .1:
        st["end"] = r.choice(["raise", "fail"])
    if len(h["cases"]) == 1 and r.random() < .1:
        st["p"] = r.choice([1, 2])
    if r.random() < .3:
        st["session"] = True
    if kind == "env":
        st["real"] = {n: r.choice(["v1", "v2", "", None, "ä x", "v3"]) for n in h["funcs"]}
        st["scripts"] = {c: [{"f": n} for n in h["funcs"]] for c in h["cases"]}
        return st
    st["scripts"] = {}
    for case in h["cases"]:
        n = r.choice([0, 1, 2, 2, 3, 3, 4, 5])
        cs = [r.choice(pool) for _ in range(n)]
        if r.random() < .4 and h.get("last", {}).get(case) is not None:
            cs = list(h["last"][case])
            if r.random() < .3 and cs:
                cs.pop(r.randrange(len(cs)))
        h.setdefault("last", {})[case] = cs
        st["scripts"][case] = calls(r, h, cs)
        if not st.get("p") and (kind != "httpx" or h["form"] != "async") and h.get("form") not in ("twice", "nested") and r.random() < (.25 if not fl["s"] and not fl["S"] else .45):
            # the real target is out of order for some calls; the test tries again, or not
            st["catch"] = r.random() < .7
            cs = st["scripts"][case]
            for k in [k for k in range(len(cs)) if r.random() < .5]:
                if not cs[k].get("u", "").startswith("/r"):
                    cs[k]["down"] = True
                    if r.random() < .5:
                        cs.append(dict(cs[k], down=False))
    return st


def calls(r, h, cs, again=False):
    kind = h["o"]["kind"]
    rv = []
    g = 0
    if kind in ("req", "httpx") and h["form"] in ("twice", "nested"):
        # what several snapshots take part in, one after the other
        path = lambda c: c["u"].split("?")[0].replace("/r/", "/t/")
        ps = sorted({path(c) for c in cs})
        r.shuffle(ps)
        cs = sorted(cs, key=lambda c: ps.index(path(c)))
        if kind == "httpx" and h["form"] == "nested" and not again:
            # what the inner snapshot does not know the outer one answers, in its own order: not specified
            cs = [c for k, c in enumerate(cs) if path(c) not in map(path, cs[:k])]
    for c in cs:
        if kind == "fun":
            x = dict(c)
            ks = sorted(x["kw"])
            x["kw"] = {k: x["kw"][k] for k in ks}
            x["spoil"] = r.random() < .2
        else:
            x = http_call(r, h, c)
            if h["form"] == "async" and kind == "httpx" and not c["u"].startswith("/r"):
                if r.random() < .5:
                    g += 1
                x["g"] = g + 1
        rv.append(x)
    return rv


def probe(r, h, pool):
    """asks for everything that might be in the store"""
    st = {"op": "run", "fl": {}, "catch": True, "scripts": {}}
    if h["o"]["kind"] == "env":
        return dict(run_step(r, h, []), fl={}, i=False, p=0, end="", tell=False)
    for case in h["cases"]:
        cs = [c for c in pool for _ in range(3 if h["o"]["kind"] != "fun" else 1)]
        r.shuffle(cs)
        st["scripts"][case] = calls(r, h, cs, True)
        for c in st["scripts"][case]:
            c.pop("g", None)
    return st


def new_history(r, prop, kind):
    focus = prop == "C23"
    o = {"kind": kind, "ign": "all", "list": [], "show": [], "lose": True, "url": "full", "body": "raw", "order": True}
    h = {"o": o, "secrets": [], "bodies": [], "steps": [], "salt": r.randrange(10**6)}
    if kind in ("req", "httpx"):
        o["ign"] = r.choice(["all", "none", "list", "list"] if focus else ["all", "all", "none", "list"])
        if o["ign"] == "list":
            o["list"] = r.sample(NAMES, r.randint(0 if not focus else 1, 3))
            o["show"] = [spell(r, x) for x in o["list"]]
        o["lose"] = r.random() < (.6 if focus else .75)
        if r.random() < .25:
            o["url"] = "path"
            o["order"] = r.random() < .5
        if r.random() < .2:
            o["body"] = "lower"
        h["spell"] = {k: spell(r, k) for k in NAMES}
    h["form"] = r.choice({"fun": ["fn", "async", "method", "with", "twice"], "req": ["fn", "fn", "async", "method", "twice", "nested"],
                          "httpx": ["fn", "async", "async", "method", "twice", "nested"], "env": ["fn", "async", "method", "twice"]}[kind])
    h["cases"] = ["t/x"] if r.random() < .75 else ["t/x", "t/y"]
    h["funcs"] = r.sample(FUNS, r.randint(1, 3)) if kind == "fun" else r.sample(["BTV_A", "BTV_B", "BTV_C"], r.randint(1, 3)) if kind == "env" else []
    return h


def history(r, prop, kind):
    h = new_history(r, prop, kind)
    pool = {"fun": lambda: fun_pool(r, h), "env": lambda: [], "req": lambda: http_pool(r, h["o"], prop == "C23"),
            "httpx": lambda: http_pool(r, h["o"], prop == "C23")}[kind]()
    if kind in ("req", "httpx") and h["form"] in ("twice", "nested"):
        pool += [{"m": "GET", "u": u, "b": "", "h": {}} for u in ("/p", "/q")]
    n = r.randint(1, 4)
    for k in range(n):
        st = run_step(r, h, pool)
        if k == 0 and r.random() < .8:
            st["fl"]["s"] = True
        h["steps"].append(st)
        if r.random() < .12:
            h["steps"].append({"op": "review", "fl": {"a": r.random() < .7, "u": r.random() < .7}})
        if kind in ("req", "httpx") and r.random() < .1:
            h["steps"].append({"op": "legacy"})
            if r.random() < .4:
                # the old layout, refreshed
                st = run_step(r, h, pool)
                st["fl"]["S"] = True
                h["steps"].append(st)
    h["steps"].append(probe(r, h, pool))
    return h


def small(chk, r, kind, n):
    """histories of SnapMC: two runs over two keys with every flag and every script"""
    e = chk.tlc(tlc.run("SnapMC", cfg="SnapEmit.cfg", workers=8, consts={"Kind": '"%s"' % kind}))
    hs = []
    xs = sorted(e.printed, key=json.dumps)
    if n < len(xs):
        xs = r.sample(xs, n)
    for x in xs:
        h = new_history(r, "", kind)
        h["cases"] = ["t/x"]
        h["funcs"] = FUNS[:2] if kind == "fun" else []
        if kind == "fun":
            pool = {"a": {"f": "f", "args": [1], "kw": {}}, "b": {"f": "f", "args": [2], "kw": {}}}
        else:
            pool = {"a": {"m": "GET", "u": "/a", "b": "", "h": {}}, "b": {"m": "GET", "u": "/b", "b": "", "h": {}}}
        for s in x["hist"]:
            h["steps"].append({"op": "run", "fl": {"s": s["fl"]["s"], "S": s["fl"]["S"], "a": s["acc"], "u": s["acc"]},
                               "i": s["acc"], "scripts": {"t/x": calls(r, h, [pool[k] for k in s["script"]])}})
        h["steps"].append(probe(r, h, [pool["a"], pool["b"]]))
        hs.append(h)
    return hs


# ---------------------------------------------------------------- traces

def http_key(m, u, b, h):
    return {"m": m, "u": u, "p": u.split("?")[0], "b": b, "bl": b if b in drv_snap.BIN else b.lower(),
            "h": sorted([k.lower(), v] for k, v in h)}


def quoted(u):
    from urllib.parse import quote
    return quote(u, safe="/?&=")


def answer_id(v):
    m = re.search(r'"(f\d+(?:p\d+)?)"', json.dumps(v))
    return m.group(1) if m else None


def call_list(h, st, o, x, case):
    """the calls of a run with the answers seen"""
    kind = h["o"]["kind"]
    if kind == "env":
        got = {i: g for i, g in x["got"]}
        return [{"f": c["f"], "a": "", "real": val(st["real"][c["f"]]),
                 "got": val(got[i]["v"]) if i in got else "!"} for i, c in enumerate(st["scripts"][case])]
    rv = []
    for i, g in x["got"]:
        c = st["scripts"][case][i]
        if kind == "fun":
            a = "!"
            if g is not None:
                a = answer_id(g)
                a = a if a and o["values"].get(a) == g else "garbled"
            rv.append({"f": c["f"], "a": drv_snap.canon(c["args"], c["kw"]), "got": a, "down": bool(c.get("down"))})
            continue
        steps = [http_key(c["m"], quoted(c["u"]), c["b"], c["h"])]
        if c["u"].startswith("/r"):
            steps.append(http_key("GET", "/t" + quoted(c["u"])[2:], "", c["h"]))
        if g is not None and len(g) != len(steps):
            rv += [dict(s, got="garbled", down=False) for s in steps]
            continue
        for k, s in enumerate(steps):
            a = "!"
            if g is not None:
                a = g[k]["h"].get("x-ans", "")
                at = g[k].pop("at")
                # a recorded redirect leads where the recorded request was led
                cut = (lambda u: u.split("?")[0]) if h["o"]["url"] == "path" else lambda u: u
                at = [at[0], cut(at[1]), cut(at[2])]
                a = a if o["answers"].get(a) == g[k] and at == [s["m"]] + [cut(s["u"][1:])] * 2 else "garbled"
            rv.append(dict(s, got=a, down=bool(c.get("down"))))
    return rv


def val(v):
    return "-" if v is None else "=" + v


def planned(h, st, case):
    return sum(2 if c.get("u", "").startswith("/r") else 1 for c in st["scripts"][case])


def traces(tid, h, o):
    rv = []
    for j, case in enumerate(h["cases"]):
        steps = []
        for st, s in zip(h["steps"], o["steps"]):
            if st["op"] == "legacy":
                continue
            fl = {k: bool(st["fl"].get(k)) for k in "sSau"}
            if st["op"] == "review":
                steps.append({"op": "review", "fl": fl, "res": s["rec"].get(case, ""), "frozen": False})
                continue
            x = s["per"][case]
            iss = [{"f": e["f"], "a": e["a"], "ans": e["ans"]} if "f" in e else
                   dict(http_key(e["m"], e["u"], e["b"], e["h"]), ans=e["ans"]) for e in x["issued"]]
            steps.append({"op": "run", "fl": fl, "calls": call_list(h, st, o, x, case), "issued": iss, "res": x["res"],
                          "frozen": bool(st.get("i")) and x["res"] == "DIFF", "catch": bool(st.get("catch")),
                          "fails": st.get("end") in ("raise", "fail"), "planned": planned(h, st, case),
                          "leak": s["leak"] if j == 0 else [], "bleak": s["bleak"] if j == 0 else []})
        rv.append({"id": f"{tid}.{j}", "o": {k: h["o"][k] for k in ("kind", "ign", "list", "url", "body")}, "steps": steps})
    return rv


def validate(chk, ts):
    path = os.path.join(sandbox.scratch(), "snap.json")
    with open(path, "w") as f:
        json.dump(ts, f)
    r = chk.tlc(tlc.run("SnapTrace", env={"TRACES": path}, workers=8, timeout=1800))
    v = {x["id"]: x for x in r.printed}
    if len(v) != len(ts):
        raise tlc.TlcError(f"{len(ts)} histories but {len(v)} verdicts\n" + r.output[-3000:])
    return v


def run(chk, farm, hs):
    res = farm.run("harness.drv_snap", "run_history", hs, timeout=90)
    ts, keep = [], {}
    for k, (h, x) in enumerate(zip(hs, res)):
        if x["status"] == "hang":
            chk.violation("hang", "a history does not end", {"history": h, "family": "fam_snap"})
            continue
        if x["status"] != "done":
            raise tlc.TlcError("snapshot driver failed: " + str(x)[:3000])
        for t in traces(f"s{k}", h, x["value"]):
            ts.append(t)
            keep[t["id"]] = (h, x["value"], t)
    vs = validate(chk, ts)
    chk.traces += sum(len(t["steps"]) for t in ts)
    seen = {}
    for tid, v in vs.items():
        h, o, t = keep[tid]
        for c in v["bad"]:
            seen[c] = seen.get(c, 0) + 1
        hit = set(v["bad"]) & CLAUSES[chk.prop]
        if hit:
            b = next(b for b in v["log"] if set(b["bad"]) & hit)
            s = t["steps"][b["step"] - 1]
            raw = [y for st, y in zip(h["steps"], o["steps"]) if st["op"] != "legacy"][b["step"] - 1]
            chk.violation("+".join(sorted(hit)), f"options {json.dumps(h['o'])} form {h['form']} run {b['step']} of "
                          f"{len(t['steps'])}: {json.dumps(s)[:2500]} with the store {json.dumps(b['store'])} {raw.get('error')} "
                          f"{raw.get('text', '')[-600:]}", {"history": h, "family": "fam_snap"})
    if seen:
        chk.info["clauses_seen"] = seen
    chk.info["histories"] = chk.info.get("histories", 0) + len(hs)
    return vs, keep


def findings(chk, farm):
    for f in known_findings()["findings"]:
        h = f.get("input", {}).get("snaphistory")
        if f["property"] == chk.prop and h:
            x = farm.run("harness.drv_snap", "run_history", [h], timeout=60)[0]
            v = validate(chk, traces("f", h, x["value"]))
            if set(v["f.0"]["bad"]) & set(f["input"]["clauses"]):
                chk.finding(f["id"], f["what"])


def check(chk, replay=None):
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    farm = sandbox.Farm(preload=("booktest", "coverage", "requests", "httpx"), paths=(here,))
    try:
        err = farm.start()
        if err:
            chk.violation("import", "booktest cannot be imported: " + err[-500:], {})
            return
        if replay:
            run(chk, farm, [replay["data"]["history"]])
            return
        r = random.Random(chk.seed * 1000 + int(chk.prop[1:]))
        findings(chk, farm)
        if chk.prop != "C23":
            for kind in ("req", "fun"):
                m = chk.tlc(tlc.run("SnapMC", workers=8, check=False, consts={"Kind": '"%s"' % kind, "MaxRuns": chk.pick(2, 3)}))
                if m.violated:
                    raise tlc.TlcError("the specification violates " + m.violated)
        kinds = KINDS[chk.prop]
        hs = [history(r, chk.prop, kinds[k % len(kinds)]) for k in range(chk.pick(420, 9000))]
        if chk.prop == "C21":
            for kind in ("fun", "req", "httpx"):
                hs += small(chk, r, kind, chk.pick(60, 4000))
        vs, keep = run(chk, farm, hs)
        k = next(iter(vs))
        chk.sample({"verdict": vs[k], "trace": keep[k][2]})
    finally:
        farm.close()
