"""Runs histories of a test that uses snapshots of functions, requests, httpx or the environment."""
import asyncio, base64, copy, gzip, io, json, os, random, sys, threading, types
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer
from harness import suites

CUR = {}               # case: the case being executed in this process


def note(x):
    os.write(CUR["journal"], (json.dumps(x) + "\n").encode())


# ---------------------------------------------------------------- the real targets

class Real:
    """real functions: every call answers something new"""
    def __init__(self, path):
        self.path = path

    def value(self, n, ans):
        return [ans, [ans, 1], {"ans": ans, "deep": [{"x": None}]}, [ans, {"ä": "ö\n"}, 1.5, True]][n % 4]

    def call(self, f, args, kw):
        n = os.path.getsize(self.path)
        with open(self.path, "ab") as fd:
            fd.write(b"x")
        ans = f"f{n}" + ("p%d" % os.getpid() if CUR.get("par") else "")
        if CUR.get("down"):
            note({"k": "issued", "case": CUR.get("case"), "f": f, "a": canon(args, kw), "ans": "down" + ans})
            raise OSError("down")
        v = self.value(n, ans)
        note({"k": "issued", "case": CUR.get("case"), "f": f, "a": canon(args, kw), "ans": ans, "value": copy.deepcopy(v)})
        return v


def canon(args, kw):
    return json.dumps([list(args), {k: kw[k] for k in sorted(kw)}])


def real_module(path):
    real = Real(path)
    mods = {}
    for name in ("btv_real", "btv_other"):
        m = types.ModuleType(name)
        sys.modules[name] = m
        src = (f"class K:\n"
               "    def meth(self, *a, **k): return REAL.call(PRE + 'meth', a, k)\n"
               "    @staticmethod\n"
               "    def stat(*a, **k): return REAL.call(PRE + 'stat', a, k)\n"
               "    @classmethod\n"
               "    def clas(cls, *a, **k): return REAL.call(PRE + 'clas', a, k)\n"
               "def f(*a, **k): return REAL.call(PRE + 'f', a, k)\n"
               "def g(*a, **k): return REAL.call(PRE + 'g', a, k)\n"
               "def f2(*a, **k): return REAL.call(PRE + 'f2', a, k)\n"
               "obj = K()\n")
        m.REAL, m.PRE = real, "" if name == "btv_real" else "other."
        exec(compile(src, name + ".py", "exec"), m.__dict__)
        mods[name] = m
    return mods["btv_real"], mods["btv_other"]


def holder(f):
    mod = sys.modules["btv_other" if f.startswith("other.") else "btv_real"]
    n = f.split(".")[-1]
    return (mod.obj if n == "meth" else mod.K if n in ("stat", "clas") else mod), n


def target(f):
    o, n = holder(f)
    return getattr(o, n)


class Server(ThreadingHTTPServer):
    daemon_threads = True
    request_queue_size = 64

    def __init__(self, salt=0):
        super().__init__(("127.0.0.1", 0), Handler)
        self.n = 0
        self.salt = salt
        self.lock = threading.Lock()
        self.answers = {}
        threading.Thread(target=self.serve_forever, args=(0.02,), daemon=True).start()

    def answer(self, method, path, binary):
        with self.lock:
            self.n += 1
            n = self.n
        ans = f"a{n}"
        r = random.Random(f"{self.salt} {n}")
        status = r.choice([200, 200, 201, 404, 500])
        body = r.choice([f"answer {ans}", f"äöü {ans}", f"ä €\n{ans}\r\n", "", json.dumps({"ans": ans, "x": [1, None]}), f"zip {ans} " * 5])
        raw = body.encode()
        if r.random() < .15:
            raw = b"\x00\xff\xfe" + ans.encode()
        if path == "/bin":
            raw = b"\xff\x00" + ans.encode()
        hs = {"X-Ans": ans, "X-Other": r.choice(["o1", "o2"])}
        ct = r.choice(["text/plain; charset=utf-8", "application/json", "text/html", "", "text/plain; charset=ISO-8859-1"])
        if ct:
            hs["Content-Type"] = ct
        enc = raw
        if r.random() < .2:
            enc = gzip.compress(raw)
            hs["Content-Encoding"] = "gzip"
        if path.startswith("/r"):
            status = 302
            hs["Location"] = "/t" + path[2:]
        self.answers[ans] = {"status": status, "h": {k.lower(): v for k, v in hs.items() if k != "Content-Encoding"},
                             "body": base64.b64encode(raw).decode(), "text": text_of(raw, ct, "httpx" if binary else "requests")}
        return ans, status, hs, enc


class Handler(BaseHTTPRequestHandler):
    protocol_version = "HTTP/1.1"
    disable_nagle_algorithm = True

    def log_message(self, *a):
        pass

    def handle_any(self):
        n = int(self.headers.get("Content-Length") or 0)
        body = self.rfile.read(n) if n else b""
        srv = self.server
        if CUR.get("down"):
            # the connection ends without an answer
            with srv.lock:
                srv.n += 1
                ans = f"down{srv.n}"
            note({"k": "issued", "case": CUR.get("case"), "m": self.command, "u": self.path, "b": name_of(body),
                  "h": sorted([k.lower(), v] for k, v in self.headers.items() if k.lower().startswith("x-")), "ans": ans})
            self.close_connection = True
            return
        ans, status, hs, enc = srv.answer(self.command, self.path, srv.binary)
        note({"k": "issued", "case": CUR.get("case"), "m": self.command, "u": self.path, "b": name_of(body),
              "h": sorted([k.lower(), v] for k, v in self.headers.items() if k.lower().startswith("x-")), "ans": ans})
        self.send_response(status)
        for k, v in hs.items():
            self.send_header(k, v)
        self.send_header("Content-Length", str(len(enc)))
        self.end_headers()
        if self.command != "HEAD":
            self.wfile.write(enc)
    do_GET = do_POST = do_PUT = do_DELETE = do_PATCH = handle_any


BIN = {"BIN1": b"\x00\xff\xfebinary", "BIN2": b"\x00\xff\xfdbinary"}


def data_of(b):
    return BIN.get(b, b.encode() if b else None)


def name_of(body):
    for k, v in BIN.items():
        if v == body:
            return k
    return body.decode()


# ---------------------------------------------------------------- calls from within the test

def seen_response(r, lib):
    # headers are looked up in another case than the one they were sent in
    h = {k: r.headers.get(k.upper()) for k in ("x-ans", "x-other", "content-type", "location")}
    h = {k: v for k, v in h.items() if v is not None}
    # the request that it answers
    at = [r.request.method, str(r.request.url).split("/", 3)[-1], str(r.url).split("/", 3)[-1]]
    return {"status": r.status_code, "h": h, "at": at, "body": base64.b64encode(r.content).decode(),
            "text": r.text if "content-type" in h else ""}


def text_of(raw, content_type, lib):
    """the text a client makes of a response it received"""
    if not content_type:
        return ""
    if lib == "httpx":
        import httpx
        return httpx.Response(200, headers={"content-type": content_type}, content=raw).text
    import requests
    r = requests.Response()
    r._content = raw
    r.encoding = requests.utils.get_encoding_from_headers({"content-type": content_type})
    return r.text


def url_of(c):
    return f"http://127.0.0.1:{CUR['port']}{c['u']}"


def kwargs_of(c, lib):
    kw = {"headers": {k: v for k, v in c["h"]}}
    if c["b"]:
        d = data_of(c["b"])
        if c.get("text") and c["b"] not in BIN:
            d = c["b"]
        kw["content" if lib == "httpx" else "data"] = d
    return kw


def do_requests(c, session):
    import requests
    x = (session or requests).request(c["m"], url_of(c), **kwargs_of(c, "requests"))
    return [seen_response(r, "requests") for r in list(x.history) + [x]]


def do_httpx(c, client):
    import httpx
    x = (client or httpx).request(c["m"], url_of(c), follow_redirects=True, **kwargs_of(c, "httpx"))
    return [seen_response(r, "httpx") for r in list(x.history) + [x]]


async def do_ahttpx(c, client):
    x = await client.request(c["m"], url_of(c), follow_redirects=True, **kwargs_of(c, "httpx"))
    return [seen_response(r, "httpx") for r in list(x.history) + [x]]


def groups(calls):
    rv = []
    for i, c in enumerate(calls):
        if rv and c.get("g") and rv[-1][0][1].get("g") == c["g"]:
            rv[-1].append((i, c))
        else:
            rv.append([(i, c)])
    return rv


class Script:
    def __init__(self, case, step, h):
        self.case, self.step, self.h = case, step, h
        self.calls = step["scripts"][case]

    def report(self, i, got):
        note({"k": "got", "case": self.case, "i": i, "got": got})

    def one(self, i, c, fn):
        CUR["down"] = bool(c.get("down"))
        try:
            got = fn(c)
        except BaseException as e:
            CUR["down"] = False
            self.report(i, None)
            if not self.step.get("catch") or not isinstance(e, Exception):
                raise
            return None
        CUR["down"] = False
        self.report(i, copy.deepcopy(got))
        return got

    async def aone(self, i, c, client):
        try:
            got = await do_ahttpx(c, client)
        except BaseException as e:
            self.report(i, None)
            if not self.step.get("catch"):
                raise
            return None
        self.report(i, got)
        return got

    def begin(self):
        CUR["case"] = self.case

    def told(self, t, i, got):
        if self.step.get("tell"):
            t.tln(f"{i} {json.dumps(got)}")

    def finish(self, t):
        t.tln("end")
        if self.step.get("end") == "raise":
            raise ValueError("boom")
        if self.step.get("end") == "fail":
            t.fail()

    def parts(self, n=2):
        """the calls in parts, which have no request in common"""
        def names(cs):
            return {x for c in cs for x in ([c["u"].split("?")[0]] + (["/t" + c["u"][2:]] if c["u"].startswith("/r") else []))}
        ks = [k for k in range(1, len(self.calls)) if not names(self.calls[:k]) & names(self.calls[k:])]
        k = ks[len(ks) // 2] if ks else len(self.calls)
        if n == 3:
            k, j = (ks[0], ks[-1]) if len(ks) > 1 else (k, len(self.calls))
            return range(k), range(k, j), range(j, len(self.calls))
        return range(k), range(k, len(self.calls))

    def sync_calls(self, t, snap=None, part=None):
        import requests, httpx
        kind = self.h["o"]["kind"]
        session = client = None
        if self.step.get("session"):
            session = requests.Session() if kind == "req" else None
            client = httpx.Client() if kind == "httpx" else None
        for i, c in enumerate(self.calls):
            if part is not None and i not in part:
                continue
            if kind == "req":
                got = self.one(i, c, lambda c: do_requests(c, session))
            elif kind == "httpx":
                got = self.one(i, c, lambda c: do_httpx(c, client))
            elif kind == "env":
                got = self.one(i, c, lambda c: {"v": os.environ.get(c["f"])})
            else:
                def f(c):
                    args = copy.deepcopy(c["args"])
                    kw = copy.deepcopy(c["kw"])
                    if snap is not None:
                        return snap.snapshot(target(c["f"]), *args, **kw)
                    return target(c["f"])(*args, **kw)
                got = self.one(i, c, f)
                if c.get("spoil") and isinstance(got, (list, dict)):
                    got.clear()
                    got = "spoilt"
            self.told(t, i, got)

    def run(self, t, snap=None):
        self.begin()
        self.sync_calls(t, snap)
        self.finish(t)

    async def twice(self, t, dec):
        """two snapshots one after the other"""
        self.begin()
        for part in self.parts():
            def f(t, part=part):
                self.sync_calls(t, None, part)
            await dec(f)(t)
        self.finish(t)

    async def nested(self, t, dec):
        """some of the calls within a second snapshot"""
        self.begin()
        parts = self.parts(3)

        @dec
        async def outer(t):
            self.sync_calls(t, None, parts[0])

            @dec
            def inner(t):
                self.sync_calls(t, None, parts[1])
            await inner(t)
            self.sync_calls(t, None, parts[2])
        await outer(t)
        self.finish(t)

    async def arun(self, t, snap=None):
        import httpx
        self.begin()
        if self.h["o"]["kind"] == "httpx":
            async with httpx.AsyncClient() as client:
                for g in groups(self.calls):
                    rs = await asyncio.gather(*[self.aone(i, c, client) for i, c in g], return_exceptions=True)
                    for r in rs:
                        if isinstance(r, BaseException):
                            raise r
                    for (i, c), r in zip(g, rs):
                        self.told(t, i, r)
        else:
            await asyncio.sleep(0)
            self.sync_calls(t, snap)
        self.finish(t)


# ---------------------------------------------------------------- options

def decorator(o, funcs):
    import booktest as bt
    if o["kind"] == "fun":
        return bt.snapshot_functions(*[target(f) for f in funcs])
    if o["kind"] == "env":
        return bt.snapshot_env(*funcs)
    kw = {}
    if o["ign"] != "all":
        kw["ignore_headers"] = list(o["show"]) if o["ign"] == "list" else False
    if not o["lose"]:
        kw["lose_request_details"] = False
    if o["url"] == "path":
        from booktest.requests import json_to_sha1

        def jh(x):
            x = copy.deepcopy(x)
            x["url"] = x["url"].split("?")[0]
            if not o["order"]:
                x.pop("order", None)
            return json_to_sha1(x)
        kw["json_to_hash"] = jh
    if o["body"] == "lower":
        def eb(body, url, method):
            if isinstance(body, bytes):
                body = body.decode()
            return body.lower()
        kw["encode_body"] = eb
    return (bt.snapshot_requests if o["kind"] == "req" else bt.snapshot_httpx)(**kw)


def build(h):
    import booktest as bt
    mod = types.ModuleType("btv_snap")
    mod.__file__ = "btv_snap.py"
    sys.modules["btv_snap"] = mod
    o, form = h["o"], h["form"]
    cases = []
    for j, case in enumerate(h["cases"]):
        dec = decorator(o, h["funcs"])
        if form == "with":
            def f(t, case=case):
                from booktest.functions import SnapshotFunctions
                with SnapshotFunctions(t, []) as s:
                    CUR["script"](case).run(t, s)
        elif form == "twice" and o["kind"] in ("req", "httpx"):
            async def f(t, case=case, dec=dec):
                await CUR["script"](case).twice(t, dec)
        elif form == "nested":
            async def f(t, case=case, dec=dec):
                await CUR["script"](case).nested(t, dec)
        elif form == "twice":
            # the first snapshot covers only the first of the functions or variables
            @decorator(o, h["funcs"][:1])
            @decorator(o, h["funcs"][1:])
            def f(t, case=case):
                CUR["script"](case).run(t)
        elif form == "async":
            @dec
            async def f(t, case=case):
                await CUR["script"](case).arun(t)
        elif form == "method":
            class B(bt.TestBook):
                @dec
                def test_x(self, t, case=case):
                    CUR["script"](case).run(t)
            B.__module__ = "btv_snap"
            B.__qualname__ = B.__name__ = f"B{j}"
            setattr(mod, f"B{j}", B)
            for n, m in B(case.rsplit("/", 1)[0]).cases:
                cases.append([case, m])
            continue
        else:
            @dec
            def f(t, case=case):
                CUR["script"](case).run(t)
        f.__module__ = "btv_snap"
        f.__name__ = f.__qualname__ = f"fn{j}"
        setattr(mod, f"fn{j}", f)
        cases.append([case, f])
    return bt.Tests(cases)


# ---------------------------------------------------------------- histories

def exec_cli(tests, args, answers):
    from booktest.cache import LruCache
    so, si = sys.stdout, sys.stdin
    sys.stdout, sys.stdin = io.StringIO(), suites.Answers("".join(a + "\n" for a in answers))
    error = ""
    try:
        try:
            rc = tests.exec("books", args, LruCache(8))
        except BaseException:
            import traceback
            rc, error = "exc", traceback.format_exc()[-1500:]
    finally:
        text = sys.stdout.getvalue()
        sys.stdout, sys.stdin = so, si
    return rc, text, error


def result_of(text, case):
    import re
    ls = re.findall(r"^  " + re.escape(case) + r"\.\.(.*)$", text, re.M)
    for l in reversed(ls):
        if "DIFFERED in" in l:
            return "DIFF"
        if "FAILED in" in l:
            return "FAIL"
        if re.search(r"\d+ ms", l):
            return "OK"
    return "?"


def leaks(words, roots=("books",)):
    rv = []
    for base in roots:
        for root, dirs, files in os.walk(base):
            for f in files:
                with open(os.path.join(root, f), "rb") as fd:
                    blob = fd.read()
                for w in words:
                    if any(x and x in blob for x in w[1]):
                        rv.append([w[0], os.path.join(root, f)])
    return rv


def legacy(h, case):
    """rewrites the store into one file per request"""
    n = {"req": ".requests", "httpx": ".httpx"}[h["o"]["kind"]]
    p = os.path.join("books", case, n + ".json")
    if not os.path.isfile(p):
        return
    with open(p) as f:
        d = json.load(f)
    os.remove(p)
    os.makedirs(p[:-5], exist_ok=True)
    for k, v in d.items():
        with open(os.path.join(p[:-5], k + ".json"), "w") as f:
            json.dump(v, f)


def run_history(h):
    import booktest as bt
    suites.fork_context()
    with open("counter", "w"):
        pass
    open("journal", "w").close()
    CUR["journal"] = os.open("journal", os.O_WRONLY | os.O_APPEND)
    real_module(os.path.abspath("counter"))
    o = h["o"]
    srv = None
    if o["kind"] in ("req", "httpx"):
        srv = Server(h.get("salt", 0))
        srv.binary = o["kind"] == "httpx"
        CUR["port"] = srv.server_address[1]
    os.mkdir("books")
    tests = build(h)
    rv = []
    at = 0
    secrets = [(s, [s.encode()]) for s in h.get("secrets", [])]
    bodies = [(b, [data_of(b), base64.b64encode(data_of(b)), b.lower().encode()]) for b in h.get("bodies", [])]
    values = {}
    for st in h["steps"]:
        if st["op"] == "legacy":
            for c in h["cases"]:
                legacy(h, c)
            rv.append({})
            continue
        rec = dict(map(tuple, suites.record("books/.out")))
        fl = ["-" + k for k in "sSau" if st["fl"].get(k)]
        if st["op"] == "review":
            rc, text, err = exec_cli(tests, ["-w"] + fl + h["cases"], [])
            rv.append({"rec": rec, "rc": rc, "error": err, "leak": leaks(secrets)})
            continue
        CUR["par"] = bool(st.get("p"))
        CUR["script"] = lambda case, st=st: Script(case, st, h)
        for k, v in st.get("real", {}).items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        before = dict(os.environ)
        CUR["case"] = h["cases"][0]
        args = fl + (["-i"] if st.get("i") else []) + ([f"-p{st['p']}"] if st.get("p") else [])
        rc, text, err = exec_cli(tests, args + h["cases"], ["a", "c"] if st.get("i") else [])
        with open("journal") as f:
            ls = f.read().split("\n")[:-1]
        lines = [json.loads(l) for l in ls[at:]]
        at = len(ls)
        for l in lines:
            if l["k"] == "issued" and "value" in l:
                values[l["ans"]] = l["value"]
        per = {}
        for c in h["cases"]:
            per[c] = {"res": result_of(text, c),
                      "issued": [l for l in lines if l["k"] == "issued" and l["case"] == c],
                      "got": sorted(([l["i"], l["got"]] for l in lines if l["k"] == "got" and l["case"] == c), key=lambda x: x[0])}
        rv.append({"per": per, "rc": rc, "error": err, "text": text[-1500:], "leak": leaks(secrets),
                   "bleak": leaks(bodies) if o.get("lose", True) else [], "env": dict(os.environ) == before})
    return {"steps": rv, "answers": srv.answers if srv else {}, "values": values}
