"""Runs tests with nested mock and snapshot decorators and records what is in force when."""
import os, shutil, sys, types
from harness import drv_snap, suites

LOG = []
REAL = [""]
MISSING = object()


def value(v):
    return None if v == "-" else 5 if v == "bad" else v[1:]


def shown(v):
    return "-" if v is None else "=" + v


class Boom(BaseException):
    pass


ODD = [False]
COMBINE = [False]


def answer(f, args, kw):
    return {1, 2} if ODD[0] else REAL[0] + f


def mock(m):
    def mocked(*a, **k):
        return m
    return mocked


def setup(name, mode):
    def gen():
        if mode == "bad":
            LOG.append("setup-fails " + name)
            raise ValueError("setup")
        LOG.append("setup " + name)
        yield
        LOG.append("teardown " + name)
        if mode == "late":
            raise ValueError("teardown")
    return gen


def decorator(d):
    import booktest as bt
    m = d["m"]
    if d["k"] == "menv":
        return bt.mock_env({n: value(v) for n, v in m})
    if d["k"] == "mmiss":
        return bt.mock_missing_env({n: value(v) for n, v in m})
    if d["k"] == "senv":
        return bt.snapshot_env(*[x[0] for x in m])
    if d["k"] == "mfun":
        return bt.mock_functions({drv_snap.target(f): MOCKS.setdefault(v, mock(v)) for f, v in m})
    if d["k"] == "sfun":
        return bt.snapshot_functions(*[drv_snap.target(x[0]) for x in m])
    if d["k"] == "req":
        return bt.snapshot_requests()
    if d["k"] == "httpx":
        return bt.snapshot_httpx()
    return bt.setup_teardown(setup(*m[0]))


MOCKS = {}
LONG = {}              # clients that live longer than the test


def clients():
    import httpx, requests

    class Own(requests.Session):
        """chooses its adapter itself"""
        def get_adapter(self, url):
            return self.chosen
    o, p = Own(), requests.Session()
    o.chosen = requests.adapters.HTTPAdapter()
    p.mount("http://", requests.adapters.HTTPAdapter())
    LONG.update({"requestsown": o, "requestsmounted": p, "httpxown": httpx.Client()})


async def body(t, ops, orig):
    for o in ops:
        if o["op"] == "set":
            v = value(o["v"])
            if v is None:
                os.environ.pop(o["n"], None)
            else:
                os.environ[o["n"]] = v
        elif o["op"] == "obs":
            LOG.append("env " + o["n"] + shown(os.environ.get(o["n"])))
        elif o["op"] == "call":
            r = drv_snap.target(o["n"])()
            LOG.append(f"{o['n']}={r}")
        elif o["op"] == "http":
            import httpx, requests
            port = drv_snap.CUR["port"] if o["v"] != "refused" else 1
            try:
                lib = httpx if o["n"] == "httpx" else requests
                (LONG.get(o["n"] + o.get("by", ""), lib)).get(f"http://127.0.0.1:{port}/{o['v']}")
            except OSError:
                pass
        elif o["op"] == "odd":
            ODD[0] = True
            try:
                drv_snap.target(o["n"])()
            finally:
                ODD[0] = False
        elif o["op"] == "wipe":
            # nothing can be stored where this test keeps its files
            shutil.rmtree(os.path.dirname(t.file("x")))
        elif o["op"] == "raise":
            if o["v"] == "exit":
                sys.exit(0)
            raise Boom() if o["v"] == "base" else ValueError("boom")
        else:
            f = wrap(o["decs"], o["body"], orig, True)
            try:
                await f(t)
            except BaseException:
                if o["v"] != "catch":
                    raise


def wrap(decs, ops, orig, is_async):
    if is_async:
        async def f(t):
            await body(t, ops, orig)
    else:
        def f(t):
            c = body(t, ops, orig)
            try:
                c.send(None)
            except StopIteration:
                pass
    # the decorators name the functions as they are outside of the test
    return applied(f, [orig[d["id"]] for d in reversed(decs)])


def applied(f, decorators):
    """one after the other, or all at once"""
    if len(decorators) > 1 and COMBINE[0]:
        import booktest as bt
        return bt.combine_decorators(*decorators)(f)
    for d in decorators:
        f = d(f)
    return f


def prepare(decs, ops, made):
    for d in decs:
        made[d["id"]] = decorator(d)
    for o in ops:
        if o["op"] == "nest":
            prepare(o["decs"], o["body"], made)
    return made


def state(fns):
    import httpx, requests
    fs = {}
    for f in fns:
        o, n = drv_snap.holder(f)
        fs[f] = (id(vars(o).get(n, MISSING)), sorted(k for k in vars(o) if not k.startswith("__")))
    libs = {}
    for c in (requests.Session, requests.adapters.HTTPAdapter, requests.adapters.BaseAdapter, httpx.HTTPTransport,
              httpx.AsyncHTTPTransport, httpx.Client, httpx.AsyncClient, requests, httpx, requests.api):
        libs[repr(c)] = {k: id(v) for k, v in vars(c).items() if not k.startswith("__")}
    for n in ("requestsown", "requestsmounted"):
        libs[n] = id(LONG[n].get_adapter("http://a"))
    return fs, libs


def run_history(h):
    import booktest as bt
    with open("counter", "w"):
        pass
    drv_snap.CUR["journal"] = os.open("/dev/null", os.O_WRONLY)
    a, b = drv_snap.real_module(os.path.abspath("counter"))
    a.REAL.call = answer
    if h.get("loose"):
        srv = drv_snap.Server()
        srv.binary = True
        drv_snap.CUR["port"] = srv.server_address[1]
    clients()
    os.mkdir("books")
    mod = types.ModuleType("btv_nest")
    mod.__file__ = "btv_nest.py"
    sys.modules["btv_nest"] = mod
    made = prepare(h["decs"], h["body"], {})
    COMBINE[0] = bool(h.get("combine"))
    if h["form"] == "method":
        inner = wrap([], h["body"], made, True)

        async def m(self, t):
            await inner(t)
        m = applied(m, [made[d["id"]] for d in reversed(h["decs"])])
        B = types.new_class("B", (bt.TestBook,), {}, lambda ns: ns.update({"__module__": "btv_nest"}) or ns.__setitem__("test_x", m))
        mod.B = B
        tests = bt.Tests([["t/x", x[1]] for x in B("t").cases])
    else:
        f = wrap(h["decs"], h["body"], made, h["form"] == "async")
        f.__module__ = "btv_nest"
        f.__name__ = f.__qualname__ = "fn"
        mod.fn = f
        tests = bt.Tests([["t/x", f]])
    rv = []
    for st in h["steps"]:
        for n, v in st["env"].items():
            if value(v) is None:
                os.environ.pop(n, None)
            else:
                os.environ[n] = value(v)
        REAL[0] = st["real"]
        del LOG[:]
        before, benv = state(h["fns"]), dict(os.environ)
        fl = ["-" + k for k in "sSau" if st.get(k)]
        rc, text, err = drv_snap.exec_cli(tests, fl + ["t/x"], [])
        after, aenv = state(h["fns"]), dict(os.environ)
        rv.append({"log": list(LOG), "after": {n: shown(aenv.get(n)) for n in st["env"]},
                   "others": all(benv.get(k) == aenv.get(k) for k in set(benv) | set(aenv) if k not in st["env"]),
                   "fntrace": [f for f in h["fns"] if before[0][f] != after[0][f]],
                   "libtrace": [c for c in before[1] if before[1][c] != after[1][c]],
                   "res": drv_snap.result_of(text, "t/x"), "rc": rc, "error": err, "text": text[-800:]})
        # the next run starts with clean functions and libraries in any case
        if rv[-1]["fntrace"] or rv[-1]["libtrace"]:
            break
    return rv
