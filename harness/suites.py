"""Builds test suites from a description and runs invocations with the real booktest code."""
import asyncio, io, json, os, pickle, re, sys, types

CURRENT = {}          # case -> what its test does in the current invocation
JOURNAL = [None]      # file descriptor of the journal of executed tests
BOOKS = ["books", "books"]   # the books directory as booktest is given it, and where it is
HOOKS = {}            # name -> callable used by special suites


def note(x):
    os.write(JOURNAL[0], (json.dumps(x) + "\n").encode())


class Oops(BaseException):
    pass


class Odd(Exception):
    """an exception, that cannot tell about itself"""

    def __str__(self):
        raise ValueError("no text")


# results that count as false in conditions
FALSY = {"0": 0, "[]": [], "False": False}


def perform(name, t, args):
    try:
        return act(name, t, args)
    finally:
        if "end" in HOOKS:
            HOOKS["end"](name)


def content(v):
    """of an attachment: large ones differ at their end only"""
    return "=" * 1200000 + v[1:] if v.startswith("B") else v


def act(name, t, args):
    s = CURRENT[name]
    note({"c": name, "args": [str(a) for a in args]})
    if "gate" in HOOKS:
        HOOKS["gate"](name, t)
    for a in s["att"].split(",") if s["att"] else []:
        n, v = a.split("=")
        # a file named by its content
        hashed = len(n) > 40
        if "/" in n:
            os.makedirs(t.file(os.path.dirname(n)), exist_ok=True)
        with open(t.file("~new" if hashed else n), "w") as f:
            f.write(content(v))
        if hashed:
            t.rename_file_to_hash(t.file("~new"), n[40:])
    stale = ""
    if s.get("tmp"):
        # temporary files neither outlive the run nor are they accepted
        stale = " stale" if os.path.exists(t.tmp_file("x")) else ""
        with open(t.tmp_file("x"), "w") as f:
            f.write("x")
        with open(os.path.join(t.tmp_dir("d"), "y"), "w") as f:
            f.write("y")
    text = stale + s["text"] + ("(" + ",".join(str(a) for a in args) + ")" if args else "")
    if s.get("mut"):
        # changes what it received
        for a in args:
            if isinstance(a, list):
                a.append("m")
    mode = s["mode"]
    if mode == "unfinished":
        t.t(text).fail()
    else:
        t.tln(text)
    if mode == "fail":
        t.fail()
    elif mode == "assert":
        t.assertln(False, "bad")
    elif mode == "raise":
        # also what no file can hold must not get in the way of the failure
        raise ValueError("boom \udc80" if s["text"] == "v2" else "boom")
    elif mode == "exit":
        sys.exit(0)
    elif mode == "kbd":
        raise KeyboardInterrupt()
    elif mode == "base":
        raise Oops("oops")
    elif mode == "odd":
        raise Odd()
    elif mode == "genexit":
        raise GeneratorExit()
    elif mode == "cancel":
        raise asyncio.CancelledError()
    elif mode == "unp":
        return lambda: 1
    elif mode == "die":
        os._exit(3)
    return FALSY.get(s["ret"], s["ret"] or None)


def setup():
    """a process setup, which breaks down in its n-th uses"""
    path, breaks = HOOKS["setup"]
    fd = os.open(path, os.O_WRONLY | os.O_APPEND)
    os.write(fd, b"x")
    n = os.lseek(fd, 0, os.SEEK_CUR)
    os.close(fd)
    if n in breaks["before"]:
        raise Oops("setup") if breaks.get("base") else ValueError("setup")
    yield
    if n in breaks["after"]:
        raise ValueError("teardown")


def build(suite, module="btv_suite"):
    """suite: {"cases": [{name, fn, inst, deps, res, async}]} in listing order -> bt.Tests"""
    import booktest as bt
    mod = types.ModuleType(module)
    mod.__file__ = module + ".py"
    sys.modules[module] = mod
    byfn = {}
    classes = {}

    def place(f, attr):
        f.__module__ = module
        f.__qualname__ = f.__name__ = attr
        setattr(mod, attr, f)

    def dep_args(c):
        rv = []
        for d in c["deps"]:
            if d.startswith("=port "):
                rv.append(bt.port(int(d[6:])))
            elif d.startswith("="):
                rv.append(bt.Resource(d[1:], "id of " + d[1:].rstrip("'")))
            else:
                rv.append(byfn[d])
        return rv

    def make_fn(c):
        if c.get("async"):
            async def f(t, *args, name=c["name"]):
                return perform(name, t, args)
        else:
            def f(t, *args, name=c["name"]):
                return perform(name, t, args)
        d = dep_args(c)
        if d:
            f = bt.depends_on(*d)(f)
        return f

    def make_method(c):
        if c.get("async"):
            async def m(self, t, *args):
                return perform(self.prefix + "/" + mname, t, args)
        else:
            def m(self, t, *args):
                return perform(self.prefix + "/" + mname, t, args)
        mname = c["name"].rsplit("/", 1)[1]
        d = dep_args(c)
        if d:
            m = bt.depends_on(*d)(m)
        return m

    # functions may depend on anything defined earlier: define in dependency order
    order = []
    seen = set()
    first = {}
    for c in suite["cases"]:
        first.setdefault(c["fn"], c)

    def visit(fn):
        if fn in seen:
            return
        seen.add(fn)
        for d in first[fn]["deps"]:
            if not d.startswith("="):
                visit(d)
        order.append(fn)
    for c in suite["cases"]:
        visit(c["fn"])

    methods = {}
    for fn in order:
        c = first[fn]
        if c["inst"] == "":
            byfn[fn] = make_fn(c)
            place(byfn[fn], "fn_" + fn.replace("/", "_"))
        else:
            m = make_method(c)
            byfn[fn] = m
            methods.setdefault(c["cls"], []).append((c["name"].rsplit("/", 1)[1], m))
    for cls, ms in methods.items():
        def body(ns, ms=ms, cls=cls):
            ns["__module__"] = module

            def init(self, path):
                self.prefix = path
                bt.TestBook.__init__(self, path)
            ns["__init__"] = init
            for n, m in ms:
                f = getattr(m, "_original_function", m)
                for x in (m, f):
                    x.__name__ = "test_" + n
                    x.__qualname__ = cls + ".test_" + n
                    x.__module__ = module
                ns["test_" + n] = m
        k = types.new_class(cls, (bt.TestBook,), {}, body)
        k.__qualname__ = cls
        classes[cls] = k
        setattr(mod, cls, k)
    # tests that cannot be sent to a worker, or not be received there
    for c in suite["cases"]:
        if c.get("form"):
            f = getattr(byfn[c["fn"]], "_original_function", byfn[c["fn"]])
            for x in {byfn[c["fn"]], f}:
                x.__name__ = "wrapper" if c["form"] == "unloadable" else "<lambda>"
                x.__qualname__ = c.get("cls", "") + ".wrapper" if c["form"] == "unloadable" else "<lambda>"
    instances = {}
    cases = []
    for c in suite["cases"]:
        if c["inst"] == "":
            cases.append([c["name"], byfn[c["fn"]]])
        else:
            if c["inst"] not in instances:
                instances[c["inst"]] = classes[c["cls"]](c["inst"])
            for n, m in instances[c["inst"]].cases:
                if n == c["name"]:
                    cases.append([n, m])
    return bt.Tests(cases)


def spec_suite(suite):
    cs = suite["cases"]
    return {"names": [c["name"] for c in cs], "fn": {c["name"]: c["fn"] for c in cs},
            "inst": {c["name"]: c["inst"] for c in cs}, "deps": {c["name"]: c["deps"] for c in cs}}


# ---------------------------------------------------------------- the world on disk

def read(p):
    try:
        with open(p, "rb") as f:
            return f.read().decode("utf-8", "replace")
    except (FileNotFoundError, IsADirectoryError, NotADirectoryError):
        return None


def exact(p):
    s = read(p)
    if s is None:
        return ""
    if s.endswith("\n") and s.count("\n") == 1 and s != "\n":
        return s[:-1]
    if s == "":
        return "?"
    return "?" + s


def firstline(p):
    s = read(p)
    if s is None:
        return ""
    return s.split("\n")[0] or "<empty>"


def attachments(base, n, names=()):
    """the files below a case's directory, except those of cases whose names continue its name"""
    d = os.path.join(base, n)
    if not os.path.isdir(d):
        return ""
    rv = []
    nested = [o[len(n) + 1:] for o in names if o.startswith(n + "/")]
    for root, dirs, files in os.walk(d):
        for f in files:
            p = os.path.relpath(os.path.join(root, f), d)
            if not any(p.startswith((o + "/", o + ".tmp/")) or p.rsplit(".", 1)[0] == o for o in nested):
                v = read(os.path.join(root, f)) or ""
                rv.append(p + "=" + ("B" + v.lstrip("=") if len(v) > 100000 else v))
    return ",".join(sorted(rv))


def stored(p):
    if not os.path.exists(p):
        return ""
    try:
        with open(p, "rb") as f:
            v = pickle.load(f)
        return v if isinstance(v, str) else "None" if v is None else repr(v)
    except Exception:
        return "~broken"


def record(out):
    rec = []
    for l in (read(out + "/cases.txt") or "").split("\n"):
        p = l.split("\t")
        if len(p) == 3 and p[1] in ("OK", "DIFF", "FAIL"):
            try:
                float(p[2])
            except ValueError:
                continue
            rec.append([p[0], p[1]])
    return rec


def index_names(text):
    """the case names an index lists, each from its headings and its link"""
    heads, rv = [], []
    for l in text.split("\n"):
        m = re.match(r"^((?:    )*) \* (.*)$", l)
        if not m:
            continue
        depth = len(m.group(1)) // 4
        k = re.match(r"^\[(.*)\]\((.*)\)$", m.group(2))
        if len(heads) < depth:
            rv.append(("orphan", l))
            continue
        heads = heads[:depth]
        if k:
            rv.append(("/".join(heads + [k.group(1)]), k.group(2)))
        else:
            heads.append(m.group(2))
    return rv


def index_state(books, names):
    s = read(books + "/index.md")
    if s is None:
        return ""
    got = index_names(s)
    return "full" if sorted(got) == sorted((n, n + ".md") for n in names) else "other: " + s


def metrics(out):
    try:
        return isinstance(json.loads(read(out + "/metrics.json") or "")["tookMs"], int)
    except Exception:
        return False


def world(names, listed=None):
    books = BOOKS[1]
    out = books + "/.out"
    return {"exp": {n: exact(f"{books}/{n}.md") for n in names},
            "expAtt": {n: attachments(books, n, names) for n in names},
            "out": {n: firstline(f"{out}/{n}.md") for n in names},
            "outAtt": {n: attachments(out, n, names) for n in names},
            "bin": {n: stored(f"{out}/{n}.bin") for n in names},
            "rec": record(out), "dot": os.path.isdir(out), "met": metrics(out),
            "idx": index_state(books, listed or names)}


def stray(names):
    """files in the books directory that are no snapshot of a case"""
    books = BOOKS[1]
    rv = []
    for root, dirs, files in os.walk(books):
        if os.path.basename(root) == ".out":
            dirs[:] = []
            continue
        if ".out" in dirs:
            dirs.remove(".out")
        for f in files:
            p = os.path.relpath(os.path.join(root, f), books)
            if p == "index.md" or p in [n + ".md" for n in names] or any(p.startswith(n + "/") for n in names):
                continue
            rv.append(p)
    return sorted(rv)


# ---------------------------------------------------------------- invocations

class Answers(io.StringIO):
    """stdin that shows the end of a typed line on the captured output"""
    def readline(self, *a):
        x = super().readline(*a)
        sys.stdout.write("\n")
        return x


def summary(stdout):
    rv = {"n": -1, "failed": []}
    ms = list(re.finditer(r"^(\d+)/(\d+) test (failed|succeeded) in \d+ ms", stdout, re.M))
    if not ms:
        return rv
    m = ms[-1]
    rest = stdout[m.end():].split("\n")[1:]
    names = []
    if m.group(3) == "failed":
        for l in rest:
            if l.startswith("  ") and l.strip():
                names.append(l.strip())
            elif names:
                break
        ok = int(m.group(1)) == len(names) and names
    else:
        ok = m.group(1) == m.group(2)
    return {"n": int(m.group(2)) if ok else -1, "failed": names}


def shown(stdout):
    rv = []
    for n in re.findall(r"^(?:  |test )(\S.*?)\.\.", stdout, re.M):
        if rv[-1:] != [n]:
            rv.append(n)
    return rv


def reported(stdout):
    """the cases that a result was printed for"""
    return sorted(set(re.findall(r"^  (\S.*?)\.\.(?:\d+ ms|DIFFERED|FAILED)", stdout, re.M)))


def flags_of(inv):
    rv = [f"-{k}" for k in "cfauiIrv" if inv.get(k)]
    if inv.get("L"):
        rv.append("-L")
    if inv.get("p"):
        rv.append("-p" if inv["p"] == 99 else f"-p{inv['p']}")
    if inv["cmd"] == "review":
        rv.append(inv.get("via") or "-w")
    elif inv["cmd"] == "forget":
        rv.append("--forget")
    elif inv["cmd"] == "list":
        rv.append(inv.get("via") or "-l")
    return rv + inv["args"]


def fork_context():
    """makes worker processes by forking, so that they share the suites of this process"""
    from multiprocessing import context
    for method in ("spawn", "forkserver"):
        context._concrete_contexts[method] = context._concrete_contexts["fork"]


def invoke(tests, inv, cache, books="books", setup=None):
    so, si = sys.stdout, sys.stdin
    sys.stdout, sys.stdin = io.StringIO(), Answers("".join(a + "\n" for a in inv["ans"]))
    error = ""
    try:
        try:
            if setup or inv.get("extra"):
                import argparse
                p = argparse.ArgumentParser()
                tests.setup_parser(p)
                rc = tests.exec_parsed(books, p.parse_args(flags_of(inv)), cache, dict(inv.get("extra") or []), setup)
            else:
                rc = tests.exec(books, flags_of(inv), cache)
            rc = "0" if rc is None or rc == 0 else "1"
        except BaseException as e:
            import traceback
            rc, error = "exc", traceback.format_exc()[-1500:]
    finally:
        text = sys.stdout.getvalue()
        sys.stdout, sys.stdin = so, si
    return rc, text, error


class Killer:
    """ends the process right before its n-th change of the books directory"""
    def __init__(self, n, root):
        self.n, self.root = n, root
        self.count = 0

    def __call__(self, event, args):
        if event == "open":
            p, mode, flags = args
            if not isinstance(p, str) or not (flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)):
                return
        elif event in ("os.rename", "os.remove", "os.mkdir", "os.rmdir"):
            p = args[0]
        else:
            return
        if isinstance(p, bytes):
            p = p.decode()
        if not isinstance(p, str) or "books" not in os.path.abspath(p) + self.root[:0]:
            return
        self.count += 1
        if self.count == self.n:
            os._exit(137)
