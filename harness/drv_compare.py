"""Executes test programs (lists of test-stream calls) with the real booktest code."""
import builtins, io, os, sys, time


class Clock:
    """a clock that only test code advances: measured times become exact"""
    def __init__(self):
        self.now = 1000000.0

    def install(self):
        get = lambda: self.now
        for n in ("time", "perf_counter", "monotonic"):
            setattr(time, n, get)
        for n in ("time_ns", "perf_counter_ns", "monotonic_ns"):
            setattr(time, n, lambda: int(self.now * 1e9))


def call(t, op, clock):
    o = op["op"]
    if o == "t":
        t.t(op["x"])
    elif o == "tln":
        if op["x"] == "" and op.get("noarg"):
            t.tln()
        else:
            t.tln(op["x"])
    elif o == "i":
        t.i(op["x"])
    elif o == "iln":
        t.iln(op["x"])
    elif o == "h":
        if op["level"] <= 3 and op.get("short"):
            getattr(t, f"h{op['level']}")(op["x"])
        else:
            t.h(op["level"], op["x"])
    elif o == "header":
        t.header(op["x"])
    elif o == "anchor":
        t.anchor(op["x"])
    elif o == "anchorln":
        t.anchorln(op["x"])
    elif o == "kv":
        t.keyvalueln(op["x"], op["v"])
    elif o == "tset":
        items = op["items"]
        if op.get("kind") == "tuple":
            items = tuple(items)
        elif op.get("kind") == "gen":
            items = iter(items)
        if op["prefix"] == " * ":
            t.tset(items)
        else:
            t.tset(items, op["prefix"])
    elif o == "tlist":
        if op["prefix"] == " * ":
            t.tlist(op["items"])
        else:
            t.tlist(op["items"], op["prefix"])
    elif o == "tdf":
        if op.get("via") == "ttable":
            t.ttable({c["name"]: c["cells"] for c in op["cols"]})
        else:
            import pandas as pd
            t.tdf(pd.DataFrame({c["name"]: c["cells"] for c in op["cols"]}))
    elif o == "assertln":
        if op["msg"]:
            t.assertln(op["cond"], op["msg"])
        else:
            t.assertln(op["cond"])
    elif o == "it":
        it = t.it(op["x"], op["obj"])
        for m in op["musts"]:
            k = m["kind"]
            if k == "equal":
                it.must_equal(m["arg"])
            elif k == "contain":
                it.must_contain(m["arg"])
            elif k == "be_a":
                it.must_be_a({"NoneType": type(None), **vars(builtins)}[m["arg"]])
            else:
                it.must_apply(m["arg"], lambda x, c=m["cond"]: c)
        if op.get("sub"):
            it.member(op["sub"]["title"], lambda x: x[0]).must_equal(op["sub"]["arg"])
    elif o == "image":
        file = t.file(op["file"])
        if op["shared"]:
            file = os.path.join(os.path.dirname(file), "..", "shared", op["file"])
        if op["alt"] is None:
            t.timage(file)
        else:
            t.timage(file, op["alt"])
    elif o == "fail":
        t.fail()
    elif o == "diff":
        t.diff()
    elif o == "ifloat":
        if op["unit"] is None:
            t.ifloatln(op["value"])
        else:
            t.ifloatln(op["value"], op["unit"])
    elif o == "tms":
        def f():
            clock.now += op["took"]
            return 42
        if op["max"] is None:
            assert t.imsln(f) == 42
        else:
            assert t.tmsln(f, op["max"]) == 42
    elif o == "tformat":
        t.tformat(op["value"])
    elif o == "raise":
        if op["kind"] == "exit":
            sys.exit(op["x"])
        raise {"value": ValueError, "key": RuntimeError}[op["kind"]](op["x"])
    else:
        raise Exception("unknown op " + o)


def read_text(path):
    try:
        with open(path, "rb") as f:
            return f.read().decode("utf-8")
    except FileNotFoundError:
        return None


def lines_of(text):
    """lines of a text in which every line must end with a newline"""
    if text is None:
        return ["<missing>"]
    ls = text.split("\n")
    if ls[-1] != "":
        ls[-1] = ls[-1] + "<no newline>"
        return ls
    return ls[:-1]


def parse_report(rep, out):
    """marks per line, and the report lines projected to the output lines they show"""
    marks, shown, beside = [], [], []
    ls = lines_of(rep)
    for k, l in enumerate(ls):
        marks.append(l[:1])
        body = l[2:]
        o = out[k] if k < len(out) else None
        side = body[len(o):].lstrip(" ") if o is not None and l[:1] != " " else ""
        beside.append(side[2:] if side[:2] == "| " else side)
        if o is not None and l[1:2] == " ":
            if l[:1] == " ":
                shown.append(o if body == o else "<report> " + l)
            else:
                shown.append(o if body.startswith(o) and body[len(o):].lstrip(" ").startswith("|")
                             else "<report> " + l)
        else:
            shown.append("<extra> " + l)
    return marks, shown, beside


def run_batch(arg):
    import booktest as bt
    clock = Clock()
    names = []
    tests = []
    opsof = {}
    for c in arg["cases"]:
        name = "test/" + c["id"]
        names.append(name)
        opsof[name] = c["ops"]

        def case(t, ops=c["ops"]):
            for op in ops:
                call(t, op, clock)
        tests.append((name, case))
        if c["snap"] is not None:
            os.makedirs("books/test", exist_ok=True)
            with open(f"books/{name}.md", "w", newline="") as f:
                f.write(c["snap"])
    clock.install()
    flags = arg.get("flags", [])
    so = sys.stdout
    sys.stdout = io.StringIO()
    error = None
    try:
        rc = bt.Tests(tests).exec("books", list(flags))
    except BaseException as e:
        import traceback
        rc, error = None, traceback.format_exc()[-1500:]
    stdout = sys.stdout.getvalue()
    sys.stdout = so
    rec = {}
    for l in (read_text("books/.out/cases.txt") or "").split("\n"):
        p = l.split("\t")
        if len(p) == 3:
            rec[p[0]] = p[1]
    rv = []
    for name in names:
        r = {"rc": rc, "error": error}
        if name not in rec:
            r["status"] = "missing"
        else:
            r["status"] = "done"
            r["res"] = rec[name]
            out = read_text(f"books/.out/{name}.md")
            rep = read_text(f"books/.out/{name}.txt")
            r["text"] = out
            r["out"] = lines_of(out)
            r["mark"], r["rep"], r["side"] = parse_report(rep, r["out"])
        rv.append(r)
    return rv
