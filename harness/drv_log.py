"""Runs tests that write to stderr and to logging, and records where it went."""
import io, json, os, re, sys
from . import suites as s
from .drv_proj import write
from .sandbox import in_child

HELPER = r'''import asyncio, contextlib, io, json, logging, os, sys, threading, warnings
OWN = None
LEVEL = 0
LEVELS = {"warning": logging.WARNING, "info": logging.INFO, "debug": logging.DEBUG}
HANDLERS = []
def event(**x):
    fd = os.open(os.environ["BTV_JOURNAL"], os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    os.write(fd, (json.dumps(dict(x, pid=os.getpid())) + "\n").encode())
    os.close(fd)
def point():
    hs = logging.getLogger().handlers
    event(e="point", x="", err="own" if sys.stderr is OWN else "other",
          log="own" if len(hs) == len(HANDLERS) and all(a is b for a, b in zip(hs, HANDLERS)) else "other")
def say(kind, x, a=""):
    t = "<<" + x + ">>"
    if LEVELS.get(kind, logging.ERROR) >= LEVEL:
        # what the process' level lets pass
        event(e="w", x=x.encode("utf-8", "backslashreplace").decode("utf-8"))
    if kind == "err":
        print(t, file=sys.stderr)
    elif kind == "raw":
        sys.stderr.write(t)
    elif kind == "log":
        logging.getLogger(a).error(t)
    elif kind == "warning":
        logging.getLogger(a).warning("%s", t)
    elif kind in ("info", "debug"):
        logging.getLogger(a).log(LEVELS[kind], t)
    elif kind == "exc":
        try:
            raise ValueError("inner")
        except ValueError:
            logging.getLogger(a).exception(t)
    elif kind == "warn":
        warnings.warn(t)
    elif kind == "thread":
        h = threading.Thread(target=lambda: print(t, file=sys.stderr))
        h.start()
        h.join()
    elif kind == "threadlog":
        h = threading.Thread(target=lambda: logging.error(t))
        h.start()
        h.join()
def outside(tag):
    point()
    k = int(os.environ.get("BTV_OUTSIDE", "0"))
    if k & 1:
        say("err", f"{tag}.{os.getpid()}.e")
    if k & 2:
        say("log", f"{tag}.{os.getpid()}.l", "out.side")
def ops(t, me):
    inv = os.environ["BTV_INV"]
    for n, o in enumerate(json.loads(os.environ["BTV_PROGS"])[me]):
        k = o[0]
        x = f"{inv}.{me}.{n}"
        if k in ("err", "raw", "log", "warning", "exc", "warn", "thread", "threadlog", "info", "debug"):
            say(k, x + o[2], o[1])
        elif k == "redirect":
            with contextlib.redirect_stderr(io.StringIO()):
                print("not here", file=sys.stderr)
        elif k == "keep":
            sys.stderr = io.StringIO()
        elif k == "handler":
            logging.getLogger().addHandler(logging.NullHandler())
        elif k == "clear":
            logging.getLogger().handlers.clear()
        elif k == "basic":
            logging.basicConfig(force=True)
        elif k == "close":
            sys.stderr.flush()
        elif k == "t":
            t.tln(o[1])
        elif k == "i":
            t.iln(o[1])
        elif k == "h":
            t.h1(o[1])
        elif k == "fail":
            t.fail()
        elif k == "assert":
            t.t("check ").assertln(False)
        elif k == "raise":
            raise ValueError(o[1])
        elif k == "exit":
            sys.exit(int(o[1]))
        elif k == "kbd":
            raise KeyboardInterrupt()
        elif k == "lambda":
            return lambda: 0
        yield
    return None
def drive(t, me):
    event(e="in", x=me)
    how = "kbd"
    try:
        g = ops(t, me)
        while True:
            try:
                next(g)
            except StopIteration as e:
                how = "end"
                return e.value
    except Exception:
        how = "raise"
        raise
    except SystemExit:
        how = "exit"
        raise
    finally:
        event(e="out", x=me, how=how)
async def adrive(t, me):
    event(e="in", x=me)
    how = "kbd"
    try:
        g = ops(t, me)
        while True:
            try:
                next(g)
            except StopIteration as e:
                how = "end"
                return e.value
            await asyncio.sleep(0)
    except Exception:
        how = "raise"
        raise
    except SystemExit:
        how = "exit"
        raise
    finally:
        event(e="out", x=me, how=how)
'''

SETUP = '''import btv_log
def process_setup_teardown():
    btv_log.outside("setup")
    yield
    btv_log.outside("teardown")
'''


class Answers(s.Answers):
    """the user answers between tests"""
    def readline(self, *a):
        import btv_log
        self.n = getattr(self, "n", 0) + 1
        btv_log.outside(f"ask{self.n}")
        return super().readline(*a)


def invoke(step, jpath, a):
    import logging
    import btv_log
    os.environ.update({"BTV_JOURNAL": jpath, "BTV_PROGS": json.dumps(step["progs"]), "BTV_INV": str(step["inv"]),
                       "BTV_OUTSIDE": str(step["outside"])})
    so, si, se = sys.stdout, sys.stdin, sys.stderr
    root = logging.getLogger()
    level, handlers = root.level, root.handlers
    own = io.StringIO()
    sys.stdout, sys.stdin, sys.stderr = io.StringIO(), Answers("".join(x + "\n" for x in step["answers"])), own
    hs = []
    for f in a["handlers"]:
        h = logging.StreamHandler(own)
        if f:
            h.setFormatter(logging.Formatter(f))
        hs.append(h)
    root.handlers = list(hs)
    root.setLevel(a["level"])
    # one message goes to every handler; the stream is read once for each
    btv_log.OWN, btv_log.HANDLERS, btv_log.LEVEL = own, hs, root.level
    error = ""
    try:
        from booktest.cli import main
        try:
            rc = main(step["args"])
            rc = "0" if rc is None or rc == 0 else "1"
        except SystemExit as e:
            rc = "usage" if e.code == 2 else "exit"
        except BaseException:
            import traceback
            rc, error = "exc", traceback.format_exc()[-1500:]
        btv_log.outside("after")
        return rc, sys.stdout.getvalue(), own.getvalue(), error
    finally:
        sys.stdout, sys.stdin, sys.stderr = so, si, se
        root.handlers = handlers
        root.setLevel(level)


TOKEN = re.compile(r"<<(.*?)>>", re.S)


def steps_of(seg, opath, a):
    jpath = os.path.abspath("../journal")
    os.environ["HOME"] = os.path.abspath("../home")
    s.fork_context()
    sys.path.insert(0, os.getcwd())
    for step in seg["steps"]:
        if os.path.exists(jpath):
            os.remove(jpath)
        for o in step.get("edit", []):
            os.makedirs(os.path.dirname(o[0]), exist_ok=True)
            with open(o[0], "wb") as f:
                f.write(o[1].encode("latin-1"))
        rc, text, own, error = invoke(step, jpath, a)
        events = [json.loads(l) for l in open(jpath)] if os.path.exists(jpath) else []
        logs = {}
        for c in a["cases"]:
            t = s.read(f"books/.out/{c['name']}.log")
            if t is not None:
                logs[c["id"]] = TOKEN.findall(t)
        once = []
        for x in TOKEN.findall(own):
            if not (once and once[-1] == x):
                once.append(x)
        o = {"status": "done", "rc": rc, "error": error, "main": os.getpid(), "stdout": text[-1500:],
             "events": [e for e in events if e["e"] != "point"],
             "points": [[e["err"], e["log"]] for e in events if e["e"] == "point"],
             "logs": logs, "own": once, "printed": [re.sub(r"\n +(log: )?", "\n", x) for x in TOKEN.findall(text)]}
        with open(opath, "a") as f:
            f.write(json.dumps(o) + "\n")
    return True


def run_logs(a):
    """a: {cases: [{id, name, fn, async}], setup, handlers, level, segments}"""
    os.makedirs("project/test")
    os.makedirs("home")
    os.chdir("project")
    write("btv_log.py", HELPER)
    write("test/__init__.py", "")
    for m in sorted({c["module"] for c in a["cases"]}):
        ls = ["import booktest as bt", "import btv_log"]
        for c in a["cases"]:
            if c["module"] == m:
                if c["async"]:
                    ls += [f"async def test_{c['fn']}(t):", f"    return await btv_log.adrive(t, {c['id']!r})"]
                else:
                    ls += [f"def test_{c['fn']}(t):", f"    return btv_log.drive(t, {c['id']!r})"]
        write(f"test/{m}_test.py", "\n".join(ls) + "\n")
    if a["setup"]:
        write("test/__booktest__.py", SETUP)
    rv = []
    for seg in a["segments"]:
        opath = os.path.abspath("../obs")
        open(opath, "w").close()
        r = in_child(lambda: steps_of(seg, opath, a), a.get("timeout", 60))
        rv.append([json.loads(l) for l in open(opath)])
        if r["status"] != "done":
            rv[-1].append({"status": r["status"], "error": r.get("error", "")[-2000:]})
            break
    return rv
