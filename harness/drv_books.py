"""Replays histories of the specifications BooksMC and ConfigMC on booktest."""
import contextlib, io, os, shutil
from . import suites as s
from .sandbox import in_child

SELS = [["*"], ["test/first"], ["test/first/m1"]]
ALL = ["test/first/m1", "test/first/m1x", "test/second/m2"]


def body(n):
    def f(t):
        t.tln("case " + n)
    return f


def command(defined, args):
    import booktest as bt
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
        rc = bt.Tests([[n, body(n)] for n in ALL if n in defined]).exec("books", args, {})
    return rc, out.getvalue()


def files():
    rv = []
    for root, dirs, fs in os.walk("books"):
        rv += [os.path.relpath(os.path.join(root, f), "books") for f in fs]
    return sorted(f for f in rv if not f.startswith(".out/"))


def books(jobs):
    """jobs: histories [[action, argument]]: the files at the end, and what --garbage says before each clean"""
    rv = []
    s.fork_context()
    for n, h in enumerate(jobs):
        os.mkdir(f"h{n}")
        os.chdir(f"h{n}")
        os.mkdir("books")
        defined = set(ALL)
        listed, error = [], ""
        try:
            for a, x in h:
                if a == "add":
                    defined.add(x)
                elif a == "remove":
                    defined.discard(x)
                elif a == "junk":
                    p = os.path.join("books", x)
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    with open(p, "w") as f:
                        f.write("junk")
                elif a in ("accept", "try"):
                    command(defined, SELS[int(x) - 1] + (["-a"] if a == "accept" else []))
                elif a == "clean":
                    text = command(defined, ["--garbage"])[1]
                    listed.append(sorted(os.path.relpath(l, "books") for l in text.split("\n") if l.strip()
                                         and not l.startswith(os.path.join("books", ".out") + "/")))
                    command(defined, ["--clean"])
        except BaseException as e:
            error = f"{type(e).__name__}: {e}"
        rv.append({"files": files(), "listed": listed, "error": error})
        os.chdir("..")
        shutil.rmtree(f"h{n}")
    return rv


def layers(jobs):
    """jobs: {home, proj, env, asked}: the settings shown by every invocation, all in one process"""
    def one(a, n):
        os.mkdir(f"c{n}")
        os.chdir(f"c{n}")
        for p, ls in (("home/.booktest", a["home"]), ("project/.booktest", a["proj"])):
            os.mkdir(os.path.dirname(p))
            with open(p, "w") as f:
                f.write("".join(l + "\n" for l in ls))
        os.environ.update(dict(a["env"]), HOME=os.path.abspath("home"))
        os.chdir("project")
        from booktest.cli import main
        rv = []
        for o in a["asked"]:
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                main(["--config"] + [w for k, v in o for w in (["-v"] if k == "verbose" else ["-md-viewer", v])])
            rv.append(sorted(l.split("=", 1) for l in out.getvalue().split("\n") if l))
        return rv
    rv = []
    for n, a in enumerate(jobs):
        x = in_child(lambda: one(a, n), 30)
        rv.append(x.get("value") if x["status"] == "done" else str(x)[-500:])
        shutil.rmtree(f"c{n}", ignore_errors=True)
    return rv
