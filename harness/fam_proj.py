"""C25, C26, C27, C30, C31: projects and their command line.  Spec: Config.tla, Project.tla, ProjectTrace.tla, ProjectMC.tla."""
import json, os, random
from . import tlc, sandbox
from .common import known_findings

CLAUSES = {
    "C25": {"garbage", "not-cleaned", "kept-deleted", "kept-changed", "effect", "outside"},
    "C26": {"config", "found", "executed", "placed", "result", "status", "effect"},
    "C27": {"found", "twice", "order", "order-unstable", "executed", "identity", "index"},
    "C30": {"not-set-up", "not-torn-down", "wrong-setup", "bracket-nested", "executed", "result"},
    "C31": {"outside", "effect", "found", "executed", "placed", "result", "status", "index", "garbage", "not-cleaned",
            "kept-deleted", "kept-changed"},
}
LIVE = {"crash", "hang", "broke-down"}

DIRS = ["test", "test", "test", "test/sub", "test/sub/deep", "test/my-dir", "test/sub_test", "book", "book/x", "run", "run/y",
        "alt", "tests", "alt/test", "test/testbook"]
FILES = ["foo_test.py", "foo_book.py", "foo_suite.py", "test_foo.py", "foo_bar_test.py", "fooBar_book.py", "test_a_test.py",
         "Upper_test.py", "my_notebook_test.py", "test_notebook.py", "a_test_book.py", "contest_test.py", "x_testbook_book.py",
         "test_.py", "z9_test.py", "atest_test.py", "bookbook_test.py"]
OTHERS = ["foo_tests.py", "footest.py", "testing.py", "foo_test.txt", "foo_book.py.bak", "Test_foo.py", "foo_Test.py", "books.py",
          "helper.py", "atest_foo.py", "foo_suites.py", "foo_book.pyx", "suite.py"]
CLASSES = ["FooBook", "FooTestBook", "FooTest", "fooBook", "HTTPBook", "MyHTTPTest", "Foo_Book", "ABCTest", "X", "Book2", "TestFoo",
           "Foo2BarBook", "FooBar", "FOO", "foo", "Foo", "NoteBook", "AtestBook", "Foo_BarTest", "TestA", "FooBarBook"]
METHODS = ["test_{}", "test_{}", "test_{}", "test_{}", "test_B{}", "test_{}_a", "test_test_{}", "test_{}_test", "test_a{}_B"]
NOISE = ["class Plain:\n    def test_no(self, t):\n        _n.test(t, 'noise')", "def helper(t):\n    _n.test(t, 'noise')",
         "test_const = 5", "def testing(t):\n    _n.test(t, 'noise')", "class test_cls:\n    pass", "import os as test_os",
         "from booktest import TestBook", "def Test_upper(t):\n    _n.test(t, 'noise')", "def my_test_x(t):\n    _n.test(t, 'noise')",
         "if False:\n    def test_hidden(t):\n        _n.test(t, 'noise')", "tests = []", "def _test_x(t):\n    _n.test(t, 'noise')",
         "test_partial = ''.join"]
MODES = ["ok", "ok", "ok", "fail", "raise", "exit"]


class Gen:
    def __init__(self, r, prop):
        self.r, self.prop, self.n = r, prop, 0

    def leaf(self):
        self.n += 1
        return self.r.choice(METHODS).format(f"m{self.n}"), f"i{self.n}"

    def klass(self, members, spec, d, f):
        r = self.r
        used = {m["name"].lower().replace("_", "") for m in members if m["k"] == "class"}
        name = r.choice(CLASSES)
        if name.lower().replace("_", "") in used:
            return
        c = {"k": "class", "name": name, "methods": [], "path": "", "part": "", "ctor": r.choice(["", "", "", "option", "need"])}
        for _ in range(r.choice([1, 2, 3, 4])):
            n, i = self.leaf()
            c["methods"].append([n, i] if r.random() < 0.85 else ["helper_" + i, i])
        if not c["ctor"] and r.random() < 0.3:
            if r.random() < 0.5:
                c["path"] = f"{r.choice(['test', 'book', 'other'])}/p{self.n}"
            else:
                c["part"] = f"part{self.n}"
        members.append(c)
        ms = [{"n": n, "id": i} for n, i in c["methods"]]
        if c["ctor"] != "need":
            spec.append({"k": "cls", "name": name, "cname": name, "home": [d, f], "path": c["path"], "part": c["part"], "methods": ms})
        if c["ctor"] and r.random() < 0.8:
            for _ in range(r.choice([1, 2])):
                self.n += 1
                p = f"{r.choice(['test', 'book', 'test/inst'])}/q{self.n}"
                members.append({"k": "instance", "name": f"v{self.n}", "cls": name, "path": p})
                spec.append({"k": "inst", "name": f"v{self.n}", "cname": name, "home": [d, f], "path": p, "part": "", "methods": ms})

    def file(self, d, f, others):
        r = self.r
        members, spec = [], []
        for _ in range(r.choice([1, 1, 2, 3, 4])):
            q = r.random()
            if q < 0.45:
                n, i = self.leaf()
                members.append({"k": "fn", "name": n, "id": i, "async": r.random() < 0.2, "deco": r.random() < 0.1})
                if not members[-1]["deco"] and r.random() < 0.2:
                    members[-1]["form"] = r.choice(["closure", "lambda"])
                spec.append({"k": "fn", "name": n, "id": i})
                if r.random() < 0.1:
                    a = f"test_alias{self.n}"
                    members.append({"k": "alias", "name": a, "of": n})
                    spec.append({"k": "fn", "name": a, "id": i})
            elif q < 0.7:
                self.klass(members, spec, d, f)
            elif q < 0.8:
                self.n += 1
                cs = []
                for _ in range(r.choice([1, 2, 3])):
                    n, i = self.leaf()
                    cs.append([n[5:], i])
                kind = r.choice(["TestSuite", "Tests", "merge", "drop", "lists", "decorate"])
                name, p = f"s{self.n}", f"{r.choice(['test', 'book', 'other'])}/u{self.n}"
                if kind == "drop":
                    cs = [[(p + "/" if r.random() < 0.7 else p + "x/") + n, i] for n, i in cs]
                    members.append({"k": "drop", "name": name, "path": p, "cases": cs})
                    spec.append({"k": "drop", "path": p, "cases": [{"n": n, "id": i} for n, i in cs]})
                else:
                    if kind == "Tests":
                        cs = [[p + "/" + n, i] for n, i in cs]
                    members.append({"k": "suite", "name": name, "path": p, "via": kind, "cases": cs})
                    spec.append({"k": "suite", "path": "" if kind == "Tests" else p, "cases": [{"n": n, "id": i} for n, i in cs]})
            elif q < 0.88 and [x for x in others if "-" not in x["dir"]]:
                o = r.choice([x for x in others if "-" not in x["dir"]])
                what = [m for m in o["members"] if m["k"] == "fn" or (m["k"] == "class" and m["ctor"] != "need")]
                if what:
                    m = r.choice(what)
                    name = m["name"] if m["k"] == "class" or r.random() < 0.6 else f"test_im{self.n}_{r.randrange(99)}"
                    if all(x.get("name") != name for x in members):
                        mod = o["dir"].replace("/", ".") + "." + o["file"][:-3]
                        members.append({"k": "import", "module": mod, "what": m["name"], "name": name})
                        if m["k"] == "fn":
                            spec.append({"k": "fn", "name": name, "id": m["id"]})
                        else:
                            spec += [dict(x) for x in o["spec"] if x["k"] == "cls" and x["name"] == m["name"]]
            else:
                members.append({"k": "src", "src": r.choice(NOISE)})
        return {"dir": d, "file": f, "members": members, "spec": spec}

    def project(self, dirs=None, files=None):
        r = self.r
        fs, seen = [], set()
        for k in range(r.choice([2, 3, 4, 5])):
            d = "test" if k == 0 else r.choice(dirs or DIRS)
            f = r.choice(FILES) if r.random() < 0.8 else r.choice(OTHERS)
            if k == 0:
                f = "first_test.py"
            if (d, f.lower()) in seen or any(x[0] == d and stem(x[1]) == stem(f.lower()) for x in seen):
                continue
            seen.add((d, f.lower()))
            fs.append(self.file(d, f, [x for x in fs if x["file"].endswith(".py")]))
            if k == 0 and not any(s["k"] == "fn" for s in fs[0]["spec"]):
                n, i = self.leaf()
                fs[0]["members"].append({"k": "fn", "name": n, "id": i})
                fs[0]["spec"].append({"k": "fn", "name": n, "id": i})
        return fs


def stem(f):
    return f.replace("_test", "").replace("_book", "").replace("test", "").replace("book", "")


PLACES = [["books", "books"], ["books/", "books"], ["./books", "books"], ["a/../books", "books"], ["@CWD@/books", "books"],
          ["my books", "my books"], ["$(touch pwned)", "$(touch pwned)"], ["deep/er/books", "deep/er/books"], ["link", "real"],
          ["it's", "it's"], ["b;touch pwned", "b;touch pwned"], ["../sib ling", "../sib ling"], ["b\u00f6ks", "b\u00f6ks"],
          ["x=y", "x=y"], ["-b", "-b"], ["~", "~"], ["test/books", "test/books"]]
PLAIN = {"books": "books", "out_books": "out_books", "deep/books": "deep/books"}


def junk(r, b, names=()):
    """files that are no business of booktest, or look like its own"""
    rv = []
    for _ in range(r.choice([2, 4, 8])):
        d = r.choice(["", "test/", "test/first/", "test/foo/", "old/", "test/gone/", "book/", "x y/", ".out/", ".out/test/",
                      ".out/gone/", "test/sub/"])
        if r.random() < 0.3:
            # names that look like those of tests, but for their capitals
            d = r.choice([d.title(), d.upper(), d])
        f = r.choice(["a.md", "gone.md", "M1.md", "First/m1.md", "FIRST.md", "index.md", "x.txt", "img.png", ".hidden", "foo.md", "first.md", "m1.md", "m77", "m2.md.bak",
                      "m3.MD", "README", "gone/att.bin", "mm1.md", "m1x/att", "a b.md"])
        rv.append(["write", f"{b}/{d}{f}", "junk"])
    # names next to those of the cases
    for _ in range(r.choice([0, 1, 3, 6]) if names else 0):
        d, n = r.choice(names).rsplit("/", 1)
        f = r.choice([n.upper() + "/att", n.upper() + ".md", n.title() + "/att", n + "2/att", n[:-1] + "/att", n + ".mdx", n + ".MD",
                      n + "/att", n + "/deep/att", " " + n + "/att", n + " /att", "x" + n + ".md", n + "/" + n + ".md", n + "/index.md",
                      n + "/../" + n + "_/att", n + ".log", n + ".txt", n + ".md~", "index.md", n + "/.hidden"])
        rv.append(["write", os.path.normpath(f"{b}/{d if r.random() < .9 else d.upper()}/{f}"), "junk"])
    # neither two names of one file, nor a file where a directory is
    paths = {}
    for o in rv:
        if not any(o[1] == p or o[1].startswith(p + "/") or p.startswith(o[1] + "/") for p in paths):
            paths[o[1]] = o
    return list(paths.values())


def spec_files(fs):
    return [{"dir": f["dir"], "file": f["file"], "members": f["spec"]} for f in fs]


def dirs_with_cases(fs):
    rv = set()
    for f in fs:
        if f["dir"].split("/")[0] in ("test", "book", "run") and runnable(f["file"]) \
                and any(s["k"] == "fn" and s["name"].startswith("test_") for s in f["spec"]):
            p = f["dir"].split("/")
            for k in range(1, len(p) + 1):
                rv.add("/".join(p[:k]))
    return sorted(rv)


def runnable(f):
    return f.endswith(("_test.py", "_book.py", "_suite.py")) or (f.startswith("test_") and f.endswith(".py"))


CLI = [["-v", "verbose", "True"], ["-i", "interactive", "True"], ["-I", "always_interactive", "True"], ["-L", "print_logs", "True"],
       ["-f", "fail_fast", "True"], ["-c", "continue", "True"], ["-r", "refresh_sources", "True"], ["-u", "update", "True"],
       ["-a", "accept", "True"], ["-p", "parallel", "True"], ["-p4", "parallel", "4"], ["-p16", "parallel", "16"],
       ["--parallel-count 7", "parallel", "7"], ["-s", "complete_snapshots", "True"], ["-S", "refresh_snapshots", "True"],
       ["-md-viewer vi=ew", "md_viewer", "vi=ew"], ["-diff-tool di", "diff_tool", "di"]]
KEYS = ["verbose", "md_viewer", "diff_tool", "fast_diff_tool", "log_viewer", "x", "my_own_key", "timeout", "print_logs", "complete_snapshots",
        "fail_fast", "a.b", "k-2"]
VALUES = ["1", "0", "value", "a=b", "two words", "10", "00", "#x", "true", "False", "", "=", "a,b", "'q'", "$HOME"]


class Case:
    """a project with its layers and invocations, and what the specification has to know about them"""
    def __init__(self, r, prop):
        self.r, self.prop = r, prop
        self.g = Gen(r, prop)
        self.files = self.g.project(dirs=["test", "test/sub", "book", "test/my-dir"] if prop in ("C25", "C30", "C31") else None)
        self.setups = []
        self.extra = []
        self.home = self.proj = None
        self.env = {}
        self.place = ["books", "books"]
        self.places = dict(PLAIN)
        self.Ps = []
        self.segments = []
        self.test_paths = None

    def version(self):
        if not self.Ps:
            self.first = list(self.files)
        self.Ps.append({"files": spec_files(self.files), "setups": [list(x) for x in self.setups]})
        return len(self.Ps)

    def seg(self, edit=(), env=None):
        s = {"edit": list(edit), "env": env if env is not None else self.env, "steps": []}
        self.segments.append(s)
        return s

    def step(self, seg, kind, args=(), **kw):
        st = {"kind": kind, "sel": list(args), "p": len(self.Ps), "cli": kw.pop("cli", []), "accept": kw.pop("accept", False),
              "fails": kw.pop("fails", []), "partial": kw.pop("partial", False), "answers": kw.pop("answers", []),
              "books": self.place[1]}
        flags = {"config": ["--config"], "list": ["-l"], "path": ["--path"], "run": [], "garbage": ["--garbage"],
                 "clean": ["--clean"], "setup": ["--setup"], "review": ["-w"], "forget": ["--forget"], "print": ["--print"],
                 "view": ["--view"]}[kind]
        st["args"] = flags + [w for c in st["cli"] for w in c[0].split(" ")] + (["-a"] if st["accept"] else []) \
            + kw.pop("more", []) + st["sel"]
        st.update(kw)
        seg["steps"].append(st)
        return st

    def sel(self):
        r = self.r
        ds = dirs_with_cases(self.files)
        if r.random() < 0.5 or not ds or self.test_paths:
            return ["*"]
        rv = [r.choice(ds)]
        if r.random() < 0.3:
            rv.append("skip:" + r.choice(ds))
        return rv if r.random() < 0.8 else ["skip:" + r.choice(ds)]

    def modes(self):
        """outcomes of the tests: (modes, failing ids)"""
        r = self.r
        ids = [f"i{k}" for k in range(1, self.g.n + 1)]
        m = {i: r.choice(MODES) for i in ids if r.random() < 0.4}
        return m, [i for i in m if m[i] != "ok"]

    def layers(self):
        """some keys in some layers"""
        r = self.r
        home, proj, env = [], [], {}
        for _ in range(r.choice([2, 4, 6])):
            k = r.choice(KEYS)
            for y in r.sample(["home", "proj", "env"], r.choice([1, 2, 2, 3])):
                v = r.choice(VALUES if k != "fail_fast" else ["1", "0"])
                if y == "env":
                    if k in ("a.b", "k-2"):
                        continue
                    for e in list(env):
                        if e.lower() == "booktest_" + k and e.startswith("BOOKTEST_"):
                            del env[e]
                    env["BOOKTEST_" + (k.upper() if r.random() < 0.85 else k)] = v
                else:
                    t = home if y == "home" else proj
                    t.append(f"{k}={v}" + ("  " if r.random() < 0.1 else ""))
                    if r.random() < 0.4:
                        t.append(r.choice(["", "   ", "# a comment", f"#{k}=no", "#"]))
        if r.random() < 0.3:
            env["NOBOOKTEST_X"] = "1"
        if r.random() < 0.3:
            # not of the prefix
            k = r.choice([k for k in KEYS if k not in ("a.b", "k-2")])
            env[r.choice(["booktest_" + k, "Booktest_" + k.upper(), "BOOKTEST" + k.upper(), "_BOOKTEST_" + k.upper()])] = "noise"
        return home, proj, env

    def paths(self):
        r = self.r
        ds = sorted({"test", "book", "run", "alt", "tests", "test/sub", "nosuch"})
        return ",".join(r.sample(ds, r.choice([1, 2, 2, 3])))

    def done(self):
        return {"project": {"files": self.first, "setups": self.setups, "extra": self.extra}, "home": self.home, "proj": self.proj,
                "segments": self.segments, "Ps": self.Ps, "places": self.places}


def c27(r):
    c = Case(r, "C27")
    if r.random() < 0.3:
        c.test_paths = c.paths()
        c.proj = ["test_paths=" + c.test_paths]
    c.version()
    s = c.seg()
    c.step(s, "list", ["*"])
    c.step(s, "run", ["*"], accept=r.random() < 0.5)
    if r.random() < 0.5:
        c.step(s, "list", c.sel())
    s = c.seg()
    c.step(s, "run", ["*"], accept=True, more=["-p2"] if r.random() < 0.2 else [])
    c.step(s, r.choice(["path", "list"]), ["*"])
    if r.random() < 0.12:
        for h in (1, 2, 77):
            c.step(s, "list", ["*"], spawn=True, hash=h)
    return c.done()


def c25(r):
    c = Case(r, "C25")
    if r.random() < 0.3:
        place(r, c)
    b = c.place[1]
    if r.random() < 0.6:
        c.extra += junk(r, b, [f"{f['dir']}/{stem(f['file'][:-3]).strip('_')}/{s['name'][5:]}" for f in c.files if f["file"].endswith(".py")
                               for s in f["spec"] if s["k"] == "fn"])
    if r.random() < 0.5:
        c.extra += [["write", "outside/secret", "keep"], ["write", "outside/dir/x", "keep"], ["link", f"{b}/test/ln", "../../outside/secret"],
                    ["link", f"{b}/lndir", "../outside/dir"], ["link", f"{b}/old2/dangling", "nowhere"]]
    c.version()
    s = c.seg()
    n = r.choice([1, 1, 2, 3])
    for k in range(n):
        if r.random() < 0.8:
            c.step(s, "run", c.sel(), accept=r.random() < 0.7, more=["-p2"] if r.random() < 0.1 else [])
        c.step(s, r.choice(["garbage", "garbage", "clean"]), c.sel() if r.random() < 0.4 else [])
        edit = []
        if r.random() < 0.6 and len(c.files) > 1:
            f = c.files[r.randrange(1, len(c.files))]
            imported = any(m["k"] == "import" and m["module"] == (f["dir"] + "/" + f["file"][:-3]).replace("/", ".")
                           for g in c.files for m in g["members"])
            if not imported:
                c.files.remove(f)
                edit.append(["rm", f"{f['dir']}/{f['file']}"])
        s = c.seg(edit=edit)
        c.version()
        if r.random() < 0.7:
            c.step(s, "garbage", c.sel() if r.random() < 0.3 else [])
        c.step(s, "clean", c.sel() if r.random() < 0.3 else [])
        if r.random() < 0.5:
            c.step(s, r.choice(["clean", "garbage"]))
        if r.random() < 0.4:
            c.step(s, "run", ["*"], accept=True)
            c.step(s, "garbage")
    d = c.done()
    return d


def place(r, c, spelling=None):
    """where the books are, by one of the layers"""
    c.place = list(spelling or r.choice(PLACES))
    line = "books_path=" + c.place[0]
    q = r.random()
    if q < 0.4:
        c.proj = (c.proj or []) + [line]
    elif q < 0.7:
        c.home = (c.home or []) + [line]
    else:
        c.env = dict(c.env, BOOKTEST_BOOKS_PATH=c.place[0])
    c.places[c.place[0]] = c.place[1]
    c.extra.append(["mkdir", "a"])
    if c.place[1] == "real":
        c.extra += [["mkdir", "real"], ["link", "link", "real"]]


def c26(r):
    c = Case(r, "C26")
    c.home, c.proj, c.env = c.layers()
    q = r.random()
    setup = r.random() < 0.35
    if setup:
        # a new .booktest holds just the settings asked for
        c.proj = [l for l in c.proj if l.split("=")[0] in ("md_viewer", "diff_tool", "fast_diff_tool", "log_viewer") or l.startswith("#")]
    if r.random() < 0.5:
        c.test_paths = c.paths()
        vs = [c.paths(), c.paths(), c.test_paths]
        for y in r.sample(["home", "proj", "env"], r.choice([1, 2, 3])):
            v = vs.pop()
            if y == "env":
                c.env["BOOKTEST_TEST_PATHS"] = v
            else:
                (c.home if y == "home" else c.proj).append("test_paths=" + v)
    for y in r.sample(["home", "proj", "env"], r.choice([0, 1, 2])):
        v = r.choice(["test", "book,test/sub", "alt", "skip:test/sub", "*", "test,skip:test/sub", "nosuch"])
        if y == "env":
            c.env["BOOKTEST_DEFAULT_TESTS"] = v
        else:
            (c.home if y == "home" else c.proj).append("default_tests=" + v)
    top = ["books", "books"]
    for y in r.sample(["home", "proj", "env"], r.choice([0, 1, 2])):
        v = r.choice(list(PLAIN))
        if y == "env":
            c.env["BOOKTEST_BOOKS_PATH"] = v
        else:
            (c.home if y == "home" else c.proj).append("books_path=" + v)
    # the harness reads results where the layers put them
    env = {k.lower(): v for k, v in c.env.items() if k.startswith("BOOKTEST_")}
    b = env.get("booktest_books_path") or dict(l.split("=", 1) for l in c.proj if l.startswith("books_path")).get("books_path") \
        or dict(l.split("=", 1) for l in c.home if l.startswith("books_path")).get("books_path") or "books"
    c.place = [b, b]
    # options of the layers decide runs, too: only those without effect on results are in them
    c.version()
    for k in range(r.choice([1, 2])):
        s = c.seg()
        for _ in range(r.choice([2, 3, 4])):
            q = r.random()
            if q < 0.5:
                cli = []
                for x in r.sample(CLI, r.choice([0, 1, 2, 3])):
                    if all(x[1] != y[1] for y in cli):
                        cli.append(x)
                c.step(s, "config", cli=cli)
            elif q < 0.75:
                c.step(s, "list", [], cli=[x for x in r.sample(CLI[:1] + CLI[3:5] + CLI[6:9], 2)])
            else:
                c.step(s, "run", [], accept=r.random() < 0.5, more=r.sample(["-v", "-L", "-u", "-r"], r.choice([0, 1, 2])))
        if setup and k == 0:
            s = c.seg()
            ans = [r.choice(["", "", "tool", "a b --c", "x=y", "1", "0", "#no", "'q'"]) for _ in range(4)]
            ans += [r.choice(["", "test", "test,book", "alt,test/sub"]), r.choice(["", "test", "book,test"]), r.choice(["", ""] + list(PLAIN))]
            c.step(s, "setup", answers=ans)
            if ans[6] and "booktest_books_path" not in env:
                c.place = [ans[6], ans[6]]
            s = c.seg()
            c.step(s, "config")
            c.step(s, "list")
            if r.random() < 0.5:
                c.step(s, "run", [], accept=True)
            if r.random() < 0.5:
                s = c.seg()
                c.step(s, "setup", answers=[""] * 7)
                s = c.seg()
                c.step(s, "config")
    return c.done()


def c30(r):
    c = Case(r, "C30")
    if r.random() < 0.9:
        c.setups = [[r.choice(["test", "test", "book", "test/sub", "run", "alt"]), "s1"]]
    if r.random() < 0.25:
        c.setups.append([r.choice(["alt", "other", "book", "run/z"]), "s2"])
        if c.setups[0][0] == c.setups[-1][0]:
            c.setups.pop()
    if r.random() < 0.2:
        c.test_paths = r.choice(["test", "test,alt", "book,test", "alt", "test,nosuch"])
        c.proj = ["test_paths=" + c.test_paths]
    c.version()
    s = c.seg()
    for _ in range(r.choice([1, 2, 3])):
        m, fails = c.modes()
        q = r.random()
        kw = {"modes": m, "fails": fails, "accept": r.random() < 0.4}
        if q < 0.35:
            c.step(s, "run", ["*"], more=["--cov"] if r.random() < 0.1 else [], **kw)
        elif q < 0.5:
            c.step(s, "run", ["*"], more=["-f"], partial=True, **kw)
        elif q < 0.6:
            m[f"i{r.randrange(1, c.g.n + 1)}"] = "kbd"
            c.step(s, "run", ["*"], partial=True, **kw)
        elif q < 0.7:
            c.step(s, "run", ["*"], more=["-i"], partial=True, answers=r.choice([["q"], ["c", "q"], [], ["c"]]), **kw)
        elif q < 0.9:
            c.step(s, "run", ["*"], more=[r.choice(["-p1", "-p2", "-p3", "-p"])], **kw)
        else:
            c.step(s, "list", ["*"])
    if r.random() < 0.06:
        m, fails = c.modes()
        s = c.seg()
        c.step(s, "run", ["*"], modes=m, fails=fails, accept=True, more=["-p2"] if r.random() < 0.7 else [], spawn=True,
               hash=r.randrange(1000))
    return c.done()


def c31(r):
    c = Case(r, "C31")
    place(r, c)
    c.env = dict(c.env, **{f"BOOKTEST_{k}": "true" for k in ("MD_VIEWER", "LOG_VIEWER", "DIFF_TOOL", "FAST_DIFF_TOOL")})
    c.extra += [["write", "outside/secret", "keep"], ["write", "a/x.md", "keep"], ["write", "README", "keep"]]
    if r.random() < 0.4:
        c.extra += [["write", ".coveragerc", "[run]\n"], ["write", ".coverage-notes", "keep"], ["write", "outside/.coverage.1", "keep"]]
    if r.random() < 0.4:
        c.extra += junk(r, c.place[1])
        c.extra += [["link", f"{c.place[1]}/test/ln", c_abs("outside/secret")]]
    c.version()
    s = c.seg()
    for _ in range(r.choice([2, 3, 5])):
        q = r.random()
        if q < 0.4:
            m, fails = c.modes()
            spawn = r.random() < 0.02
            more = r.choice([[], [], ["-v"], ["-L"], ["-p2"], ["-p1"], ["-u"]]) if r.random() < 0.9 else ["--cov"] + r.choice([[], ["-p2"]])
            c.step(s, "run", ["*"], accept=r.random() < 0.6, modes=m, fails=fails, more=more, spawn=spawn)
        elif q < 0.5:
            c.step(s, "run", c.sel(), more=["-I"], partial=True,
                   answers=[r.choice("acvldDcq") for _ in range(30)] + ["q"])
            # what was accepted in the dialogue is not judged here
            s["steps"].pop()
        elif q < 0.6:
            c.step(s, r.choice(["list", "path"]), c.sel())
        elif q < 0.7:
            c.step(s, r.choice(["garbage", "clean", "garbage"]), c.sel() if r.random() < 0.3 else [])
        elif q < 0.8:
            c.step(s, "view", c.sel())
        elif q < 0.85:
            c.step(s, "print", c.sel())
        elif q < 0.9:
            c.step(s, "config")
        elif any(x["kind"] == "run" for x in s["steps"]):
            c.step(s, r.choice(["review", "forget"]), c.sel(), judged=False)
    return c.done()


def c_abs(p):
    return p


MAKE = {"C25": c25, "C26": c26, "C27": c27, "C30": c30, "C31": c31}


def trace(tid, a, obs):
    steps = []
    for seg, os_ in zip(a["segments"], obs):
        for st, o in zip(seg["steps"], os_):
            full = {"status": "done", "rc": "", "list": [], "events": [], "changed": [], "before": [], "after": [], "ids": {},
                    "rec": [], "index": []}
            full.update({k: o[k] for k in full if k in o})
            steps.append({"kind": st["kind"], "args": st["sel"], "cov": "--cov" in st["args"], "p": st["p"], "cli": [c[1:] for c in st["cli"]],
                          "env": [list(e) for e in seg["env"].items()], "answers": st["answers"], "accept": st["accept"],
                          "fails": st["fails"], "partial": st["partial"], "obs": full})
        if len(os_) > len(seg["steps"]):
            steps[-1]["obs"]["status"] = os_[-1]["status"]
    return {"id": tid, "Ps": a["Ps"], "home": a["home"] or [], "proj": a["proj"] or [], "places": a["places"], "steps": steps}


def validate(chk, traces):
    path = os.path.join(sandbox.scratch(), "projects.json")
    with open(path, "w") as f:
        json.dump(traces, f)
    r = chk.tlc(tlc.run("ProjectTrace", env={"TRACES": path}, workers=8, timeout=1800))
    v = {x["id"]: x for x in r.printed}
    if len(v) != len(traces):
        raise tlc.TlcError(f"{len(traces)} projects but {len(v)} verdicts\n" + r.output[-3000:])
    return v


def run(chk, farm, ps):
    res = farm.run("harness.drv_proj", "run_project", ps, timeout=240)
    traces, keep = [], {}
    for k, (a, x) in enumerate(zip(ps, res)):
        if x["status"] != "done":
            raise tlc.TlcError("project driver failed: " + str(x)[-3000:])
        t = trace(f"p{k}", a, x["value"])
        if not t["steps"]:
            continue
        traces.append(t)
        keep[t["id"]] = (a, x["value"], t)
    vs = validate(chk, traces)
    chk.traces += sum(v["steps"] for v in vs.values())
    want = CLAUSES[chk.prop] | LIVE
    seen = {}
    for tid, v in vs.items():
        a, obs, t = keep[tid]
        for b in v["bad"]:
            for c in b["bad"]:
                seen[c] = seen.get(c, 0) + 1
            hit = set(b["bad"]) & want
            if hit:
                flat = [(seg, st, o) for seg, os_ in zip(a["segments"], obs) for st, o in zip(seg["steps"], os_)]
                seg, st, o = flat[b["step"] - 1]
                brief = {k: o.get(k) for k in ("rc", "list", "events", "changed", "rec", "ids", "index", "error", "before", "after")}
                chk.violation("+".join(sorted(hit)),
                              f"step {b['step']} booktest {' '.join(st['args'])}: observed {json.dumps(brief)[:2500]} specification "
                              f"{json.dumps({k: v[k] for k in ('cfg', 'chosen', 'books', 'garbage')})[:1500]}",
                              {"project": a, "family": "fam_proj"})
    if seen:
        chk.info["clauses_seen"] = seen
    return vs


def findings(chk, farm):
    fs = [f for f in known_findings()["findings"] if chk.prop == f["property"] and "project" in f.get("input", {})]
    for f in fs:
        x = farm.run("harness.drv_proj", "run_project", [f["input"]["project"]], timeout=120)[0]
        v = validate(chk, [trace("f", f["input"]["project"], x["value"])])["f"]
        if {c for b in v["bad"] for c in b["bad"]} & set(f["input"]["clauses"]):
            chk.finding(f["id"], f["what"])


def chunks(x, n):
    return [x[k:k + n] for k in range(0, len(x), n)]


def replay_histories(chk, farm, module, fn, consts, jobs_of, judge, most=0):
    """every history of a specification, on the real code (or a sample of so many)"""
    r = chk.tlc(tlc.run(module, consts=dict(consts, Emit="TRUE"), workers=8, timeout=1800))
    hs = r.printed
    if most and len(hs) > most:
        hs.sort(key=json.dumps)
        hs = random.Random(chk.seed).sample(hs, most)
    obs = []
    for x in farm.run("harness.drv_books", fn, chunks([jobs_of(h) for h in hs], 60), timeout=240):
        if x["status"] != "done":
            raise tlc.TlcError("the driver of histories failed: " + str(x)[-2000:])
        obs += x["value"]
    for h, o in zip(hs, obs):
        bad = judge(h, o)
        if bad:
            chk.violation(bad, f"history {json.dumps(jobs_of(h))}: observed {json.dumps(o)[:1500]}, specification "
                          f"{json.dumps(h)[:1500]}", {"history": h, "module": module})
    chk.traces += len(hs)
    chk.info["histories_replayed"] = chk.info.get("histories_replayed", 0) + len(hs)


def judge_books(h, o):
    if o["error"]:
        return "broke-down"
    return "" if o["files"] == sorted(h["files"]) else "files"


def judge_layers(h, o):
    return "" if o == [sorted([k, v] for k, v in dict(x).items()) for x in h["shown"]] else "config"


def model(chk, farm):
    """the design: all behaviours of the small models; those of the first two are replayed"""
    if chk.prop == "C25":
        replay_histories(chk, farm, "BooksMC", "books", {"Depth": chk.pick(3, 4)}, lambda h: h["h"], judge_books)
    elif chk.prop == "C26":
        replay_histories(chk, farm, "ConfigMC", "layers", {"Depth": 2}, lambda h: {k: h[k] for k in ("home", "proj", "env", "asked")},
                         judge_layers, most=chk.pick(2500, 0))
    elif chk.prop == "C30":
        for par in ("TRUE", "FALSE"):
            chk.tlc(tlc.run("BracketMC", consts={"Parallel": par, "N": chk.pick(3, 5)}, workers=8, timeout=900))


def check(chk, replay=None):
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    farm = sandbox.Farm(preload=("booktest", "booktest.cli"), paths=(here,))
    try:
        err = farm.start()
        if err:
            chk.violation("import", "booktest cannot be imported: " + err[-500:], {})
            return
        if replay and "history" in replay["data"]:
            h, books = replay["data"]["history"], replay["data"]["module"] == "BooksMC"
            o = farm.run("harness.drv_books", "books" if books else "layers", [[h["h"] if books else h]], timeout=60)[0]["value"][0]
            bad = (judge_books if books else judge_layers)(h, o)
            if bad:
                chk.violation(bad, f"observed {json.dumps(o)}", replay["data"])
            return
        if replay:
            run(chk, farm, [replay["data"]["project"]])
            return
        model(chk, farm)
        r = random.Random(chk.seed * 1000 + 500 + int(chk.prop[1:]))
        ps = [MAKE[chk.prop](r) for _ in range(chk.pick(220, 3000))]
        findings(chk, farm)
        vs = run(chk, farm, ps)
        kinds = {}
        for a in ps:
            for g in a["segments"]:
                for s in g["steps"]:
                    kinds[s["kind"]] = kinds.get(s["kind"], 0) + 1
        chk.info["commands"] = kinds
        chk.sample({"project": ps[0], "verdict": vs.get("p0")})
    finally:
        farm.close()
