"""Writes projects and runs the command line interface of booktest in them."""
import hashlib, io, json, os, shutil, subprocess, sys
from . import suites as s
from .sandbox import in_child, REPO

NOTES = '''import json, os
def event(**x):
    fd = os.open(os.environ["BTV_JOURNAL"], os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    os.write(fd, (json.dumps(dict(x, pid=os.getpid())) + "\\n").encode())
    os.close(fd)
def test(t, who):
    event(e="test", id=who)
    mode = json.loads(os.environ.get("BTV_MODES", "{}")).get(who, "ok")
    t.tln("id " + who)
    if mode == "fail":
        t.fail()
    elif mode == "raise":
        raise ValueError("boom")
    elif mode == "exit":
        raise SystemExit(3)
    elif mode == "kbd":
        raise KeyboardInterrupt()
'''


def source(f, parallel=False):
    ls = ["import booktest as bt", "import btv_notes as _n"]
    for m in f["members"]:
        k = m["k"]
        if k == "fn":
            if m.get("deco"):
                ls.append('@bt.mock_env({"BTV_X": "1"})')
            # functions that are not called like this cannot be sent to other processes
            if m.get("form") == "closure" and not parallel:
                ls += [f"def _make_{m['id']}(i):", "    def body(t):", "        _n.test(t, i)", "    return body",
                       f"{m['name']} = _make_{m['id']}({m['id']!r})"]
            elif m.get("form") == "lambda" and not parallel:
                ls.append(f"{m['name']} = lambda t: _n.test(t, {m['id']!r})")
            else:
                ls += [("async " if m.get("async") else "") + f"def {m['name']}(t):", f"    _n.test(t, {m['id']!r})"]
        elif k == "class":
            ls.append(f"class {m['name']}(bt.TestBook):")
            if m.get("ctor") == "need":
                ls += ["    def __init__(self, path):", "        super().__init__(path)"]
            elif m.get("ctor") == "option":
                ls += ["    def __init__(self, path=None):", "        super().__init__(path)"]
            elif m.get("path"):
                ls += ["    def __init__(self):", f"        super().__init__({m['path']!r})"]
            elif m.get("part"):
                ls += ["    def __init__(self):", f"        super().__init__(name={m['part']!r})"]
            for n, i in m["methods"]:
                if i.endswith("7") and n.startswith("test") and not parallel:
                    ls.append(f"    {n} = lambda self, t: _n.test(t, {i!r})")
                else:
                    ls += [f"    {'async ' if i.endswith('9') else ''}def {n}(self, t):", f"        _n.test(t, {i!r})"]
            ls.append("    attribute = 1")
        elif k == "instance":
            ls.append(f"{m['name']} = {m['cls']}({m['path']!r})")
        elif k in ("suite", "drop"):
            for n, i in m["cases"]:
                ls += [f"def _{m['name']}_{i}(t):", f"    _n.test(t, {i!r})"]
            cs = "[" + ", ".join(f"[{n!r}, _{m['name']}_{i}]" for n, i in m["cases"]) + "]"
            if k == "drop":
                ls.append(f"{m['name']} = bt.drop_prefix({m['path']!r}, bt.Tests({cs}))")
            elif m.get("via") == "merge":
                ls.append(f"{m['name']} = bt.merge_tests([bt.TestSuite({m['path']!r}, {cs})])")
            elif m.get("via") == "lists":
                # the parts of a suite, in nested lists
                k = len(m["cases"]) // 3
                part = lambda cs: "[" + ", ".join(f"[{n!r}, _{m['name']}_{i}]" for n, i in cs) + "]"
                ls.append(f"{m['name']} = bt.merge_tests([[bt.TestSuite({m['path']!r}, {part(m['cases'][:k])})], [bt.TestSuite({m['path']!r}, {part(m['cases'][k:k + 1])}), [bt.TestSuite({m['path']!r}, {part(m['cases'][k + 1:])})]]])")
            elif m.get("via") == "decorate" and not parallel:
                ls.append(f"{m['name']} = __import__('booktest.testsuite', fromlist=['x']).decorate_tests(bt.mock_env({{'BTV_X': '1'}}), [bt.TestSuite({m['path']!r}, {cs})])")
            elif m.get("via") == "Tests":
                ls.append(f"{m['name']} = bt.Tests({cs})")
            else:
                ls.append(f"{m['name']} = bt.TestSuite({m['path']!r}, {cs})")
        elif k == "import":
            ls.append(f"from {m['module']} import {m['what']}" + (f" as {m['name']}" if m["name"] != m["what"] else ""))
        elif k == "alias":
            ls.append(f"{m['name']} = {m['of']}")
        elif k == "src":
            ls += m["src"].split("\n")
    return "\n".join(ls) + "\n"


SETUP = '''import btv_notes as _n
def process_setup_teardown():
    _n.event(e="setup", id={id!r})
    yield
    _n.event(e="teardown", id={id!r})
'''


def write(p, text):
    os.makedirs(os.path.dirname(p) or ".", exist_ok=True)
    with open(p, "w") as f:
        f.write(text)


def project(a, parallel=False):
    """a: {files: [{dir, file, members}], setups: [[dir, id]], extra: [[path, text]]}"""
    write("btv_notes.py", NOTES)
    write("test/__init__.py", "")
    for f in a["files"]:
        write(f"{f['dir']}/{f['file']}", f["text"] if "text" in f else source(f, parallel))
    for d, i in a.get("setups", []):
        write(f"{d}/__booktest__.py", SETUP.format(id=i))
    for o in a.get("extra", []):
        if o[0] == "write":
            write(o[1], o[2])
        elif o[0] == "mkdir":
            os.makedirs(o[1], exist_ok=True)
        elif o[0] == "link":
            os.makedirs(os.path.dirname(o[1]) or ".", exist_ok=True)
            os.symlink(o[2], o[1])


def tree():
    """everything below the scratch directory: path -> kind and content"""
    rv = {}
    for root, dirs, files in os.walk(".."):
        for d in dirs:
            p = os.path.join(root, d)
            rv[p] = "/" + (os.readlink(p) if os.path.islink(p) else "")
        for f in files:
            p = os.path.join(root, f)
            if os.path.islink(p):
                rv[p] = "->" + os.readlink(p)
            else:
                with open(p, "rb") as g:
                    rv[p] = hashlib.sha1(g.read()).hexdigest()
    return rv


def norm(p):
    """a path below the project directory, or else relative to it with .."""
    p = os.path.normpath(p)
    return os.path.relpath(p, os.path.join("..", "project")) if p.startswith("..") else p


def spelled(p):
    """a printed path: its directory resolved (a file may be a link), relative to the project"""
    d, f = os.path.split(p)
    return os.path.relpath(os.path.join(os.path.realpath(d or "."), f), os.path.realpath("."))


def invoke(step, same_process, jpath):
    if step.get("spawn"):
        e = dict(os.environ, PYTHONPATH=REPO, PYTHONHASHSEED=str(step.get("hash", 0)), BTV_JOURNAL=jpath)
        try:
            p = subprocess.run([sys.executable, "-m", "booktest"] + step["args"], env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, input="".join(a + "\n" for a in step.get("answers", [])).encode(),
                               timeout=60)
        except subprocess.TimeoutExpired:
            return "hang", "", "no end within 60 s"
        return str(p.returncode), p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")
    os.environ["BTV_JOURNAL"] = jpath
    so, si, se = sys.stdout, sys.stdin, sys.stderr
    sys.stdout, sys.stdin, sys.stderr = io.StringIO(), s.Answers("".join(a + "\n" for a in step.get("answers", []))), io.StringIO()
    error = ""
    try:
        from booktest.cli import main
        try:
            rc = main(step["args"])
            rc = "0" if rc is None or rc == 0 else "1"
        except SystemExit as e:
            rc, error = "usage" if e.code == 2 else "exit", sys.stderr.getvalue()[-800:]
        except BaseException:
            import traceback
            rc, error = "exc", traceback.format_exc()[-2000:]
        return rc, sys.stdout.getvalue(), error
    finally:
        sys.stdout, sys.stdin, sys.stderr = so, si, se


def here(l):
    return l.replace("@CWD@", os.path.abspath("."))


def kinds(step, text, books):
    a = step["kind"]
    ls = [l for l in text.split("\n") if l.strip()]
    if a == "config":
        return [l.replace(os.path.abspath("."), "@CWD@") for l in ls]
    if a == "list":
        return [l.strip() for l in ls]
    if a in ("garbage", "path"):
        return [spelled(l) for l in ls]
    if a == "clean":
        return [spelled(l[len("removed "):] if l.startswith("removed ") else l) for l in ls]
    return []


def ids(books):
    """which test wrote the output of a case: name -> id"""
    rv = {}
    for base in (books, os.path.join(books, ".out")):
        for root, dirs, files in os.walk(base):
            if base == books and ".out" in dirs and root == books:
                dirs.remove(".out")
            for f in files:
                if f.endswith(".md"):
                    text = s.read(os.path.join(root, f)) or ""
                    if text.startswith("id ") and text.count("\n") >= 1:
                        rv[os.path.relpath(os.path.join(root, f), base)[:-3]] = text.split("\n")[0][3:]
    return rv


def steps_of(seg, opath):
    jpath = os.path.abspath("../journal")
    os.environ.update({k: here(v) for k, v in seg.get("env", {}).items()})
    os.environ["HOME"] = os.path.abspath("../home")
    s.fork_context()
    for k, step in enumerate(seg["steps"]):
        if os.path.exists(jpath):
            os.remove(jpath)
        os.environ["BTV_MODES"] = json.dumps(step.get("modes", {}))
        before = tree()
        rc, text, error = invoke(step, True, jpath)
        events = [json.loads(l) for l in open(jpath)] if os.path.exists(jpath) else []
        after = tree()
        own = {"../journal", "../obs"}
        changed = sorted(norm(p) for p in (before.keys() | after.keys()) - own if before.get(p) != after.get(p)
                         and not p.startswith("../obs"))
        books = step["books"]
        o = {"status": "hang" if rc == "hang" else "done", "rc": rc, "error": error[-1500:], "stdout": text[-3000:],
             "events": events, "changed": changed,
             "before": [norm(p) for p in sorted(before) if before[p][:1] != "/"],
             "after": [norm(p) for p in sorted(after) if after[p][:1] != "/"],
             "list": kinds(step, text, books), "ids": ids(books), "rec": s.record(os.path.join(books, ".out")),
             "index": [n for n, l in s.index_names(s.read(os.path.join(books, "index.md")) or "")]}
        with open(opath, "a") as f:
            f.write(json.dumps(o) + "\n")
    return True


def run_project(arg):
    """arg: {project, home, proj, segments: [{edit, env, steps}]}: the observations of every step"""
    os.makedirs("project")
    os.makedirs("home")
    os.chdir("project")
    project(arg["project"], '"-p' in json.dumps(arg) or "parallel" in json.dumps(arg).lower())
    if arg.get("home") is not None:
        write("../home/.booktest", "".join(here(l) + "\n" for l in arg["home"]))
    if arg.get("proj") is not None:
        write(".booktest", "".join(here(l) + "\n" for l in arg["proj"]))
    rv = []
    for n, seg in enumerate(arg["segments"]):
        for o in seg.get("edit", []):
            if o[0] == "rm":
                if os.path.isdir(o[1]) and not os.path.islink(o[1]):
                    shutil.rmtree(o[1])
                elif os.path.lexists(o[1]):
                    os.remove(o[1])
            else:
                project({"files": [], "extra": [o]})
        opath = os.path.abspath("../obs")
        open(opath, "w").close()
        r = in_child(lambda: steps_of(seg, opath), arg.get("timeout", 60))
        ls = [json.loads(l) for l in open(opath)]
        rv.append(ls)
        if r["status"] != "done":
            rv[-1].append({"status": r["status"], "error": r.get("error", "")[-2000:]})
            break
    return rv
