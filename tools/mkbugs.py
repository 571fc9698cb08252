#!/usr/bin/env python3
"""Writes /verif/seeded from the definitions in tools/bugs_*.py"""
import glob, importlib.util, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = '''import atexit, contextlib, io, json, os, shutil, sys, tempfile
REPO = os.getcwd()
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
os.environ["PYTHONPATH"] = REPO
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
D = tempfile.mkdtemp(prefix="btdemo-")
OWNER = os.getpid()
atexit.register(lambda: os.getpid() == OWNER and shutil.rmtree(D, ignore_errors=True))
os.chdir(D)
os.environ["HOME"] = D
import booktest as bt
assert bt.__file__.startswith(REPO), bt.__file__


def run(cases, *args, answers="", root="books", cache=None):
    """runs the cases in this process: (exit status, printed text)"""
    out, old = io.StringIO(), sys.stdin
    sys.stdin = io.StringIO(answers)
    try:
        with contextlib.redirect_stdout(out):
            rc = bt.Tests(cases).exec(root, list(args), {} if cache is None else cache)
    finally:
        sys.stdin = old
    return rc, out.getvalue()


def case(name, f):
    """a case, whose result is None"""
    def g(t):
        f(t)
    return [name, g]


def test(f):
    """the case test/x with body f"""
    return [case("test/x", f)]


def record(root="books"):
    with open(root + "/.out/cases.txt") as f:
        return {l.split("\\t")[0]: l.split("\\t")[1] for l in f if l.strip()}


def read(p):
    with open(p) as f:
        return f.read()


def write(p, x):
    os.makedirs(os.path.dirname(os.path.abspath(p)), exist_ok=True)
    with open(p, "w") as f:
        f.write(x)


def cli(*args, answers="", env=None):
    """runs the booktest command in the current directory: (exit status, printed text)"""
    import subprocess
    e = dict(os.environ, HOME=D, **(env or {}))
    p = subprocess.run([sys.executable, "-m", "booktest", *args], input=answers, text=True, env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=90)
    return p.returncode, p.stdout


def project(**files):
    """test files test/<name>.py"""
    write("test/__init__.py", "")
    for n, x in files.items():
        write(f"test/{n}.py", x)


'''
DEMO = '''#!/bin/bash
exec timeout 200 /opt/venv/bin/python "$(dirname "$(readlink -f "$0")")/demo.py"
'''


def main():
    want = sys.argv[1:]
    for f in sorted(glob.glob(os.path.join(V, "tools", "bugs_*.py"))):
        spec = importlib.util.spec_from_file_location("b", f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        for b in m.BUGS:
            if want and b["id"] not in want:
                continue
            d = tempfile.mkdtemp(prefix="mkbug-", dir="/tmp")
            try:
                subprocess.check_call(["git", "-C", "/repo", "worktree", "prune"])
                subprocess.check_call(f"git -C /repo archive HEAD | tar x -C {d} && cd {d} && git init -q . && git add -A "
                                      "&& git -c user.email=a@b -c user.name=a commit -qm x", shell=True)
                for path, old, new in b["edits"]:
                    p = os.path.join(d, path)
                    s = open(p).read()
                    if s.count(old) != 1:
                        sys.exit(f"{b['id']}: {s.count(old)} matches in {path} of: {old}")
                    open(p, "w").write(s.replace(old, new))
                diff = subprocess.check_output(["git", "-C", d, "diff"], text=True)
            finally:
                shutil.rmtree(d)
            t = os.path.join(V, "seeded", b["id"])
            os.makedirs(t, exist_ok=True)
            open(t + "/patch.diff", "w").write(diff)
            open(t + "/demo.sh", "w").write(DEMO)
            open(t + "/demo.py", "w").write(PRE + b["demo"].lstrip("\n"))
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]},
                      open(t + "/meta.json", "w"), indent=1)
            print(b["id"])


main()
