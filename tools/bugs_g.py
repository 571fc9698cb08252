"""planted bugs: several snapshots, names, reports, processes"""
BUGS = []


def bug(id, property, needs, what, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, what=what, edits=edits, demo=demo))


bug("c06-empty-line-as-end", "C06", "a line that differs from an empty snapshot line",
    "the report shows the end of the snapshot beside it",
    [("booktest/testcaserun.py", "            if self.exp_line is not None:\n                self.report(f\"{symbol}", "            if self.exp_line:\n                self.report(f\"{symbol}")],
    '''
run(test(lambda t: t.tln("a").tln("").tln("b")), "-a")
rc, out = run(test(lambda t: t.tln("a").tln("x").tln("b")))
ls = read("books/.out/test/x.txt").split("\\n")
assert ls[1].startswith("? x ") and not ls[1].endswith("EOF"), ls
''')

bug("c14-results-by-simple-name", "C14", "two cases whose names differ only in a blank and an underscore",
    "stored results of both are kept in the same file",
    [("booktest/tests.py", "return path.join(out_dir, case_path + \".bin\")", "return path.join(out_dir, case_path.replace(\" \", \"_\") + \".bin\")")],
    '''
GOT = []


def a(t):
    return "a"


def b(t):
    return "b"


@bt.depends_on(a, b)
def c(t, x, y):
    GOT.append((x, y))


run([["test/a b", a], ["test/a_b", b]], "-a")
run([["test/a b", a], ["test/a_b", b], ["test/c", c]], "-a", "test/c")
assert GOT == [("a", "b")], GOT
''')

bug("c15-at-least-two", "C15", "a parallel run with one process",
    "at least two processes are used",
    [("booktest/runs.py", "            process_count = int(process_count)\n", "            process_count = max(2, int(process_count))\n")],
    '''
write("suite.py", """
import os, sys, time
sys.path.insert(0, "REPO")
import booktest as bt


def busy(t):
    path = "busy-" + str(os.getpid())
    open(path, "w").close()
    time.sleep(0.4)
    n = len([f for f in os.listdir(".") if f.startswith("busy-")])
    os.remove(path)
    t.tln(str(n))


def a(t):
    busy(t)


def b(t):
    busy(t)


def c(t):
    busy(t)


def d(t):
    busy(t)


tests = bt.Tests([("test/a", a), ("test/b", b), ("test/c", c), ("test/d", d)])
if __name__ == "__main__":
    tests.exec("books", ["-p1"], {})
""".replace("REPO", REPO))
import subprocess
subprocess.run([sys.executable, "suite.py"], timeout=100, stdout=subprocess.DEVNULL)
for n in "abcd":
    assert read("books/.out/test/" + n + ".md") == "1\\n", n
''')

bug("c12-parallel-quit-goes-on", "C12", "quitting the dialogue of a parallel run while cases wait for their dependencies",
    "only fail-fast stops a parallel run",
    [("booktest/runs.py", "                    if request == UserRequest.ABORT or \\\n                       (fail_fast and reviewed_result != TestResult.OK):\n                        runner.abort()",
      "                    if fail_fast and \\\n                       reviewed_result != TestResult.OK:\n                        runner.abort()")],
    '''
write("suite.py", """
import sys, time
sys.path.insert(0, "REPO")
import booktest as bt


def a(t):
    t.tln("a")


@bt.depends_on(a)
def b(t, x):
    time.sleep(1)
    t.tln("b")


@bt.depends_on(b)
def c(t, x):
    t.tln("c")
    open("ran-c", "w").close()


tests = bt.Tests([("test/a", a), ("test/b", b), ("test/c", c)])
if __name__ == "__main__":
    tests.exec("books", ["-i", "-p2"], {})
""".replace("REPO", REPO))
import subprocess
subprocess.run([sys.executable, "suite.py"], timeout=100, input=b"q\\nc\\nc\\nc\\n", stdout=subprocess.DEVNULL)
assert not os.path.exists("ran-c") and "test/c" not in record(), record()
''')

bug("c21-function-snapshots-of-the-last-decorator", "C21", "a test with two function snapshot decorators",
    "only the calls of the outer one are stored",
    [("booktest/functions.py", "        os.makedirs(self.mock_out_path, exist_ok=True)\n",
      "        if os.path.isdir(self.mock_out_path):\n            for name in os.listdir(self.mock_out_path):\n                os.remove(os.path.join(self.mock_out_path, name))\n        os.makedirs(self.mock_out_path, exist_ok=True)\n")],
    '''
write("mod_x.py", """
N = [0]


def f():
    N[0] += 1
    return "f"


def g():
    N[0] += 1
    return "g"
""")
sys.path.insert(0, D)
import mod_x


@bt.snapshot_functions(mod_x.f)
@bt.snapshot_functions(mod_x.g)
def body(t):
    t.tln(mod_x.f() + mod_x.g())


run([["test/x", body]], "-s", "-a", "-u")
n = mod_x.N[0]
rc, out = run([["test/x", body]], "-a")
assert rc == 0 and mod_x.N[0] == n, out
''')

bug("c27-nested-lists", "C27", "suites merged from lists in lists",
    "only the last suite of a nested list is kept",
    [("booktest/testsuite.py", "            rv.extend(cases_of(s))\n", "            if isinstance(s, list):\n                s = s[-1]\n            rv.extend(cases_of(s))\n")],
    '''
def f(t):
    t.tln("f")


ts = bt.merge_tests([bt.TestSuite("test/a", [["x", f]]), [bt.TestSuite("test/b", [["x", f]]), bt.TestSuite("test/c", [["x", f]])]])
assert ts.all_names() == ["test/a/x", "test/b/x", "test/c/x"], ts.all_names()
''')
