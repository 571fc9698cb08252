"""planted bugs: parallel runs, sections, stores, settings and other corners"""
BUGS = []


def bug(id, property, needs, what, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, what=what, edits=edits, demo=demo))


bug("c01-past-the-end", "C01", "tested text beyond the last line of the snapshot",
    "a token is only compared where the snapshot has a token",
    [("booktest/testcaserun.py", "        if self.exp_file_exists \\\n           and token != exp_token \\",
      "        if self.exp_file_exists \\\n           and exp_token is not None \\\n           and token != exp_token \\")],
    '''
run(test(lambda t: t.tln("x")), "-a")
rc, out = run(test(lambda t: t.tln("x").tln("y")))
assert rc != 0 and record()["test/x"] == "DIFF", record()
''')

bug("c03-indented-anchor", "C03", "a prefix anchor, and an indented line beginning with it before the anchored one",
    "prefix anchors also stop at indented lines",
    [("booktest/testcaserun.py", "return self.seek(lambda x: x.startswith(prefix))",
      "return self.seek(lambda x: x.lstrip().startswith(prefix))")],
    '''
def body(t, noise):
    t.iln("note")
    if noise:
        t.iln("  key of something")
    t.keyvalueln("key", "1")


run(test(lambda t: body(t, True)), "-a")
rc, out = run(test(lambda t: body(t, False)))
assert rc == 0, out
''')


bug("c04-no-jump-after-set", "C04", "a set whose elements come in another order, with tested lines after it",
    "the cursor moves behind the set only when elements are missing",
    [("booktest/testcaserun.py", "                self.diff()\n            self.jump(end)", "                self.diff()\n                self.jump(end)")],
    '''
run(test(lambda t: (t.tset(["a", "b", "c"]), t.tln("end"))), "-a")
rc, out = run(test(lambda t: (t.tset(["c", "b", "a"]), t.tln("end"))))
assert rc == 0, out
''')

bug("c05-difference-first", "C05", "a line that differs from the snapshot and also fails",
    "a line that differs is not counted as failing",
    [("booktest/testcaserun.py", "            if self.line_error is not None:\n                symbol", "            elif self.line_error is not None:\n                symbol")],
    '''
run(test(lambda t: t.t("value 1 ").iln("ok")), "-a")
rc, out = run(test(lambda t: t.t("value 2 ").assertln(False)), "-a")
assert rc != 0 and record()["test/x"] == "FAIL", record()
''')

bug("c07-answer-by-first-letter", "C07", "an answer in the dialogue that begins with 'a' but is none of the options",
    "any answer that begins with a accepts",
    [("booktest/review.py", "if answer == \"a\" and", "if answer[:1] == \"a\" and")],
    '''
run(test(lambda t: t.tln("one")), "-a")
rc, out = run(test(lambda t: t.tln("two")), "-i", answers="abort\\nq\\n")
assert read("books/test/x.md") == "one\\n", read("books/test/x.md")
''')

bug("c08-snapshot-removed-first", "C08", "the process is killed while the snapshot is being replaced",
    "the old snapshot is removed together with its attachments, before the new one is moved",
    [("booktest/review.py", "    if path.exists(exp_dir_name):\n        shutil.rmtree(exp_dir_name)",
      "    if path.exists(exp_file_name):\n        os.remove(exp_file_name)\n    if path.exists(exp_dir_name):\n        shutil.rmtree(exp_dir_name)"),
     ("booktest/review.py", "    # destroy old test related files", "    # destroy all old test related files")],
    '''
import subprocess
write("p.py", """
import os, sys
sys.path.insert(0, %r)
import booktest as bt


def body(t):
    t.tln(sys.argv[1])


if len(sys.argv) > 2:
    os.rename = os.replace = lambda a, b, real=os.replace: os._exit(9) if b == "books/test/x.md" else real(a, b)
bt.Tests([["test/x", body]]).exec("books", ["-a"])
""" % REPO)
subprocess.run([sys.executable, "p.py", "old"], stdout=subprocess.DEVNULL)
subprocess.run([sys.executable, "p.py", "new", "cut"], stdout=subprocess.DEVNULL)
assert os.path.exists("books/test/x.md")
''')


bug("c10-forgets-unknown", "C10", "a record of a case that is not known now",
    "forgetting drops the records of unknown cases, too",
    [("booktest/tests.py", "reports = [i for i in reports if i[0] not in cases]", "reports = [i for i in reports if i[0] not in cases and i[0] in self.all_names()]")],
    '''
a, b = case("test/a", lambda t: t.tln("a")), case("test/b", lambda t: t.tln("b"))
run([a, b])
run([a], "--forget", "test/a")
assert record() == {"test/b": "DIFF"}, record()
''')


bug("c12-review-goes-on", "C12", "a review with fail-fast and a case that differs",
    "a review with fail-fast stops at failures only",
    [("booktest/review.py", "                   (fail_fast and reviewed_result != TestResult.OK):", "                   (fail_fast and reviewed_result == TestResult.FAIL):")],
    '''
cases = [case("test/a", lambda t: t.tln("a")), case("test/b", lambda t: t.tln("b"))]
run(cases)
rc, out = run(cases, "-w", "-f")
assert out.count("DIFFERED") == 1, out
''')

bug("c13-refreshes-the-tail", "C13", "a chain of three cases, the last one selected, the first one without a stored result needed only by a stored one",
    "whether a result is stored is looked at for direct dependencies only",
    [("booktest/tests.py", "            rv.extend(self.all_method_dependencies(m, selection, cache_out_dir))", "            rv.extend(self.all_method_dependencies(m, selection))")],
    '''
def a(t):
    t.tln("a")
    return 1


@bt.depends_on(a)
def b(t, x):
    t.tln("b")
    return 2


@bt.depends_on(b)
def c(t, x):
    t.tln("c")


cases = [["test/a", a], ["test/b", b], ["test/c", c]]
run(cases, "-a")
os.remove("books/.out/test/b.bin")
rc, out = run(cases, "-a", "test/c")
assert "test/b.." in out and "test/a.." not in out, out
''')

bug("c15-running-dependency", "C15", "a dependency that is still running when another case ends",
    "only dependencies that have not been started yet hold a case back",
    [("booktest/runs.py", "                if dependency in self.todo and dependency not in self.done:", "                if dependency in todo:")],
    '''
project(x_test="""
import time
import booktest as bt


def test_slow(t):
    time.sleep(3)
    t.tln("slow")
    return "new"


def test_quick(t):
    t.tln("quick")


@bt.depends_on(test_slow)
def test_user(t, x):
    t.tln(x)
""")
rc, out = cli("-a", "-p3", "test")
assert rc == 0, out
''')

bug("c16-compares-values", "C16", "resources with one identifier, but different values",
    "resources are the same when their values are",
    [("booktest/dependencies.py", "isinstance(other, Resource) and self.identifier == other.identifier", "isinstance(other, Resource) and self.value == other.value")],
    '''
project(x_test="""
import os
import time
import booktest as bt


def use(t):
    fd = os.open("lock", os.O_CREAT | os.O_EXCL)
    time.sleep(1.5)
    os.close(fd)
    os.remove("lock")
    t.tln("ok")


@bt.depends_on(bt.Resource("first", "gpu"))
def test_a(t, x):
    use(t)


@bt.depends_on(bt.Resource("second", "gpu"))
def test_b(t, x):
    use(t)
""")
rc, out = cli("-a", "-p2", "test")
assert rc == 0, out
''')

bug("c17-asking-workers", "C17", "a parallel run with -I",
    "the worker processes ask questions, too",
    [("booktest/runs.py", "        job_config[\"always_interactive\"] = False\n", "")],
    '''
project(x_test="def test_a(t):\\n    t.tln('a')\\n")
cli("-a", "test")
rc, out = cli("-I", "-p1", "test", answers="c\\nc\\nc\\n")
assert rc == 0 and record() == {"test/x/a": "OK"}, (record(), out)
''')

bug("c19-unset-variable", "C19", "a variable that is not set and has no snapshot",
    "a variable that is not set needs no snapshot",
    [("booktest/env.py", "            elif self.complete_snapshots or self.refresh_snapshots:", "            elif self.complete_snapshots or self.refresh_snapshots or old_value is None:")],
    '''
@bt.snapshot_env("SOME_UNSET_VARIABLE")
def body(t):
    t.tln("x")


os.environ.pop("SOME_UNSET_VARIABLE", None)
run([["test/x", body]])
assert record()["test/x"] == "FAIL", record()
''')

bug("c21-httpx-keeps-unused", "C21", "a run that no longer sends a request it has a snapshot of",
    "snapshots that are no longer used are stored again",
    [("booktest/httpx.py", "        for snapshot in self.requests:\n            name", "        for snapshot in self.snapshots + self.requests:\n            name")],
    '''
import httpx, threading
from http.server import BaseHTTPRequestHandler, HTTPServer


class H(BaseHTTPRequestHandler):
    def do_GET(self):
        self.send_response(200)
        self.send_header("Content-Length", "0")
        self.end_headers()

    def log_message(self, *a):
        pass


s = HTTPServer(("127.0.0.1", 0), H)
threading.Thread(target=s.serve_forever, daemon=True).start()
url = f"http://127.0.0.1:{s.server_port}/"
todo = ["a", "b"]


@bt.snapshot_httpx()
def body(t):
    for u in todo:
        httpx.get(url + u)


run([["test/x", body]], "-s", "-a")
assert len(json.loads(read("books/test/x/.httpx.json"))) == 2
todo.pop(0)
run([["test/x", body]], "-a")
assert len(json.loads(read("books/test/x/.httpx.json"))) == 1
s.shutdown()
''')

bug("c22-empty-variable", "C22", "a mocked variable that was set to the empty string before",
    "a variable that was empty is unset after the test",
    [("booktest/env.py", "            if value is None:\n                if name in os.environ:\n                    del os.environ[name]\n            else:\n                os.environ[name] = self._old_env[name]",
      "            if not value:\n                if name in os.environ:\n                    del os.environ[name]\n            else:\n                os.environ[name] = self._old_env[name]")],
    '''
@bt.mock_env({"SOME_VARIABLE": "x"})
def body(t):
    t.tln(os.environ["SOME_VARIABLE"])


os.environ["SOME_VARIABLE"] = ""
run([["test/x", body]], "-a")
assert os.environ.get("SOME_VARIABLE") == "", os.environ.get("SOME_VARIABLE")
''')

bug("c23-first-ignored-header", "C23", "a request with two ignored headers",
    "only the last ignored header found is removed",
    [("booktest/httpx.py", "                        removed.append(header)", "                        removed = [header]")],
    '''
import httpx, threading
from http.server import BaseHTTPRequestHandler, HTTPServer


class H(BaseHTTPRequestHandler):
    def do_GET(self):
        self.send_response(200)
        self.send_header("Content-Length", "0")
        self.end_headers()

    def log_message(self, *a):
        pass


s = HTTPServer(("127.0.0.1", 0), H)
threading.Thread(target=s.serve_forever, daemon=True).start()
url = f"http://127.0.0.1:{s.server_port}/"


@bt.snapshot_httpx(lose_request_details=False, ignore_headers=["X-Key", "X-Token"])
def body(t):
    httpx.get(url, headers={"X-Key": "secret-1", "X-Token": "secret-2"})


run([["test/x", body]], "-s", "-a")
assert "secret" not in read("books/test/x/.httpx.json"), read("books/test/x/.httpx.json")
s.shutdown()
''')

bug("c24-skip-exact", "C24", "skipping a directory that is the name of a case as well",
    "a skip that equals a case's name skips that case only",
    [("booktest/tests.py", "                    return False\n                negatives += 1", "                    return False\n                if self.get_case(s) is not None:\n                    continue\n                negatives += 1")],
    '''
cases = [case("test/a", lambda t: t.tln("a")), case("test/b", lambda t: t.tln("b"))]
rc, out = run(cases, "-l", "skip:test/a")
assert out.split() == ["test/b"], out
''')

bug("c25-nested-index", "C25", "a file called index.md below a directory of the books",
    "files called index.md are kept at any place",
    [("booktest/tests.py", "                    p = path.join(root, f)\n                    if is_garbage(names, p):", "                    p = path.join(root, f)\n                    if f != \"index.md\" and is_garbage(names, p):")],
    '''
cases = [case("test/a", lambda t: t.tln("a"))]
run(cases, "-a")
write("books/old/index.md", "x")
rc, out = run(cases, "--garbage")
assert "books/old/index.md" in out, out
''')

bug("c26-equals-in-value", "C26", "a setting whose value holds an equals sign",
    "what follows a second equals sign is lost",
    [("booktest/config.py", "key, value = line.strip().split('=', 1)", "key, value = line.strip().split('=')[:2]")],
    '''
project(x_test="def test_a(t):\\n    t.tln('a')\\n")
write(".booktest", "diff_tool=meld --label=x=y\\n")
rc, out = cli("--config")
assert "diff_tool=meld --label=x=y" in out.split("\\n"), out
''')

bug("c27-own-name", "C27", "a test function made by another function",
    "test functions are told by the name they were defined with",
    [("booktest/detection.py", "elif isinstance(member, types.FunctionType) and name.startswith(\"test_\"):", "elif isinstance(member, types.FunctionType) and member.__name__.startswith(\"test_\"):")],
    '''
project(x_test="def make(x):\\n    def body(t):\\n        t.tln(x)\\n    return body\\n\\n\\ntest_one = make('1')\\ntest_two = make('2')\\n")
rc, out = cli("-l")
assert out.split() == ["test/x/one", "test/x/two"], out
''')

bug("c20-lost-encoding", "C20", "the text of a replayed response that is not in the encoding a client would guess",
    "the encoding of a response is forgotten",
    [("booktest/requests.py", "        response.encoding = response_json[\"encoding\"]\n", "")],
    '''
import requests, threading
from http.server import BaseHTTPRequestHandler, HTTPServer


class H(BaseHTTPRequestHandler):
    def do_GET(self):
        b = "grün äöü".encode()
        self.send_response(200)
        self.send_header("Content-Type", "text/html")
        self.send_header("Content-Length", str(len(b)))
        self.end_headers()
        self.wfile.write(b)

    def log_message(self, *a):
        pass


s = HTTPServer(("127.0.0.1", 0), H)
threading.Thread(target=s.serve_forever, daemon=True).start()
url = f"http://127.0.0.1:{s.server_port}/"


@bt.snapshot_requests()
def body(t):
    t.tln(str(len(requests.get(url).text)))


run([["test/x", body]], "-s", "-a")
rc, out = run([["test/x", body]])
assert rc == 0, out
s.shutdown()
''')
