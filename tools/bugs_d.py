"""planted bugs: snapshots and mocks"""
BUGS = []


def bug(id, property, needs, what, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, what=what, edits=edits, demo=demo))


SERVER = '''
import threading
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer
HITS = []
ANSWER = [200, "text/plain; charset=utf-8", b"answer"]


class H(BaseHTTPRequestHandler):
    def log_message(self, *a):
        pass

    def do_GET(self):
        n = int(self.headers.get("Content-Length") or 0)
        self.rfile.read(n)
        HITS.append(self.path)
        self.send_response(ANSWER[0])
        self.send_header("Content-Type", ANSWER[1])
        self.send_header("Content-Length", str(len(ANSWER[2])))
        self.end_headers()
        self.wfile.write(ANSWER[2])
    do_POST = do_GET


S = ThreadingHTTPServer(("127.0.0.1", 0), H)
S.daemon_threads = True
threading.Thread(target=S.serve_forever, daemon=True).start()
URL = "http://127.0.0.1:%d" % S.server_address[1]
import httpx, requests
'''

bug("c19-error-answers-asked-again", "C19", "a recorded answer with an error status, replayed with requests",
    "a replayed response is tested for truth instead of presence: answers with status 400 and above are fetched for real",
    [("booktest/requests.py", """        if rv is None:
            try:""", """        if not rv:
            try:""")],
    SERVER + '''
@bt.snapshot_requests()
def f(t):
    t.tln(str(requests.get(URL + "/x").status_code))


ANSWER[0] = 404
assert run([["test/x", f]], "-s", "-a", "-u")[0] == 0
assert len(HITS) == 1
assert run([["test/x", f]])[0] == 0
assert len(HITS) == 1, HITS
''')

bug("c19-first-function-call-is-real", "C19", "a test without any function snapshot, run without -s",
    "a missing snapshot only fails a test that has some snapshots already",
    [("booktest/functions.py", """        if not self.capture_snapshots:
            raise ValueError(f"missing snapshot for function""", """        if self.snapshots and not self.capture_snapshots:
            raise ValueError(f"missing snapshot for function""")],
    '''
import sys
REAL = []


def real(x):
    REAL.append(x)
    return x


sys.modules["__main__"].real = real


@bt.snapshot_functions(real)
def f(t):
    t.iln(str(real(1)))


run([["test/x", f]])
assert not REAL, REAL
assert record()["test/x"] == "FAIL", record()
''')

bug("c21-refresh-reads-legacy-store", "C21", "a store in the old one-file-per-request layout, refreshed with -S",
    "refreshing discards the new store only, and goes on answering from the old layout",
    [("booktest/httpx.py", """        if os.path.exists(self.legacy_mock_path) and not self.refresh_snapshots:
""", """        if os.path.exists(self.legacy_mock_path):
""")],
    SERVER + '''
GOT = []


@bt.snapshot_httpx()
def f(t):
    GOT.append(httpx.get(URL + "/x").text)
    t.tln("x")


assert run([["test/x", f]], "-s", "-a", "-u")[0] == 0
p = "books/test/x/.httpx.json"
for k, v in json.loads(read(p)).items():
    write("books/test/x/.httpx/" + k + ".json", json.dumps(v))
os.remove(p)
assert run([["test/x", f]])[0] == 0 and GOT[-1] == "answer"
ANSWER[2] = b"new"
assert run([["test/x", f]], "-S")[0] == 0
assert GOT[-1] == "new", GOT
''')

bug("c21-completion-records-real-environment", "C21", "-s with a variable that has a snapshot and a different real value, followed by acceptance and a replay",
    "completing replays the known value but stores the real one",
    [("booktest/env.py", """                self.capture[name] = value
            elif""", """                self.capture[name] = old_value if self.complete_snapshots else value
            elif""")],
    '''
GOT = []


@bt.snapshot_env("BT_A")
def f(t):
    GOT.append(os.environ.get("BT_A"))
    t.tln("x")


os.environ["BT_A"] = "1"
run([["test/x", f]], "-s", "-a", "-u")
os.environ["BT_A"] = "2"
run([["test/x", f]], "-s", "-a", "-u")
run([["test/x", f]], "-a", "-u")
assert GOT == ["1", "1", "1"], GOT
''')

bug("c22-set-variable-changed-by-the-test", "C22", "mock_missing_env with a variable that is set, which the test changes",
    "only variables that were missing are remembered",
    [("booktest/env.py", """            old_value = os.environ.get(name)
            self._old_env[name] = old_value

            if old_value is None:
                if value is not None:
""", """            old_value = os.environ.get(name)

            if old_value is None:
                self._old_env[name] = old_value
                if value is not None:
""")],
    '''
@bt.mock_missing_env({"BT_A": "m", "BT_B": "m"})
def f(t):
    os.environ["BT_A"] = "changed"
    t.tln(os.environ["BT_B"])


os.environ["BT_A"] = "mine"
run([["test/x", f]])
assert os.environ["BT_A"] == "mine" and "BT_B" not in os.environ, os.environ["BT_A"]
''')

bug("c22-unwritable-answer-leaves-library-patched", "C22", "answers that cannot be stored (the test removes its directory of files) captured with requests",
    "the snapshots are written before the library is restored",
    [("booktest/requests.py", """        if self._last_send:
            self._mock_target.send = self._last_send
            self._last_send = None

        # let's store everything in one file to avoid spamming git
""", """        # let's store everything in one file to avoid spamming git
"""), ("booktest/requests.py", """        with open(self.mock_out_file, "w") as f:
            json.dump(stored, f, indent=4)
""", """        with open(self.mock_out_file, "w") as f:
            json.dump(stored, f, indent=4)

        if self._last_send:
            self._mock_target.send = self._last_send
            self._last_send = None
""")],
    SERVER + '''
@bt.snapshot_requests()
def f(t):
    t.tln(str(len(requests.get(URL + "/x").content)))
    shutil.rmtree("books/.out/test/x")


before = requests.Session.send
run([["test/x", f]], "-s")
assert requests.Session.send is before, requests.Session.send
''')

bug("c23-ignored-header-case", "C23", "a header named in the ignore list in another letter case than it is sent",
    "the ignore list is compared with lower-cased header names as it is written",
    [("booktest/httpx.py", """set([i.lower() for i in ignore_headers])""", """set(ignore_headers)""")],
    SERVER + '''
@bt.snapshot_httpx(ignore_headers=["X-Secret", "host", "user-agent", "accept", "accept-encoding", "connection"], lose_request_details=False)
def f(t):
    httpx.get(URL + "/x", headers={"X-Secret": "hidden-value"})
    t.tln("x")


run([["test/x", f]], "-s", "-a", "-u")
for root, ds, fs in os.walk("books"):
    for n in fs:
        assert b"hidden-value" not in open(os.path.join(root, n), "rb").read(), n
''')

bug("c23-body-kept-without-headers", "C23", "a request with a body and the default options",
    "the body is removed only together with headers, which the default options have removed before",
    [("booktest/requests.py", """            if "headers" in rv:
                del rv["headers"]
            if "body" in rv:
                del rv["body"]
""", """            if "headers" in rv:
                del rv["headers"]
                rv.pop("body", None)
""")],
    SERVER + '''
import base64


@bt.snapshot_requests()
def f(t):
    requests.post(URL + "/x", data="hidden-body!")
    t.tln("x")


run([["test/x", f]], "-s", "-a", "-u")
for root, ds, fs in os.walk("books"):
    for n in fs:
        assert base64.b64encode(b"hidden-body!") not in open(os.path.join(root, n), "rb").read(), n
''')
