"""planted bugs: interruptions, images, nested snapshots, parallel capture"""
BUGS = []


def bug(id, property, needs, what, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, what=what, edits=edits, demo=demo))


bug("c10-parallel-record-at-the-end", "C10", "a parallel run that is interrupted after some cases have ended",
    "the record is written when all cases were reviewed, so an interrupted run keeps nothing",
    [("booktest/runs.py", """            CaseReports.write_case(
                report_f,
                case_name,
                result,
                duration)
            reviewed.append((case_name, result, duration))
""", """            reviewed.append((case_name, result, duration))
"""), ("booktest/runs.py", """                    record_case(
                        case_name,
                        reviewed_result,
                        duration)

""", """                    record_case(
                        case_name,
                        reviewed_result,
                        duration)

                for case_name, result, duration in reviewed:
                    CaseReports.write_case(report_f, case_name, result, duration)

""")],
    '''
import signal, subprocess, time
project(a_test="""import os, time


def test_a(t):
    t.tln("a")


def test_b(t):
    t.tln("b")
    open("started", "w").close()
    while not os.path.exists("go"):
        time.sleep(0.05)
""")
p = subprocess.Popen([sys.executable, "-m", "booktest", "-p2", "-a"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                     preexec_fn=lambda: signal.signal(signal.SIGINT, signal.default_int_handler))
until = time.time() + 60
while not os.path.exists("started") and time.time() < until:
    time.sleep(0.05)
time.sleep(3)
p.send_signal(signal.SIGINT)
time.sleep(1)
write("go", "")
out = p.communicate(timeout=60)[0]
assert "test/a/a.." in out, out
assert record().get("test/a/a") == "OK", (record(), out)
''')

bug("c02-trailing-tabs", "C02", "a tested line that ends in a tab",
    "the snapshot is read without it, and never equals the output",
    [("booktest/testcaserun.py", "                        BufferIterator(TestTokenizer(self.exp_line))\n", "                        BufferIterator(TestTokenizer(self.exp_line.rstrip(\"\\t\")))\n")],
    '''
cs = test(lambda t: t.tln("a").tln("b\\t").tln("c"))
run(cs, "-a")
assert run(cs)[0] == 0
''')

bug("c08-files-by-first-megabyte", "C08", "attachments named by their content, whose first megabyte is the same",
    "a file renamed to its hash takes the name, and the place, of another one",
    [("booktest/testcaserun.py", """                for chunk in iter(lambda: f.read(4096), b""):
                    sha1.update(chunk)
""", """                sha1.update(f.read(1 << 20))
""")],
    '''

def f(t):
    for end in ("one", "two"):
        p = t.file("x.png")
        write(p, "=" * 1200000 + end)
        t.rename_file_to_hash(p, ".png")
    t.tln("x")


assert run([["test/x", f]], "-a")[0] == 0
assert len(os.listdir("books/test/x")) == 2, os.listdir("books/test/x")
''')

bug("c21-parallel-does-not-complete", "C21", "a missing snapshot, and a parallel run with -s",
    "workers do not capture snapshots",
    [("booktest/runs.py", """        job_config["continue"] = False
        job_config["interactive"] = False
""", """        for key in ["continue", "interactive", "complete_snapshots"]:
            job_config[key] = False
""")],
    '''
project(a_test="""import booktest as bt


@bt.snapshot_env("BTDEMO")
def test_a(t):
    import os
    t.tln(os.environ["BTDEMO"])
""")
rc, out = cli("-p2", "-s", "-a", env={"BTDEMO": "x"})
assert rc == 0, out
rc, out = cli(env={"BTDEMO": "y"})
assert rc == 0, out
''')

bug("c19-inner-snapshot-uncovers", "C19", "a request after the end of a snapshot within another one",
    "ending a request snapshot puts the library's own send in place, although an outer snapshot is active",
    [("booktest/requests.py", "            self._mock_target.send = self._last_send\n", "            self._mock_target.send = _original_send\n")],
    '''
import requests
SENT = []


class Adapter(requests.adapters.HTTPAdapter):
    def send(self, request, **kwargs):
        SENT.append(request.url)
        r = requests.Response()
        r.status_code, r._content, r.url, r.request, r.encoding = 200, b"answer", request.url, request, "utf-8"
        return r


requests.adapters.HTTPAdapter.send = Adapter.send


def get(n):
    return requests.get("http://127.0.0.1:9/" + n).text


@bt.snapshot_requests()
async def f(t):
    @bt.snapshot_requests()
    def inner(t):
        t.tln(get("inner"))
    t.tln(get("before"))
    await inner(t)
    t.tln(get("after"))


cs = [["test/x", f]]
run(cs, "-s", "-a")
del SENT[:]
run(cs)
assert SENT == [], SENT
''')
