"""planted bugs: parallel runs"""
BUGS = []


def bug(id, property, needs, what, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, what=what, edits=edits, demo=demo))


MARKS = '''
import time


def mark(x):
    import os
    fd = os.open("marks", os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    os.write(fd, (x + chr(10)).encode())
    os.close(fd)


def body(name, took):
    mark("start " + name)
    time.sleep(took)
    mark("end " + name)
'''

bug("c15-last-dependency-decides", "C15", "a case with two dependencies taking part, of which the one declared first is slower",
    "the scheduler starts a case as soon as the dependency it looked at last has finished",
    [("booktest/runs.py", """            runnable = True
            for dependency in self.dependencies[name]:
                if dependency in self.todo and dependency not in self.done:
                    runnable = False
""", """            runnable = True
            for dependency in sorted(self.dependencies[name]):
                runnable = dependency not in self.todo or dependency in self.done
""")],
    f'''
project(x_test="""import booktest as bt
{MARKS}

def test_a(t):
    body("a", 2.0)
    return 1


def test_b(t):
    body("b", 0.0)
    return 2


@bt.depends_on(test_a, test_b)
def test_c(t, a, b):
    body("c", 0.0)
    t.tln(str(a) + str(b))
""")
cli("-p3")
ms = read("marks").split("\\n")
assert ms.index("end a") < ms.index("start c"), ms
''')

bug("c15-dependency-prefix-of-selection", "C15", "a case selected by its own name, with a dependency that is not selected but has no stored result",
    "in a parallel run dependencies outside of the selection are taken for finished",
    [("booktest/runs.py", """            for dependency in tests.method_dependencies(method, cases):
                dependencies[name].add(dependency)""", """            for dependency in tests.method_dependencies(method, cases, out_dir):
                # what has a result already can be used right away
                if not tests.test_result_exists(out_dir, dependency):
                    dependencies[name].add(dependency)""")],
    f'''
project(x_test="""import booktest as bt, os
{MARKS}

def test_a(t):
    body("a", 2.0 if os.path.exists("slow") else 0.0)
    return 1


@bt.depends_on(test_a)
def test_c(t, a):
    body("c", 0.0)
    t.tln(str(a))
""")
cli("-p2")
write("slow", "")
os.remove("marks")
cli("-p2")
ms = read("marks").split("\\n")
assert ms.index("end a") < ms.index("start c"), ms
''')

bug("c16-release-too-much", "C16", "two holders of different resources, one finishing while the other runs and a third waits for the other's",
    "when a case finishes, the resources of all running cases become available",
    [("booktest/runs.py", """                self.reserved_resources -= self.resources[i]
""", """                self.reserved_resources = self.reserved_resources & self.resources[i] - self.resources[i]
""")],
    f'''
project(x_test="""import booktest as bt
{MARKS}

@bt.depends_on(bt.port(80))
def test_a(t, p):
    body("a", 3.0)


@bt.depends_on(bt.port(81))
def test_b(t, p):
    body("b", 0.0)


@bt.depends_on(bt.port(80))
def test_c(t, p):
    body("c", 0.0)
""")
cli("-p3")
ms = read("marks").split("\\n")
a, b, c, d = [ms.index(x) for x in ("start a", "end a", "start c", "end c")]
assert b < c or d < a, ms
''')

bug("c16-same-plan-shares", "C16", "two cases with a common resource become ready at the same time",
    "resources are only checked against running cases, not against others started in the same round",
    [("booktest/runs.py", """                rv.append(name)
                reserved_resources |= self.resources[name]
""", """                rv.append(name)
                reserved_resources = reserved_resources | self.reserved_resources
""")],
    f'''
project(x_test="""import booktest as bt
{MARKS}

@bt.depends_on(bt.port(80))
def test_a(t, p):
    body("a", 2.0)


@bt.depends_on(bt.Resource(80, "port=80"))
def test_b(t, p):
    body("b", 2.0)
""")
cli("-p2")
ms = read("marks").split()
assert ms.index("end") == 2, ms
''')

bug("c17-old-batches-count", "C17", "results of an earlier parallel run, killed before it ended, and a case that now breaks down before reporting",
    "the directory of batch reports is not emptied, when it lies there from an earlier run",
    [("booktest/runs.py", """    if os.path.exists(_batch_dir):
""", """    if os.path.exists(_batch_dir) and not os.path.exists(os.path.join(out_dir, "cases.txt")):
""")],
    '''
project(x_test="""
def test_a(t):
    t.tln("a")
""")
write("test/__booktest__.py", """
import os


def process_setup_teardown():
    if os.path.exists("broken"):
        raise ValueError("no setup")
    yield
""")
cli("-p2", "-a")
write("broken", "")
rc, out = cli("-p2")
assert rc != 0 and record()["test/x/a"] == "FAIL", (rc, record(), out)
''')

bug("c17-unreviewed-result-recorded", "C17", "a differing case that is accepted in a parallel run",
    "parallel runs record the result before acceptance",
    [("booktest/runs.py", """                    record_case(
                        case_name,
                        reviewed_result,
                        duration)""", """                    record_case(
                        case_name,
                        result,
                        duration)""")],
    '''
project(x_test="""
def test_a(t):
    t.tln("a")
""")
rc, out = cli("-p2", "-a")
assert rc == 0 and record()["test/x/a"] == "OK", (rc, record(), out)
''')

bug("c18-left-counts-reports-only", "C18", "a case that breaks down in its worker without leaving a report, e.g. in the process setup",
    "a case without a report is not passed to the review, so the run waits for it or loses it",
    [("booktest/runs.py", """                else:
                    reports.append(CaseReports.make_case(i, TestResult.FAIL, 0))

            with self.lock:
                self.left -= len(reports)""", """

            with self.lock:
                self.left -= len(done_tasks)""")],
    '''
project(x_test="""
def test_a(t):
    t.tln("a")
    raise KeyboardInterrupt()


def test_b(t):
    t.tln("b")
""")
rc, out = cli("-p2", "-a")
assert rc != 0 and record() == {"test/x/a": "FAIL", "test/x/b": "OK"}, (rc, record(), out)
''')
