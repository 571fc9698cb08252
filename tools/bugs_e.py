"""planted bugs: selection, garbage, configuration, detection, logs, caches, brackets, containment"""
BUGS = []


def bug(id, property, needs, what, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, what=what, edits=edits, demo=demo))


bug("c24-skip-stripped", "C24", "a skipped path, which starts with one of the letters of 'skip:'",
    "the skip: prefix is taken off with lstrip, which takes off letters of the path, too",
    [("booktest/tests.py", "                s = s[len(skip_key):]\n", "                s = s.lstrip(skip_key)\n")],
    '''
def ok(t):
    t.tln("x")


CASES = [case("test/a", ok), case("pipes/b", ok), case("pipes/c", ok)]
rc, out = run(CASES, "-l", "test", "pipes", "skip:pipes/b")
assert out.split() == ["test/a", "pipes/c"], out
''')

bug("c24-forget-by-prefix", "C24", "forgetting a case, whose name is the beginning of another case's name",
    "--forget matches the beginnings of names",
    [("booktest/tests.py", "            reports = [i for i in reports if i[0] not in cases]\n",
      "            reports = [i for i in reports if not i[0].startswith(tuple(cases))]\n")],
    '''
def ok(t):
    t.tln("x")


CASES = [case("test/a", ok), case("test/a2", ok), case("test/b", ok)]
run(CASES, "-a")
run(CASES, "--forget", "test/a")
assert set(record()) == {"test/a2", "test/b"}, record()
''')

bug("c25-attachment-prefix", "C25", "a file beside a snapshot, whose name only begins like it (test/x.md.orig)",
    "everything, which begins like a snapshot's path, is kept",
    [("booktest/tests.py", '                if ng.endswith("/") and file.startswith(ng):', '                if file.startswith(ng):')],
    '''
def ok(t):
    t.tln("x")


run([case("test/x", ok)], "-a")
write("books/test/x.md.orig", "old")
rc, out = run([case("test/x", ok)], "--garbage")
assert "books/test/x.md.orig" in out.split(), out
''')

bug("c25-links-followed", "C25", "a link to a directory outside of the books, below the books directory, and --clean",
    "the walk for garbage follows links out of the books directory",
    [("booktest/tests.py", "            for root, dirs, files in os.walk(root_dir):\n                for f in files:\n                    p = path.join(root, f)",
      "            for root, dirs, files in os.walk(root_dir, followlinks=True):\n                for f in files:\n                    p = path.join(root, f)")],
    '''
def ok(t):
    t.tln("x")


run([case("test/x", ok)], "-a")
write("data/precious.txt", "keep")
os.symlink(os.path.join(D, "data"), "books/data")
run([case("test/x", ok)], "--clean")
assert os.path.exists("data/precious.txt")
''')

bug("c25-clean-selection", "C25", "--clean with a selection",
    "the snapshots of cases outside of the selection are taken for garbage",
    [("booktest/tests.py", "            for name in self.all_names():\n                names.add", "            for name in cases:\n                names.add")],
    '''
def ok(t):
    t.tln("x")


CASES = [case("test/x", ok), case("test/y", ok)]
run(CASES, "-a")
run(CASES, "--clean", "test/x")
assert os.path.exists("books/test/y.md")
''')

bug("c26-trailing-comments", "C26", "a setting, whose value has a '#'",
    "everything after a '#' is dropped from the settings",
    [("booktest/config.py", "                key, value = line.strip().split('=', 1)", "                key, value = line.split('#')[0].strip().split('=', 1)")],
    '''
project(x_test="def test_a(t):\\n    t.tln('a')\\n")
write(".booktest", "diff_tool=show --colour=#fff\\nbooks_path=books\\n")
rc, out = cli("--config")
assert "diff_tool=show --colour=#fff" in out.splitlines(), out
''')

bug("c26-environment-cannot-switch-off", "C26", "a setting switched on in .booktest and off in the environment",
    "a false value of the environment does not override the settings file",
    [("booktest/config.py", "            rv[book_key] = parse_config_value(value)", "            rv[book_key] = parse_config_value(value) or rv.get(book_key, False)")],
    '''
project(x_test="def test_a(t):\\n    t.tln('a')\\n")
write(".booktest", "verbose=1\\n")
rc, out = cli("--config", env={"BOOKTEST_VERBOSE": "0"})
assert "verbose=False" in out.splitlines(), out
''')

bug("c27-digits-in-class-names", "C27", "a test book class with a digit before a capital letter",
    "a capital letter after a digit begins no new word",
    [("booktest/naming.py", "        is_prev_lower_case = not is_upper_case\n", "        is_prev_lower_case = i.islower()\n")],
    '''
project(x_test="import booktest as bt\\n\\n\\nclass Api2Client(bt.TestBook):\\n    def test_a(self, t):\\n        t.tln('a')\\n")
rc, out = cli("-l", "test")
assert out.split() == ["test/x/api2_client/a"], out
''')

bug("c27-helper-files", "C27", "a helper file with test_ in the middle of its name",
    "files with test_ anywhere in the name are read as test files",
    [("booktest/detection.py", '''                   (f.startswith("test_") and f.endswith(".py")):''', '''                   ("test_" in f and f.endswith(".py")):''')],
    '''
project(x_test="def test_a(t):\\n    t.tln('a')\\n", my_test_helpers="def test_helper(t):\\n    t.tln('a')\\n")
rc, out = cli("-l", "test")
assert out.split() == ["test/x/a"], out
''')

bug("c27-book-instance-default-arguments", "C27", "a test book class with arguments, which all have defaults",
    "classes with arguments are not instantiated, even if all of these have defaults",
    [("booktest/detection.py", '''            member_signature = signature(member)
            needed_arguments = 0
            for parameter in member_signature.parameters.values():
                if parameter.default == Parameter.empty:
                    needed_arguments += 1
            if needed_arguments == 0:''', '''            member_signature = signature(member)
            needed_arguments = len(member_signature.parameters)
            if needed_arguments == 0 or member.__init__ is bt.TestBook.__init__:''')],
    '''
project(x_test="""import booktest as bt


class Thing(bt.TestBook):
    def __init__(self, scale=2):
        super().__init__()
        self.scale = scale

    def test_a(self, t):
        t.tln('a')
""")
rc, out = cli("-l", "test")
assert out.split() == ["test/x/thing/a"], out
''')

bug("c28-redirected-stderr", "C28", "a run in a process, whose stderr has been redirected",
    "after a test the interpreter's stderr is put in place instead of the one found",
    [("booktest/testcaserun.py", "            sys.stderr = self.orig_err\n", "            sys.stderr = sys.__stderr__\n")],
    '''
def f(t):
    t.tln("x")


mine = io.StringIO()
with contextlib.redirect_stderr(mine):
    run(test(f), "-a")
    assert sys.stderr is mine
''')

bug("c28-no-handlers", "C28", "a process without log handlers",
    "the log handlers are put back only if there were any",
    [("booktest/testcaserun.py", "        if self.orig_handlers is not None:\n            logger", "        if self.orig_handlers:\n            logger")],
    '''
import logging


def f(t):
    t.tln("x")


assert logging.getLogger().handlers == []
run(test(f), "-a")
assert logging.getLogger().handlers == []
''')

bug("c28-first-handler-kept", "C28", "a test, which adds a log handler of its own",
    "the handlers are swapped in the list, which a test's addHandler changes: what the test adds stays behind",
    [("booktest/testcaserun.py", "        logger.handlers = [self.log]\n", "        self.orig_handlers = list(logger.handlers)\n        logger.handlers[:] = [self.log]\n"),
     ("booktest/testcaserun.py", "            logger.handlers = self.orig_handlers\n", "            logger.handlers[:1] = self.orig_handlers\n")],
    '''
import logging


def f(t):
    logging.getLogger().addHandler(logging.StreamHandler(sys.stderr))
    t.tln("x")


run(test(f), "-a")
assert logging.getLogger().handlers == [], logging.getLogger().handlers
''')

bug("c29-reads-do-not-count", "C29", "an entry, which was read after it was stored, and a full cache",
    "reading does not make an entry recently used",
    [("booktest/cache.py", "            self.__cache.move_to_end(key)\n            return self", "            return self")],
    '''
from booktest.cache import LruCache
c = LruCache(2)
c["a"] = 1
c["b"] = 2
c["a"]
c["c"] = 3
assert "a" in c and "b" not in c
''')

bug("c29-overwrite-evicts", "C29", "storing a new value for a key of a full cache",
    "a full cache evicts an entry, even if the key is held already",
    [("booktest/cache.py", "            self.__cache[key] = value\n            self.__cache.move_to_end(key)\n            if len(self.__cache) > self.__size:\n                self.__cache.popitem(last=False)",
      "            if len(self.__cache) >= self.__size:\n                self.__cache.popitem(last=False)\n            self.__cache[key] = value\n            self.__cache.move_to_end(key)")],
    '''
from booktest.cache import LruCache
c = LruCache(2)
c["a"] = 1
c["b"] = 2
c["b"] = 3
assert "a" in c and c["b"] == 3
''')

bug("c30-teardown-not-on-abort", "C30", "a run interrupted with ctrl-C",
    "the teardown is skipped, when the run ends with an exception which is no Exception",
    [("booktest/utils.py", "        try:\n            next(self._generator)\n", "        try:\n            if exc_type is None or issubclass(exc_type, Exception):\n                next(self._generator)\n")],
    '''
write("test/__init__.py", "")
write("test/__booktest__.py", """
def process_setup_teardown():
    open("log", "a").write("setup ")
    yield
    open("log", "a").write("teardown ")
""")
write("test/x_test.py", "def test_a(t):\\n    raise KeyboardInterrupt()\\n")
cli("test")
assert read("log") == "setup teardown ", read("log")
''')

bug("c30-nested-setup", "C30", "a setup file in a directory below a test path",
    "only the setup file in a test path itself is used",
    [("booktest/detection.py", "                if f == BOOKTEST_SETUP_FILENAME:", "                if f == BOOKTEST_SETUP_FILENAME and root == path:")],
    '''
project(x_test="def test_a(t):\\n    import os\\n    t.tln(os.environ.get('READY', 'no'))\\n")
write("test/sub/__init__.py", "")
write("test/sub/__booktest__.py", """
import os


def process_setup_teardown():
    os.environ["READY"] = "yes"
    yield
""")
cli("-a", "test")
assert read("books/test/x/a.md").strip() == "yes"
''')

bug("c30-review-outside", "C30", "a parallel run",
    "the worker processes start no setup of their own",
    [("booktest/runs.py", "            with self.setup.setup_teardown():\n                rv = test_result_to_exit_code(run.run())", "            rv = test_result_to_exit_code(run.run())")],
    '''
project(x_test="import test.state as state\\n\\n\\ndef test_a(t):\\n    t.tln(state.READY)\\n", state="READY = 'no'\\n")
write("test/__booktest__.py", """
import test.state as state


def process_setup_teardown():
    state.READY = "yes"
    yield
""")
cli("-a", "-p1", "test")
assert read("books/test/x/a.md").strip() == "yes", read("books/test/x/a.md")
''')

bug("c31-variables-in-path", "C31", "a books directory with a '$' in its name",
    "variables are expanded in the path of the outputs, but not in the path of the books",
    [("booktest/tests.py", '        out_dir = os.path.join(root_dir, ".out")', '        out_dir = os.path.expandvars(os.path.join(root_dir, ".out"))')],
    '''
def ok(t):
    t.tln("x")


os.environ["TEAM"] = "blue"
run([case("test/x", ok)], "-a", root="books$TEAM")
assert sorted(os.listdir(".")) == ["books$TEAM"], os.listdir(".")
''')

bug("c32-parallel-index-of-results", "C32", "a parallel run of some cases, when other cases have not been run yet",
    "parallel runs list in the index the cases with results only",
    [("booktest/runs.py", "                create_index(exp_dir, tests.all_names())",
      "                create_index(exp_dir, [name for name in tests.all_names()\n                                       if name in {r[0] for r in updated_case_reports.cases}])")],
    '''
project(x_test="def test_a(t):\\n    t.tln('a')\\n\\n\\ndef test_b(t):\\n    t.tln('b')\\n")
cli("-a", "-p1", "test/x/a")
assert "[b](test/x/b.md)" in read("books/index.md"), read("books/index.md")
''')
