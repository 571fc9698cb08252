"""planted bugs: comparison and runs"""
BUGS = []


def bug(id, property, needs, what, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, what=what, edits=edits, demo=demo))


bug("c01-numbers-by-value", "C01", "a tested number changes its spelling, not its value (1.0 to 1.00)",
    "tokens are compared as numbers, so a changed number format passes",
    [("booktest/testcaserun.py", """        if self.exp_file_exists \\
           and token != exp_token \\
           and check:
            self.diff()
        if token == '\\n':""", """        if self.exp_file_exists \\
           and not self.same_token(token, exp_token) \\
           and check:
            self.diff()
        if token == '\\n':"""),
     ("booktest/testcaserun.py", """    def feed_token(self, token, check=False):""",
      """    def same_token(self, token, exp_token):
        if token == exp_token:
            return True
        try:
            return float(token) == float(exp_token)
        except (TypeError, ValueError):
            return False

    def feed_token(self, token, check=False):""")],
    """
run(test(lambda t: t.tln("x 1.0 y")), "-a")
rc, out = run(test(lambda t: t.tln("x 1.00 y")))
assert rc != 0 and record()["test/x"] == "DIFF", record()
""")

bug("c03-anchor-ignores-case", "C03", "two sections whose titles differ only in case, visited in another order",
    "anchors match snapshot lines case-insensitively, so a section is compared with another section",
    [("booktest/testcaserun.py", "return self.seek(lambda x: x == anchor, begin, end)",
      "return self.seek(lambda x: x.lower() == anchor.lower(), begin, end)")],
    """
def a(t):
    t.h1("one")
    t.tln("upper first")
    t.h1("One")
    t.tln("other")


def b(t):
    t.h1("One")
    t.tln("other")
    t.h1("one")
    t.tln("upper first")


run(test(a), "-a")
assert run(test(a))[0] == 0
rc, out = run(test(b))
assert rc == 0, record()
""")

bug("c04-set-length-only", "C04", "a set that loses one element while another occurs twice",
    "a leftover element of the snapshot's set is noticed only when the number of elements is wrong",
    [("booktest/testcaserun.py", "                if i_str in compare:\n", "                if line in (prefix + c for c in known):\n"),
     ("booktest/testcaserun.py", "                    compare.remove(i_str)\n", "                    compare.pop()\n"),
     ("booktest/testcaserun.py", "        for i in items:\n            i_str = self.writable(str(i))\n",
      "        known = list(compare or [])\n        for i in items:\n            i_str = self.writable(str(i))\n")],
    """
def emit(items):
    def f(t):
        t.tln("set:")
        t.tset(items)
        t.tln("end")
    return f


run(test(emit(["a", "b", "c"])), "-a")
assert run(test(emit(["c", "a", "b"])))[0] == 0
rc, out = run(test(emit(["a", "b", "b"])))
assert rc != 0 and record()["test/x"] == "DIFF", record()
""")

bug("c06-tokenizer-digits-in-words", "C06", "a sign directly before a number with a trailing dot and digits, e.g. 1.2.3",
    "the tokenizer drops a dot inside version-like numbers",
    [("booktest/tokenizer.py", """                   and self.buf[i+1].isnumeric():
                    i = i + 1
                    while i < len(self.buf) and self.buf[i].isnumeric():
                        i = i + 1
                self.at = i
""", """                   and self.buf[i+1].isnumeric():
                    i = i + 1
                    while i < len(self.buf) and self.buf[i].isnumeric():
                        i = i + 1
                    if i + 1 < len(self.buf) and self.buf[i] == '.' and self.buf[i+1] in "+-":
                        # a version with a sign, such as 1.2.-3
                        self.at = i + 1
                        return self.buf[begin:i]
                self.at = i
""")],
    """
run(test(lambda t: t.tln("v 1.2.-3")), "-a")
assert read("books/test/x.md") == "v 1.2.-3\\n", read("books/test/x.md")
""")

bug("c05-review-accepts-failure", "C05", "a failing test reviewed interactively, answered 'a' although it is not offered",
    "the answer 'a' accepts a failed test",
    [("booktest/review.py", """        if answer == "a" and test_result != TestResult.FAIL:
            user_request""", """        if answer == "a":
            user_request""")],
    """
def f(t):
    t.tln("bad")
    t.fail()
    t.tln("worse")


rc, out = run(test(f), "-i", answers="a\\nc\\n")
assert rc != 0 and record()["test/x"] == "FAIL", record()
assert not os.path.exists("books/test/x.md")
""")

bug("c07-accept-also-ok", "C07", "auto-accept while a case is ok but its ignored output changed",
    "-a installs the output of cases that are ok, too",
    [("booktest/review.py", """       (rv == TestResult.DIFF and auto_freeze)):""", """       (rv != TestResult.FAIL and auto_freeze)):""")],
    """
def f(x):
    def g(t):
        t.tln("same")
        t.iln(x)
    return g


run(test(f("one")), "-a")
run(test(f("two")), "-a")
assert read("books/test/x.md") == "same\\none\\n", read("books/test/x.md")
""")

bug("c08-stale-attachments", "C08", "a run that was not accepted wrote an attachment, the next run writes others and is accepted",
    "attachments of the previous run are purged only when the case has a snapshot",
    [("booktest/testcaserun.py", """        if path.exists(self.out_dir_name):
            shutil.rmtree(self.out_dir_name)
""", """        if self.exp_file_exists and path.exists(self.out_dir_name):
            shutil.rmtree(self.out_dir_name)
""")],
    """
def f(name):
    def g(t):
        with open(t.file(name), "w") as h:
            h.write("x")
        t.tln("text")
    return g


run(test(f("one.txt")))
run(test(f("two.txt")), "-a")
assert os.listdir("books/test/x") == ["two.txt"], os.listdir("books/test/x")
""")

bug("c09-partial-review-status", "C09", "a review of a selection that is ok, while another recorded case is not",
    "the exit status of a review looks only at the reviewed cases",
    [("booktest/review.py", """                   (fail_fast and reviewed_result != TestResult.OK):
                    abort = True

        if reviewed_result != TestResult.OK:
            rv = -1
""", """                   (fail_fast and reviewed_result != TestResult.OK):
                    abort = True

                if reviewed_result != TestResult.OK:
                    rv = -1
""")],
    """
cs = [case("test/x", lambda t: t.tln("x")), case("test/y", lambda t: t.fail())]
rc, out = run(cs, "-a")
assert rc != 0 and record() == {"test/x": "OK", "test/y": "FAIL"}, record()
rc, out = run(cs, "-w", "test/x")
assert rc != 0
""")

bug("c11-results-not-flushed", "C11", "the process is killed in the middle of a run",
    "results are buffered, so that a kill loses the results of finished cases",
    [("booktest/reports.py", """        file_handle.write(
            f"{case_name}\\t{res.name}\\t{duration}\\n")
        file_handle.flush()
""", """        file_handle.write(
            f"{case_name}\\t{res.name}\\t{duration}\\n")
""")],
    """
cs = [case("test/x", lambda t: t.tln("x")), case("test/y", lambda t: os._exit(9))]
pid = os.fork()
if pid == 0:
    run(cs, "-a")
    os._exit(0)
os.waitpid(pid, 0)
assert record() == {"test/x": "OK"}, record()
""")

bug("c12-diff-does-not-stop", "C12", "fail-fast with a case that differs instead of failing",
    "fail-fast stops only at failures, not at differences",
    [("booktest/testrun.py", """                   (self.fail_fast and fails > 0):""", """                   (self.fail_fast and rv == TestResult.FAIL):""")],
    """
ran = []
cs = [case("test/x", lambda t: (ran.append("x"), t.tln("x"))), case("test/y", lambda t: (ran.append("y"), t.tln("y")))]
run(cs, "-f")
assert ran == ["x"], ran
""")

bug("c13-stored-result-stops-closure", "C13",
    "a chain of three selected cases listed in reverse, run again when results are stored",
    "the dependencies of a dependency whose result is stored are not looked at, and run after their dependents",
    [("booktest/tests.py", """            m = self.get_case(dependency)
            rv.extend(self.all_method_dependencies(m, selection, cache_out_dir))
            rv.append(dependency)
""", """            m = self.get_case(dependency)
            if cache_out_dir is None \\
               or not self.test_result_exists(cache_out_dir, dependency):
                rv.extend(self.all_method_dependencies(m, selection, cache_out_dir))
            rv.append(dependency)
""")],
    """
ran = []


def a(t):
    ran.append("a")
    t.tln("a")
    return 1


@bt.depends_on(a)
def b(t, x):
    ran.append("b")
    t.tln("b")
    return 2


@bt.depends_on(b)
def c(t, x):
    ran.append("c")
    t.tln("c")


cs = [["test/c", c], ["test/b", b], ["test/a", a]]
run(cs, "-a")
assert ran == ["a", "b", "c"], ran
ran.clear()
run(cs)
assert ran == ["a", "b", "c"], ran
""")

bug("c32-index-heading-lost", "C32", "a case directly below a path that other cases continue, e.g. test/a, test/s/x, test/b",
    "headings are skipped when a path is a prefix of the previous one",
    [("booktest/review.py", """                write("\\n")
                for i in range(cut, len(name_domain)):""", """                write("\\n")
                for i in range(max(cut, min(1, len(domain))), len(name_domain)):""")],
    """
cs = [case("test/a", lambda t: t.tln("a")), case("book/b", lambda t: t.tln("b"))]
run(cs, "-a")
ls = read("books/index.md").split("\\n")
assert " * book" in ls and " * test" in ls, ls
""")
