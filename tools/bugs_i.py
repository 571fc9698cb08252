"""planted bugs: torn records, repeated sections, coverage files, arguments of other types"""
BUGS = []


def bug(id, property, needs, what, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, what=what, edits=edits, demo=demo))


bug("c11-torn-record-counts", "C11", "a crash while a case's line is written to the record, then a run with -c",
    "a line that ends after the name is taken for a passed case of an old version",
    [("booktest/reports.py", """                    case_name = parts[0]
                    result_str = parts[1]
""", """                    case_name = parts[0]
                    # records of old versions list the passed cases only
                    result_str = parts[1] if len(parts) > 1 else "OK"
"""), ("booktest/reports.py", """                    duration = float(parts[2])
""", """                    duration = float(parts[2]) if len(parts) > 2 else 0.0
""")],
    '''
project(a_test="""
def test_a(t):
    t.tln("a")


def test_b(t):
    t.tln("b")
    t.fail()
""")
rc, out = cli("-a")
text = read("books/.out/cases.txt")
at = text.index("test/a/b") + len("test/a/b")
write("books/.out/cases.txt", text[:at])
rc, out = cli("-c", "test/a")
assert "test/a/b.." in out and rc != 0, (rc, out)
''')

bug("c03-first-anchor-of-the-file", "C03", "a header that occurs twice, with different tested content below",
    "anchors are always looked up from the beginning of the snapshot",
    [("booktest/testcaserun.py", """            at_line_number = self.exp_line_number

            # scan, until the anchor is found
""", """            at_line_number = self.exp_line_number

            if self.exp_line is not None and not is_line_ok(self.exp_line):
                # sections may have moved upwards
                self.jump(begin)

            # scan, until the anchor is found
""")],
    '''
INFO = ["more", "lines"]


def test_a(t):
    for i in "abc":
        t.h1("run")
        t.tln(f"result {i}")
        for j in INFO:
            t.iln(j)


rc, out = run(test(test_a), "-a")
INFO.pop()
rc, out = run(test(test_a))
assert rc == 0, out
''')

bug("c31-coverage-configuration-removed", "C31", "--cov in a project with a .coveragerc",
    "all files whose names begin with .coverage are removed before the run, also the configuration",
    [("booktest/tests.py", """                    if i.startswith(".coverage."):
""", """                    if i.startswith(".coverage"):
""")],
    '''
project(a_test="""
def test_a(t):
    t.tln("a")
""")
write(".coveragerc", "[run]\\n")
rc, out = cli("-a", "--cov")
assert read(".coveragerc") == "[run]\\n", out
''')

bug("c20-whole-floats", "C20", "calls of a snapshotted function with 1 and with 1.0",
    "whole floating point numbers are taken for the integers",
    [("booktest/functions.py", """            "args": list(args),
""", """            # some platforms print whole numbers without the fraction
            "args": [int(i) if isinstance(i, float) and i.is_integer() else i for i in args],
""")],
    '''
write("mod_k.py", "def kind(x):\\n    return type(x).__name__\\n")
sys.path.insert(0, os.getcwd())
import mod_k


@bt.snapshot_functions(mod_k.kind)
def body(t):
    t.tln(mod_k.kind(1))
    t.tln(mod_k.kind(1.0))


run([["test/x", body]], "-s", "-a", "-u")
rc, out = run([["test/x", body]], "-a")
assert read("books/test/x.md").split()[:2] == ["int", "float"], read("books/test/x.md")
''')

bug("c01-trailing-blanks", "C01", "a change, by which a line loses tested content of blanks at its end",
    "what remains of the expected line is not compared, if it is blank",
    [("booktest/testcaserun.py", """           and token != exp_token \\
           and check:
""", """           and token != exp_token \\
           and not (token == '\\n' and str(exp_token).isspace()) \\
           and check:
""")],
    '''
def test_a(t):
    t.tln("key:   ")


rc, out = run(test(test_a), "-a")


def test_a(t):
    t.tln("key:")


rc, out = run(test(test_a))
assert rc != 0, out
''')
