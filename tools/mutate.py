#!/usr/bin/env python3
"""mutate.py OUT [SEED] [FILE ...]: mutates booktest line by line (in copies of /repo); mutants that the stable tests
pass are given to the checks; appends one JSON line per mutant to OUT.  Survivors show what the checks do not judge
(or changes without an effect)."""
import ast, glob, json, os, random, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plant import sh, tests, V, PY
CHECKS = {"testcaserun.py": "C01 C04 C06 C05 C03 C02 C28 C08 C31", "tokenizer.py": "C01 C06 C02",
          "runs.py": "C17 C15 C16 C18 C09 C30 C32 C12", "testrun.py": "C09 C13 C14 C11 C10 C12 C05 C32",
          "reports.py": "C10 C11 C09 C08", "review.py": "C08 C07 C09 C12 C32 C05 C10 C31 C28",
          "tests.py": "C15 C24 C13 C25 C26 C09 C31 C32 C14 C16", "dependencies.py": "C14 C13 C16 C27", "detection.py": "C27 C30 C26",
          "naming.py": "C27 C22", "setup.py": "C26 C30", "config.py": "C26", "cli.py": "C26 C30 C09",
          "env.py": "C21 C22 C20 C19", "functions.py": "C21 C20 C22 C19", "requests.py": "C21 C20 C23 C22 C19",
          "httpx.py": "C21 C20 C23 C22 C19", "cache.py": "C29 C14", "utils.py": "C22 C14 C27", "testsuite.py": "C27 C24",
          "testbook.py": "C27 C14", "coroutines.py": "C22 C15", "__init__.py": "C27", "booktest.py": "C09", "__main__.py": "C26"}
SWAP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.In: "not in",
        ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}


def mutants(src):
    """(line, description, text)"""
    tree = ast.parse(src)
    lines = src.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()
    pos = lambda line, col: off[line - 1] + col
    rv = []

    def put(n, new, what):
        s, e = pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)
        t = (b[:s] + new.encode() + b[e:]).decode()
        try:
            ast.parse(t)
        except SyntaxError:
            return
        rv.append((n.lineno, what + ": " + b[s:e].decode()[:70] + " -> " + new[:70], t))
    seg = lambda n: b[pos(n.lineno, n.col_offset):pos(n.end_lineno, n.end_col_offset)].decode()
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef, ast.AsyncFunctionDef)) and n.body \
                and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0].value)
            docs.add(n.body[0])
    for n in ast.walk(tree):
        if n in docs:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            put(n, seg(n.left) + " " + SWAP[type(n.ops[0])] + " " + seg(n.comparators[0]), "cmp")
        elif isinstance(n, ast.BoolOp):
            put(n, (" or " if isinstance(n.op, ast.And) else " and ").join("(" + seg(v) + ")" for v in n.values), "bool")
            for k in range(len(n.values)):
                put(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join(
                    "(" + seg(v) + ")" for j, v in enumerate(n.values) if j != k) + ")", "term")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(n, seg(n.operand), "not")
        elif isinstance(n, (ast.If, ast.While)):
            put(n.test, "(not (" + seg(n.test) + "))", "if")
            if isinstance(n, ast.If):
                put(n.test, "True", "if")
                put(n.test, "False", "if")
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            put(n, str(not n.value), "const")
        elif isinstance(n, ast.Constant) and isinstance(n.value, int):
            put(n, str(n.value + 1), "const")
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            put(n, seg(n.left) + (" - " if isinstance(n.op, ast.Add) else " + ") + seg(n.right), "op")
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Break, ast.Continue, ast.Delete, ast.Assert)):
            put(n, "pass", "del")
        elif isinstance(n, ast.Return) and n.value is not None:
            put(n, "return None", "ret")
        elif isinstance(n, ast.Call) and len(n.args) + len(n.keywords) > 1 and n.keywords:
            k = n.keywords[-1]
            if k.arg:
                put(n, "".join([seg(n.func), "(", ", ".join([seg(a) for a in n.args] + [f"{x.arg}={seg(x.value)}" if x.arg else "**" + seg(x.value)
                                                                                        for x in n.keywords[:-1]]), ")"]), "kw")
    return rv


def trial(m):
    f, line, what, text = m
    copy = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    try:
        shutil.rmtree(copy)
        shutil.copytree("/repo", copy, symlinks=True, ignore=shutil.ignore_patterns(".git"))
        os.chmod(copy, 0o755)
        open(f"{copy}/booktest/{f}", "w").write(text)
        if tests(copy):
            return {"state": "tests"}
        for c in CHECKS[f].split():
            r = sh(f"nice {PY} {V}/check.py {c}", env=dict(os.environ, VERIF_REPO=copy, VERIF_SEED="1", VERIF_SCALE="0.3", VERIF_TLC_CACHE="/tmp/w/tlc"))
            if r.returncode:
                return {"state": "caught", "by": c, "rc": r.returncode,
                        "how": [l[:120] for l in r.stdout.split("\n") if l.startswith(c + " [")][:1]}
        return {"state": "SURVIVED"}
    except Exception as e:
        return {"state": "error " + str(e)[:200]}
    finally:
        shutil.rmtree(copy, ignore_errors=True)


def main():
    out, seed = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 1
    files = sys.argv[3:] or [os.path.basename(x) for x in glob.glob("/repo/booktest/*.py")]
    r = random.Random(seed)
    todo = []
    for f in sorted(files):
        src = open(f"/repo/booktest/{f}").read()
        by = {}
        for line, what, text in mutants(src):
            by.setdefault(line, []).append((f, line, what, text))
        for line in sorted(by):
            todo += r.sample(by[line], min(len(by[line]), 1))
    r.shuffle(todo)
    done = set()
    if os.path.exists(out):
        done = {(x["file"], x["line"]) for x in map(json.loads, open(out))}
    todo = [m for m in todo if (m[0], m[1]) not in done]
    print(len(todo), "mutants", flush=True)
    from concurrent.futures import ThreadPoolExecutor
    def go(m):
        x = {"file": m[0], "line": m[1], "what": m[2], **trial(m)}
        with open(out, "a") as f:
            f.write(json.dumps(x) + "\n")
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "3"))) as ex:
        list(ex.map(go, todo))


if __name__ == "__main__":
    main()
