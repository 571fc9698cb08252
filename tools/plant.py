#!/usr/bin/env python3
"""plant.py ID [CHECK ...]: tries a planted bug in a copy of /repo: applies, stable tests, demo, checks (in a copy)"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def tests(copy):
    d = tempfile.mkdtemp(prefix="plant-t-", dir="/tmp")
    try:
        for n in ("test.sh",):
            s = open("/opt/vp/" + n).read().replace("/repo", copy).replace("/opt/booktest-work", d + "/w")
            open(d + "/" + n, "w").write(s)
        sh(f"bash {d}/test.sh {d}/o.json")
        o = json.load(open(d + "/o.json"))
        b = json.load(open("/opt/vp/BASELINE.json"))
        return sorted(set(b["stable"]) - set(o["passed"]))
    finally:
        shutil.rmtree(d)


def main():
    i = sys.argv[1]
    src = os.path.join(V, "seeded", i)
    meta = json.load(open(src + "/meta.json"))
    copy = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    demo = tempfile.mkdtemp(prefix="plantd-", dir="/tmp")
    ok = True
    try:
        shutil.rmtree(copy)
        shutil.copytree("/repo", copy, symlinks=True)
        os.chmod(copy, 0o755)
        for f in os.listdir(src):
            if not f.endswith((".diff", ".patch")) and f != "meta.json":
                shutil.copy(os.path.join(src, f), demo)
        r = sh(f"bash {demo}/demo.sh", cwd=copy, timeout=300)
        if r.returncode:
            print("DEMO FAILS ON UNCHANGED TREE\n" + r.stdout[-2000:]); ok = False
        r = sh(f"git apply {src}/patch.diff", cwd=copy)
        if r.returncode:
            print("DOES NOT APPLY", r.stdout); return 1
        t = tests(copy)
        if t:
            print("TESTS FAIL", t); ok = False
        r = sh(f"bash {demo}/demo.sh", cwd=copy, timeout=300)
        if not r.returncode:
            print("DEMO PASSES WITH THE BUG\n" + r.stdout[-2000:]); ok = False
        print(i, meta["property"], "valid" if ok else "INVALID", flush=True)
        cs = sys.argv[2:] or [meta["property"]]
        for c in cs:
            r = sh(f"{PY} {V}/check.py {c}", env=dict(os.environ, VERIF_REPO=copy, VERIF_SEED="1"))
            v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
            print("  ", c, "CAUGHT" if r.returncode == 1 and v else f"missed (exit {r.returncode})",
                  [l[:160] for l in r.stdout.split("\n") if l.startswith(c + " [")][:3], flush=True)
    finally:
        shutil.rmtree(copy, ignore_errors=True)
        shutil.rmtree(demo, ignore_errors=True)
    return 0 if ok else 1


if __name__ == "__main__":
    sys.exit(main())
