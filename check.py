#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE]"""
import argparse, importlib, json, os, sys, traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from harness.common import Check

FAMILY = {**{p: "fam_compare" for p in ("C01", "C02", "C03", "C04", "C06")},
          "C05": "fam_compare fam_run fam_par",
          **{p: "fam_par" for p in ("C15", "C16", "C17", "C18")},
          **{p: "fam_run fam_par" for p in ("C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C24", "C32")},
          "C26": "fam_run fam_proj", "C31": "fam_run fam_proj",
          "C22": "fam_nest", "C28": "fam_log", "C29": "fam_lru",
          **{p: "fam_proj" for p in ("C25", "C27", "C30")},
          **{p: "fam_snap" for p in ("C19", "C20", "C21", "C23")}}


def setup():
    """the tools this framework needs are there"""
    import subprocess
    from harness import tlc
    p = subprocess.run(["java", "-cp", tlc.CP, "tlc2.TLC", "-h"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    ok = b"TLC" in p.stdout
    print("TLC found" if ok else "TLC missing")
    return 0 if ok else 1


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--tier")
    ap.add_argument("--seed", type=int)
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.setup:
        return setup()
    chk = Check(a.prop, a.tier, a.seed)
    data = json.load(open(a.replay)) if a.replay else None
    fams = FAMILY[a.prop].split()
    if data:
        fams = [f for f in fams if f == data["data"].get("family", fams[0])]
    try:
        for f in fams:
            importlib.import_module("harness." + f).check(chk, data)
    except BaseException:
        traceback.print_exc()
        if not chk.violations:
            print(f"{a.prop}: machinery error")
            return 2
    return chk.finish()


if __name__ == "__main__":
    sys.exit(main())
