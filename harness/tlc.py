"""Running TLC and reading its results."""
import json, os, re, shutil, subprocess, tempfile, time

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcError(Exception):
    """the machinery failed (not a verdict about booktest)"""


class Result:
    def __init__(self):
        self.generated = self.distinct = self.depth = 0
        self.printed = []        # JSON values printed with "@V "
        self.violated = None     # name of a violated invariant / property of the specification
        self.output = ""
        self.wall = 0.0
        self.coverage = {}       # action -> (distinct, generated)


def run(module, cfg=None, env=None, **k):
    """a run of TLC; what does not depend on booktest may be kept between the runs of a mutation trial (tools/mutate.py)"""
    kept = os.environ.get("VERIF_TLC_CACHE")
    if not kept or env:
        return run_tlc(module, cfg, env, **k)
    import hashlib, pickle
    path = os.path.join(kept, hashlib.sha1(repr((module, cfg, sorted(k.items(), key=str))).encode()).hexdigest())
    if not os.path.exists(path):
        with open(f"{path}.{os.getpid()}", "wb") as f:
            pickle.dump(run_tlc(module, cfg, env, **k), f)
        os.replace(f"{path}.{os.getpid()}", path)
    with open(path, "rb") as f:
        return pickle.load(f)


def run_tlc(module, cfg=None, env=None, workers=4, timeout=600, extra=(), heap="3g", check=True,
        simulate=None, coverage=False, quick_jit=True, consts=None):
    meta = tempfile.mkdtemp(prefix="btv-tlc-")
    cmd = ["java", "-Xmx" + heap, "-XX:+UseParallelGC", "-Dfile.encoding=UTF-8",
           "-Dstdout.encoding=UTF-8", "-Xss64m", "-Djava.io.tmpdir=" + meta]
    if quick_jit:
        cmd += ["-XX:TieredStopAtLevel=1"]
    cmd += ["-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE"]
    if consts:
        src = open(os.path.join(SPEC, (cfg or module + ".cfg"))).read()
        for k, v in consts.items():
            src, n = re.subn(rf"(?m)^(\s*{k}\s*=\s*).*$", lambda m: m.group(1) + str(v), src)
            if n != 1:
                raise TlcError(f"no constant {k} in the configuration of {module}")
        cfg = os.path.join(meta, module + ".cfg")
        with open(cfg, "w") as f:
            f.write(src)
    if cfg:
        cmd += ["-config", cfg]
    if simulate:
        cmd += ["-simulate", simulate]
    if coverage:
        cmd += ["-coverage", "1"]
    cmd += list(extra) + [module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout)
        out, rc = p.stdout.decode("utf-8", "replace"), p.returncode
    except subprocess.TimeoutExpired as x:
        raise TlcError(f"TLC timed out on {module}: " + (x.stdout or b"").decode("utf-8", "replace")[-2000:])
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    r = Result()
    r.wall = time.time() - t0
    rest = []
    for line in out.split("\n"):
        if line.startswith('"@V '):
            r.printed.append(json.loads(json.loads(line)[3:]))
        else:
            rest.append(line)
    r.output = "\n".join(rest)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", r.output)
    if m:
        r.generated, r.distinct = int(m.group(1)), int(m.group(2))
    m = re.search(r"depth of the complete state graph search is (\d+)", r.output)
    if m:
        r.depth = int(m.group(1))
    m = re.search(r"(?:Invariant|Action property|Temporal properties|property) (\S+) (?:is|was|were) violated", r.output)
    if m:
        r.violated = m.group(1)
    elif "is violated" in r.output or "were violated" in r.output or "Deadlock reached" in r.output:
        r.violated = "property"
    for m in re.finditer(r"^<(\w+) line .*?>: (\d+):(\d+)", r.output, re.M):
        r.coverage[m.group(1)] = (int(m.group(2)), int(m.group(3)))
    if check and (rc != 0 or r.violated):
        raise TlcError(f"TLC failed on {module} (exit {rc}, {r.violated}):\n" + r.output[-4000:])
    if not check and rc != 0 and not r.violated:
        raise TlcError(f"TLC failed on {module} (exit {rc}):\n" + r.output[-4000:])
    return r
