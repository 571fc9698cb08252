"""Executes histories of invocations; every segment of a history is one process."""
import json, os, re, shutil, signal, sys, time
from . import suites as s
from .sandbox import in_child


def listing(inv, text, names):
    if inv["cmd"] != "list":
        return []
    ls = [l for l in text.split("\n") if l.strip()]
    if inv.get("via") == "--print":
        return text.split("\n")[:-1]
    if inv.get("via") == "--view":
        return []
    if inv.get("via") == "--path":
        return [os.path.relpath(os.path.realpath(l.strip()), os.path.realpath(s.BOOKS[1]))[:-3] for l in ls]
    return [l.strip() for l in ls]


def started():
    """the tools started since, with files relative to the books directory"""
    if not os.path.exists(TOOLS):
        return []
    rv = []
    for block in open(TOOLS).read().split("@@\n")[1:]:
        ls = block.split("\n")[:-1]
        rv.append(ls[:1] + [os.path.relpath(os.path.realpath(l), os.path.realpath(s.BOOKS[1])) for l in ls[1:]])
    os.remove(TOOLS)
    return rv


OWN = re.compile(r"^(journal\d+|obs\d+|tools|setups|events|tool\.sh|\.booktest)$")
TOOLS = "tools"


def elsewhere():
    """all files and directories outside the books directory and not of the harness: path -> content"""
    rv = {}
    books = os.path.realpath(s.BOOKS[1])
    for root, dirs, files in os.walk("."):
        dirs[:] = [d for d in dirs if os.path.realpath(os.path.join(root, d)) != books]
        for d in dirs:
            rv[os.path.join(root, d)] = "/"
        for f in files:
            p = os.path.join(root, f)
            if not (root == "." and OWN.match(f)):
                rv[p] = s.read(p) if not os.path.islink(p) else "->" + os.readlink(p)
    return rv


class Gate:
    """holds every test body at its start and lets them go on in a given order (in its own process)"""
    def __init__(self, names, plan, path):
        self.path = path
        self.fd = os.open(path, os.O_RDWR | os.O_CREAT | os.O_APPEND | os.O_TRUNC)
        self.pipes = {n: os.pipe() for n in names}
        self.main = os.getpid()
        if "int" in plan:
            signal.signal(signal.SIGINT, signal.default_int_handler)
        self.pid = os.fork()
        if self.pid == 0:
            try:
                signal.signal(signal.SIGINT, signal.SIG_IGN)
                self.control(plan)
            finally:
                os._exit(0)
        s.HOOKS["gate"] = self.start
        s.HOOKS["end"] = self.end

    def say(self, kind, c):
        os.write(self.fd, (json.dumps({"k": kind, "c": c}) + "\n").encode())

    def start(self, c, t):
        self.say("start", c)
        os.read(self.pipes[c][0], 1)

    def end(self, c):
        self.say("end", c)

    def events(self):
        return [json.loads(l) for l in open(self.path).read().split("\n")[:-1]]

    def control(self, plan):
        order, batch, settle = plan["order"], plan.get("batch", [1]), plan.get("settle", 0.012)
        rank = {c: k for k, c in enumerate(order)}
        released, last, since, turn = set(), 0, time.time(), 0
        stop = plan.get("int")
        while True:
            time.sleep(0.001)
            size = os.fstat(self.fd).st_size
            if size != last:
                last, since = size, time.time()
                continue
            if time.time() - since < settle:
                continue
            waiting = [e["c"] for e in self.events() if e["k"] == "start" and e["c"] not in released]
            waiting.sort(key=lambda c: rank.get(c, 99))
            if waiting and stop is not None and turn >= stop:
                # interrupted by the terminal, or by somebody else, while it waits for the tests
                if time.time() - since < 0.25:
                    continue
                stop = None
                self.say("int", "")
                os.kill(self.main, signal.SIGINT) if plan.get("alone") else os.killpg(self.main, signal.SIGINT)
                continue
            for c in waiting[:batch[turn % len(batch)]]:
                released.add(c)
                os.write(self.pipes[c][1], b"xx")
            if waiting:
                turn, since = turn + 1, time.time()

    def close(self):
        os.kill(self.pid, 9)
        os.waitpid(self.pid, 0)
        s.HOOKS.pop("gate")
        s.HOOKS.pop("end")
        for a, b in self.pipes.values():
            os.close(a)
            os.close(b)
        os.close(self.fd)


def run_steps(suite, names, steps, jpath, opath, layers={}):
    tests = s.build(suite)
    import booktest as bt
    s.JOURNAL[0] = os.open(jpath, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    if any(st["inv"].get("p") for st in steps) or "parallel" in json.dumps(layers).lower():
        s.fork_context()
    caches = {}
    listed = [c["name"] for c in suite["cases"]]
    for st in steps:
        env(st.get("env", []))
        if st.get("other"):
            # another process runs in between, and this one keeps what it has in memory
            r = in_child(lambda: one_step(tests, names, listed, st, jpath, opath, {}), 25)
            if r["status"] != "done":
                raise RuntimeError(str(r)[:2000])
        else:
            one_step(tests, names, listed, st, jpath, opath, caches)
    return True


def one_step(tests, names, listed, st, jpath, opath, caches):
    inv = st["inv"]
    s.CURRENT.clear()
    s.CURRENT.update(st["sc"])
    os.ftruncate(s.JOURNAL[0], 0)
    pre = s.world(names, listed)
    before = elsewhere()
    with open(opath, "a") as f:
        f.write(json.dumps({"pre": pre}) + "\n")
    cap = inv["cap"]
    if cap not in caches:
        caches[cap] = {} if cap == 999 else bt_cache(cap)
    gate = Gate(names, st["gate"], os.path.abspath("events")) if st.get("gate") and inv.get("p") else None
    if st.get("kill"):
        sys.addaudithook(s.Killer(st["kill"], os.getcwd()))
    rc, text, error = s.invoke(tests, inv, caches[cap], books=s.BOOKS[0], setup=setup_of(st.get("setup")))
    after = elsewhere()
    obs = {"status": "done", "tools": started(),
           "outside": sorted(p for p in before.keys() | after.keys() if before.get(p) != after.get(p)), "rc": rc, "error": error, "log": [json.loads(l) for l in open(jpath)],
           "sum": s.summary(text), "shown": s.shown(text), "reported": s.reported(text), "list": listing(inv, text, names),
           "w": s.world(names, listed), "extra": s.stray(names), "stdout": text[-1500:]}
    if gate:
        obs["events"] = gate.events()
        gate.close()
    with open(opath, "a") as f:
        f.write(json.dumps({"obs": obs}) + "\n")


def bt_cache(cap):
    from booktest.cache import LruCache, NoCache
    return NoCache() if cap == 0 else LruCache(cap)


def setup_of(breaks):
    """a process setup, which breaks down in its n-th uses"""
    from booktest.detection import BookTestSetup
    if not breaks:
        return None
    path = os.path.abspath("setups")
    open(path, "w").close()
    s.HOOKS["setup"] = (path, breaks)
    return BookTestSetup(s.setup)


def env(ops):
    for o in ops:
        if o[1].startswith("books/"):
            o = [o[0], s.BOOKS[1] + o[1][5:]] + o[2:]
        if o[0] == "write":
            os.makedirs(os.path.dirname(o[1]) or ".", exist_ok=True)
            with open(o[1], "w") as f:
                f.write(o[2])
        elif o[0] == "mkdir":
            if os.path.isfile(o[1]):
                os.remove(o[1])
            os.makedirs(o[1], exist_ok=True)
        elif o[0] == "link":
            os.symlink(o[2], o[1])
        elif o[0] == "tear":
            # a write, that did not get to its end
            if os.path.exists(o[1]):
                data = open(o[1], "rb").read()
                # so many bytes, or what follows the name in the last line
                n = o[2] if o[2] != "name" else len(data[data.find(b"\t", data[:-1].rfind(b"\n") + 1):])
                os.truncate(o[1], max(0, len(data) - n))
        elif o[0] == "rm":
            if os.path.isdir(o[1]):
                shutil.rmtree(o[1])
            elif os.path.exists(o[1]):
                os.remove(o[1])


def run_history(arg):
    """arg: {suite, segments: [{env, steps}]}; returns the recorded steps"""
    suite = arg["suite"]
    names = [c["name"] for c in suite["cases"]]
    s.BOOKS[:] = [b.replace("@CWD@", os.getcwd()) for b in arg.get("books") or ["books", "books"]]
    env(arg.get("env", []))
    os.makedirs("home", exist_ok=True)
    os.makedirs(s.BOOKS[1], exist_ok=True)
    rv = []
    for n, seg in enumerate(arg["segments"]):
        env(seg.get("env", []))
        with open("tool.sh", "w") as f:
            f.write('{ echo "@@"; for f in "$@"; do printf "%s\\n" "$f"; done; } >> ' + TOOLS + '\n')
        listed = [c["name"] for c in (seg.get("suite") or suite)["cases"]]
        jpath, opath = os.path.abspath(f"journal{n}"), os.path.abspath(f"obs{n}")
        open(opath, "w").close()
        
        y = seg.get("layers", {})
        for f, k in ((".booktest", "proj"), ("home/.booktest", "home")):
            if os.path.exists(f):
                os.remove(f)
            if y.get(k):
                with open(f, "w") as o:
                    o.write("".join(l + "\n" for l in y[k]))

        def segment():
            os.environ.update(y.get("env", {}))
            os.environ["HOME"] = os.path.abspath("home")
            return run_steps(seg.get("suite") or suite, names, seg["steps"], jpath, opath, y)
        r = in_child(segment, arg.get("timeout", 30))
        ls = [json.loads(l) for l in open(opath)]
        for k, st in enumerate(seg["steps"]):
            x = {"inv": st["inv"], "sc": st["sc"], "fresh": k == 0, "killed": False, "layers": y, "suite": seg.get("suite")}
            if 2 * k < len(ls):
                x["pre"] = ls[2 * k]["pre"]
            else:
                break
            if 2 * k + 1 < len(ls):
                x["obs"] = ls[2 * k + 1]["obs"]
            else:
                died = bool(st.get("kill")) and r["status"] == "crash" and "process died" in r["error"]
                x["killed"] = died
                x["obs"] = {"status": "killed" if died else r["status"], "error": r.get("error"),
                            "w": s.world(names, listed), "rc": "",
                            "log": [json.loads(l) for l in open(jpath)] if os.path.exists(jpath) else [], "sum": {"n": -1, "failed": []},
                            "shown": [], "list": [], "extra": s.stray(names), "tools": [], "outside": []}
                if st.get("gate") and os.path.exists("events"):
                    x["obs"]["events"] = [json.loads(l) for l in open("events").read().split("\n")[:-1]]
                rv.append(x)
                if not died:
                    return rv
                break
            rv.append(x)
    return rv
