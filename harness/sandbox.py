"""
Runs the code under test as an unprivileged user inside a scratch directory.

A `Farm` forks worker processes that drop to uid 54321, change into their own
scratch directory, import booktest from /repo and then execute jobs.  A job is
(driver module, function, JSON argument); it runs in a forked child of the
worker, so nothing a job does to the process survives it, and a hang or a crash
of the code under test is an observation, not an error of the harness.
"""
import atexit, importlib, json, os, select, shutil, signal, struct, sys, tempfile, time, traceback

UID = 54321
REPO = os.environ.get("VERIF_REPO", "/repo")

_scratch = []
_owner = os.getpid()


def scratch(prefix="btv-"):
    d = tempfile.mkdtemp(prefix=prefix, dir="/tmp")
    os.chmod(d, 0o755)
    _scratch.append(d)
    return d


@atexit.register
def _cleanup():
    if os.getpid() != _owner:
        return
    for d in _scratch:
        shutil.rmtree(d, ignore_errors=True)


def drop(home):
    """become the unprivileged user, whose home is `home`"""
    if os.getuid() == 0:
        os.setgroups([])
        os.setgid(UID)
        os.setuid(UID)
    for k in list(os.environ):
        if k.startswith("BOOKTEST_"):
            del os.environ[k]
    os.environ["HOME"] = home
    os.environ["TMPDIR"] = home
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.environ["MPLCONFIGDIR"] = home
    for k in ("http_proxy", "https_proxy", "HTTP_PROXY", "HTTPS_PROXY", "all_proxy", "ALL_PROXY"):
        os.environ.pop(k, None)
    sys.dont_write_bytecode = True


def _send(fd, obj):
    b = json.dumps(obj).encode()
    b = struct.pack("<I", len(b)) + b
    while b:
        n = os.write(fd, b)
        b = b[n:]


def _recv(fd, deadline=None):
    def get(n):
        r = b""
        while len(r) < n:
            if deadline is not None:
                left = deadline - time.time()
                if left <= 0 or not select.select([fd], [], [], left)[0]:
                    raise TimeoutError()
            x = os.read(fd, min(1 << 20, n - len(r)))
            if not x:
                raise EOFError()
            r += x
        return r
    n = struct.unpack("<I", get(4))[0]
    return json.loads(get(n))


def _quiet(path="/dev/null"):
    fd = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o644)
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    os.close(fd)


def _kill_group(pgid):
    try:
        os.killpg(pgid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass


def _limits():
    import resource
    resource.setrlimit(resource.RLIMIT_FSIZE, (256 << 20, 256 << 20))
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def in_child(fn, timeout):
    """runs fn() in a forked child; returns {"status": done|hang|crash, "value"/"error"}"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            os.setpgid(0, 0)
            _limits()
            try:
                v = {"status": "done", "value": fn()}
            except BaseException:
                v = {"status": "crash", "error": traceback.format_exc()[-3000:]}
            _send(w, v)
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    try:
        os.setpgid(pid, pid)
    except OSError:
        pass
    try:
        rv = _recv(r, time.time() + timeout)
    except TimeoutError:
        rv = {"status": "hang", "error": f"no end within {timeout} s"}
    except EOFError:
        rv = {"status": "crash", "error": "process died"}
    os.close(r)
    _kill_group(pid)
    os.waitpid(pid, 0)
    return rv


class Farm:
    def __init__(self, n=None, preload=("booktest",), paths=()):
        self.n = n or int(os.environ.get("VERIF_JOBS", "8"))
        self.root = scratch()
        os.chmod(self.root, 0o755)
        self.workers = []
        for k in range(self.n):
            home = os.path.join(self.root, f"w{k}")
            os.mkdir(home)
            if os.getuid() == 0:
                os.chown(home, UID, UID)
            self.workers.append(self._spawn(home, preload, paths))
        self.errors = []

    def _spawn(self, home, preload, paths):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                for w in self.workers:
                    os.close(w[1])
                    os.close(w[2])
                os.setpgid(0, 0)
                drop(home)
                os.chdir(home)
                _quiet()
                sys.path.insert(0, REPO)
                for p in paths:
                    sys.path.insert(0, p)
                err = None
                try:
                    for m in preload:
                        importlib.import_module(m)
                except BaseException:
                    err = traceback.format_exc()
                _send(w2, {"ready": err is None, "error": err})
                while True:
                    job = _recv(r1)
                    if job is None:
                        break
                    rv = self._work(job, home)
                    _send(w2, rv)
            except (EOFError, BrokenPipeError):
                pass
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        return (pid, w1, r2, home)

    def _work(self, job, home):
        mod, fn, arg, timeout = job["mod"], job["fn"], job["arg"], job["timeout"]
        d = tempfile.mkdtemp(prefix="job-", dir=home)

        def f():
            os.chdir(d)
            return getattr(importlib.import_module(mod), fn)(arg)
        try:
            return in_child(f, timeout)
        finally:
            os.chdir(home)
            try:
                shutil.rmtree(d)
            except OSError:
                os.system(f"chmod -R u+rwx {d}")
                shutil.rmtree(d, ignore_errors=True)

    def start(self):
        """waits for the workers; returns an error text when booktest cannot be imported"""
        err = None
        for w in self.workers:
            x = _recv(w[2], time.time() + 120)
            err = err or x["error"]
        return err

    def map(self, mod, fn, args, timeout=60):
        """yields (index, result) as jobs finish"""
        todo = list(enumerate(args))[::-1]
        busy = {}
        idle = list(self.workers)
        while todo or busy:
            while todo and idle:
                w = idle.pop()
                i, a = todo.pop()
                _send(w[1], {"mod": mod, "fn": fn, "arg": a, "timeout": timeout})
                busy[w[2]] = (w, i)
            ready, _, _ = select.select(list(busy), [], [], timeout + 60)
            if not ready:
                raise RuntimeError("worker does not answer")
            for fd in ready:
                w, i = busy.pop(fd)
                yield i, _recv(fd)
                idle.append(w)

    def run(self, mod, fn, args, timeout=60):
        rv = [None] * len(args)
        for i, r in self.map(mod, fn, args, timeout):
            rv[i] = r
        return rv

    def close(self):
        for pid, w, r, home in self.workers:
            try:
                os.close(w)
                os.close(r)
            except OSError:
                pass
            _kill_group(pid)
            try:
                os.waitpid(pid, 0)
            except ChildProcessError:
                pass
        self.workers = []
        shutil.rmtree(self.root, ignore_errors=True)
