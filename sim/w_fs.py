"""Publication of JavaScript modules by several simulated processes in one directory.

Every process is a thread of the cooperative scheduler; every file system call is a point at
which the scheduler may switch, stall the process, make the call fail or let the process die.
The file system is a scratch directory; the clock, process numbers and randomness are
simulated."""
from __future__ import annotations

import builtins
import errno
import hashlib
import io
import json
import os
import random
import shutil
import tempfile
import time

from sim import boot
from sim.threads import Crash, Sched

boot.install()

import filecmp  # noqa: E402

from reactpy import config  # noqa: E402
from reactpy.reactjs import module as rmodule  # noqa: E402
from reactpy.reactjs import utils as rutils  # noqa: E402

try:
    import fcntl
except ImportError:  # pragma: no cover
    fcntl = None

PAGE = 24  # bytes a simulated read or write transfers at most
NAMES = ["mod", "mod", "mod", "pkg/inner", "@scope/thing", "lib@1.2/deep/er", "other"]
real = {k: getattr(os, k) for k in (
    "open", "close", "read", "write", "stat", "lstat", "unlink", "remove", "replace", "rename",
    "link", "symlink", "mkdir", "rmdir", "chmod", "utime", "fsync", "readlink", "listdir",
    "scandir", "getpid", "kill", "urandom", "truncate", "ftruncate", "access")}
real_open, real_io_open = builtins.open, io.open
real_time = {k: getattr(time, k) for k in ("time", "monotonic", "sleep", "time_ns",
                                           "monotonic_ns", "perf_counter")}
CUR = None  # the world being run


def shape(i):
    # versions 2k and 2k+1 have the same size
    return (i // 2) % 3, 1 + ((i // 2) * 3) % 5


def content(i):
    accents, n = shape(i)
    body = [f"// version {i} {'é' * accents}"]
    for j in range(n):
        body.append(f"export function Comp{i}x{j}() {{ return {i * 1000 + j}; }}")
    return "\n".join(body) + "\n"


def names_of(i):
    return {f"Comp{i}x{j}" for j in range(shape(i)[1])}


# ------------------------------------------------------------------ the file system seam
def me():
    return CUR.sched.here() if CUR is not None else None


def guard(path):
    """a call that changes something must stay in the scratch directory"""
    p = os.path.abspath(os.fspath(path))
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if not (p + "/").startswith(CUR.root + "/"):
        CUR.violate("outside", f"a publisher touched {p}")
        raise PermissionError(errno.EACCES, "outside of the scratch directory", p)


def call(kind, path=None, mutates=False):
    t = me()
    CUR.sched.point()
    CUR.syscall(t, kind, path)
    if mutates and path is not None:
        guard(path)


def wrap(name, mutates=False, npath=1):
    f = real[name]

    def fn(*a, **k):
        if me() is None:
            return f(*a, **k)
        p = a[0] if a and isinstance(a[0], (str, bytes, os.PathLike)) else None
        call(name, p, mutates)
        if npath == 2 and mutates:
            guard(a[1])
        return f(*a, **k)

    return fn


def sim_open_fd(path, flags, mode=0o777, **k):
    t = me()
    if t is None:
        return real["open"](path, flags, mode, **k)
    call("open", path, bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)))
    fd = real["open"](path, flags, mode, **k)
    t.fds.add(fd)
    if flags & (os.O_CREAT | os.O_TRUNC):
        CUR.touch(fd)
    return fd


def sim_close(fd):
    t = me()
    if t is None:
        return real["close"](fd)
    call("close")
    t.fds.discard(fd)
    return real["close"](fd)


def sim_read(fd, n):
    if me() is None:
        return real["read"](fd, n)
    call("read")
    return real["read"](fd, min(n, PAGE))


def sim_write(fd, data):
    if me() is None:
        return real["write"](fd, data)
    call("write")
    n = real["write"](fd, bytes(data)[:PAGE])  # short writes are allowed
    CUR.touch(fd)
    return n


class SimRaw(io.RawIOBase):
    """an open file of a simulated process: data reaches the file in several calls, and what
    is still buffered when the process dies is lost"""

    def __init__(self, fd, readable, writable):
        self._fd, self._r, self._w = fd, readable, writable

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def fileno(self):
        return self._fd

    def seek(self, pos, whence=0):
        return os.lseek(self._fd, pos, whence)

    def tell(self):
        return os.lseek(self._fd, 0, 1)

    def truncate(self, size=None):
        call("ftruncate")
        real["ftruncate"](self._fd, self.tell() if size is None else size)
        return size

    def readinto(self, b):
        data = os.read(self._fd, len(b))
        b[: len(data)] = data
        return len(data)

    def write(self, b):
        return os.write(self._fd, b)

    def close(self):
        if not self.closed:
            super().close()
            t = me()
            if self._fd is not None and (t is None or self._fd in t.fds):
                os.close(self._fd)


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
    if me() is None:
        return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    plus, text = "+" in mode, "b" not in mode
    r = "r" in mode or plus
    w = "r" not in mode or plus
    if isinstance(file, int):
        fd = file
    else:
        flags = (os.O_RDWR if r and w else os.O_WRONLY if w else os.O_RDONLY) | os.O_CLOEXEC
        if "w" in mode:
            flags |= os.O_CREAT | os.O_TRUNC
        elif "x" in mode:
            flags |= os.O_CREAT | os.O_EXCL
        elif "a" in mode:
            flags |= os.O_CREAT | os.O_APPEND
        fd = opener(file, flags) if opener else os.open(file, flags, 0o666)
    raw = SimRaw(fd, r, w)
    if buffering == 0:
        return raw
    buf = io.BufferedRandom(raw) if r and w else io.BufferedWriter(raw) if w \
        else io.BufferedReader(raw)
    CUR.buffers.append(buf)
    if not text:
        return buf
    if encoding in (None, "locale"):
        encoding = getattr(CUR, "locale", None) or "utf-8"
    out = io.TextIOWrapper(buf, encoding, errors, newline)
    CUR.buffers.append(out)
    return out


def sim_flock(fd, op):
    if me() is None:
        return fcntl_real["flock"](fd, op)
    if op & fcntl.LOCK_UN or op & fcntl.LOCK_NB:
        call("flock")
        return fcntl_real["flock"](fd, op)
    while True:
        call("flock")
        try:
            return fcntl_real["flock"](fd, op | fcntl.LOCK_NB)
        except BlockingIOError:
            CUR.sched.sleep(0.01)


fcntl_real = {"flock": fcntl.flock, "lockf": fcntl.lockf} if fcntl else {}


class Seam:
    """the patched modules, for the time of one run"""

    def __enter__(self):
        self.saved = []

        def put(mod, name, value):
            self.saved.append((mod, name, getattr(mod, name)))
            setattr(mod, name, value)

        for n in ("stat", "lstat", "readlink", "listdir", "scandir", "fsync", "access"):
            put(os, n, wrap(n))
        for n in ("unlink", "remove", "mkdir", "rmdir", "chmod", "utime", "truncate"):
            put(os, n, wrap(n, True))
        for n in ("replace", "rename"):
            put(os, n, wrap(n, True, 2))

        def linker(name):
            f = real[name]

            def fn(src, dst, *a, **k):
                if me() is not None:
                    call(name, dst, True)
                return f(src, dst, *a, **k)
            return fn
        put(os, "link", linker("link"))
        put(os, "symlink", linker("symlink"))
        put(os, "open", sim_open_fd)
        put(os, "close", sim_close)
        put(os, "read", sim_read)
        put(os, "write", sim_write)
        put(os, "fdopen", lambda fd, *a, **k: sim_open(fd, *a, **k))
        put(os, "getpid", lambda: me().pid if me() is not None else real["getpid"]())
        put(os, "kill", self.kill)
        put(os, "urandom", lambda n: boot.Rand.rng.randbytes(n))
        put(builtins, "open", sim_open)
        put(io, "open", sim_open)
        put(shutil, "_USE_CP_SENDFILE", False)
        if hasattr(shutil, "_fastcopy_sendfile"):
            put(shutil, "_fastcopy_sendfile", self.nofast)
        put(tempfile, "_get_candidate_names", lambda: self)
        put(tempfile, "tempdir", os.path.join(CUR.root, "tmp"))
        now = lambda: CUR.sched.now  # noqa: E731
        for n, f in (("time", lambda: CUR.wall()), ("monotonic", now),
                     ("perf_counter", now), ("time_ns", lambda: int(CUR.wall() * 1e9)),
                     ("monotonic_ns", lambda: int(now() * 1e9)), ("sleep", self.sleep)):
            put(time, n, (lambda g, r: lambda *a: g(*a) if me() is not None else r(*a))(
                f, real_time[n]))
        if fcntl:
            put(fcntl, "flock", sim_flock)
            put(fcntl, "lockf", lambda fd, op, *a: sim_flock(fd, op))
        return self

    @staticmethod
    def nofast(*a):
        raise shutil._GiveupOnFastCopy(None)

    def __next__(self):
        return "".join(boot.Rand.rng.choice("abcdefghijkl0123") for _ in range(8))

    @staticmethod
    def sleep(dt):
        CUR.sched.point()
        CUR.sched.sleep(dt)

    @staticmethod
    def kill(pid, sig):
        if me() is None:
            return real["kill"](pid, sig)
        if sig != 0:
            CUR.violate("outside", f"signal {sig} for process {pid}")
            return None
        if pid not in {t.pid for t in CUR.sched.tasks if not t.done and not t.dead}:
            raise ProcessLookupError(errno.ESRCH, "no such process")
        return None

    def __exit__(self, *a):
        for mod, name, v in reversed(self.saved):
            setattr(mod, name, v)


# ------------------------------------------------------------------ plans
def gen(rng, prop):
    one = rng.random() < 0.7
    names = [rng.choice(NAMES)] if one else rng.sample(sorted(set(NAMES)), 2)
    calm = rng.random() < 0.3
    threads = rng.random() < 0.25  # publishers are threads of one process
    procs = []
    n_content = rng.choice([2, 4, 8])
    for _ in range(rng.randint(1, 4)):
        ops = [{"kind": rng.choice(["file", "edit", "symlink", "string", "string"]),
                "name": rng.choice(names), "content": rng.randrange(n_content),
                "resolve": rng.random() < 0.5, "gap": rng.choice([0, 0, 0.01, 0.5, 15])}
               for _ in range(rng.randint(1, 3))]
        if rng.random() < 0.15:
            # a build tool that rewrites one file again and again
            c, n = rng.randrange(n_content), rng.choice(names)
            ops = [{"kind": "edit", "name": n, "content": c ^ (rng.random() < 0.4),
                    "resolve": rng.random() < 0.3, "gap": rng.choice([0, 0, 0.01])}
                   for _ in range(rng.randint(3, 5))]
        p = {"start": rng.choice([0, 0, 0, 0.05, 0.3]), "ops": ops, "crash": None,
             "stall": [], "errors": []}
        if not calm:
            if rng.random() < 0.35 and not threads:
                p["crash"] = rng.randint(1, 40 * len(ops))
                p["restart"] = rng.choice([None, 0, 0.2, 30])
            if rng.random() < 0.3:
                p["stall"] = [[rng.randint(1, 60), rng.choice([0.05, 1, 12, 40])]
                              for _ in range(rng.randint(1, 2))]
            if rng.random() < 0.2:
                p["errors"] = [[rng.randint(1, 60), rng.choice(["ENOSPC", "EIO", "EMFILE"])]]
        procs.append(p)
    readers = [{"name": rng.choice(names), "n": rng.randint(2, 8),
                "gap": rng.choice([0, 0, 0.01, 0.1, 5])} for _ in range(rng.randint(1, 2))]
    return {"seed": rng.getrandbits(32), "procs": procs, "readers": readers,
            "switch": rng.choice([0.1, 0.3, 0.6, 1.0]),
            "threads": threads, "grain": rng.choice([0, 0.01, 1, 2]),
            "jumps": [] if calm or rng.random() < 0.8 else
            [[rng.randint(1, 150), rng.choice([-7200, -5, 5, 30, 7200])]],
            "pre": rng.choice([None, None, None, None, "file", "symlink", "dangling"]),
            "lock0": rng.random() < 0.1}


def shrink(plan):
    def cp():
        return json.loads(json.dumps(plan))

    for i in range(len(plan["procs"])):
        if len(plan["procs"]) > 1:
            p = cp()
            p["procs"].pop(i)
            yield p
    for i in range(len(plan["readers"])):
        p = cp()
        p["readers"].pop(i)
        yield p
    for i, pr in enumerate(plan["procs"]):
        for j in range(len(pr["ops"])):
            if len(pr["ops"]) > 1:
                p = cp()
                p["procs"][i]["ops"].pop(j)
                yield p
        for k, v in (("crash", None), ("stall", []), ("errors", []), ("start", 0),
                     ("restart", None)):
            if pr.get(k) not in (v, None):
                p = cp()
                p["procs"][i][k] = v
                yield p
        for j, o in enumerate(pr["ops"]):
            for k, v in (("resolve", False), ("gap", 0), ("kind", "file")):
                if o[k] != v:
                    p = cp()
                    p["procs"][i]["ops"][j][k] = v
                    yield p
    for k, v in (("pre", None), ("lock0", False), ("jumps", []), ("grain", 0),
                 ("threads", False)):
        if plan[k] != v:
            p = cp()
            p[k] = v
            yield p
    for i, r in enumerate(plan["readers"]):
        if r["n"] > 1:
            p = cp()
            p["readers"][i]["n"] = r["n"] // 2
            yield p


# ------------------------------------------------------------------ the run
class World:
    def __init__(self, plan, want_trace):
        self.plan = plan
        self.bad, self.trace, self.stats, self.shapes = [], [], {}, set()
        self.want_trace = want_trace
        self.hash = hashlib.sha1()
        self.buffers = []
        self.history = {}  # name -> operations
        self.pids = 1000
        self.cleanup = False

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def violate(self, kind, msg):
        self.bad.append((kind, msg))
        self.ev("BAD", kind, msg)

    def ev(self, *a):
        line = (self.sched.steps, round(self.sched.now, 4), *a)
        self.hash.update(repr(line).encode())
        if self.want_trace:
            self.trace.append(line)

    def wall(self):
        return 1.7e9 + self.sched.now + sum(
            d for k, d in self.plan["jumps"] if k <= self.sched.steps)

    def touch(self, fd):
        """the times of files are those of the simulated clock, with its granularity"""
        now = self.wall()
        g = self.plan["grain"]
        now = now - now % g if g else now
        real["utime"](fd, ns=(int(now * 1e9),) * 2)

    def rel(self, path):
        return os.fsdecode(path).replace(self.root, "")

    def syscall(self, t, kind, path):
        """a call is about to be made by t: the moment of faults"""
        pr = t.plan
        t.calls += 1
        self.count("syscalls")
        self.ev(t.name, kind, self.rel(path) if path is not None else "")
        if pr is None:
            return
        if pr["crash"] is not None and t.calls == pr["crash"] and not t.second:
            self.count("fault_crash")
            self.ev(t.name, "CRASH")
            t.dead = True
            raise Crash
        for k, d in pr["stall"]:
            if t.calls == k and not t.second:
                self.count("fault_stall")
                self.ev(t.name, "STALL", d)
                self.sched.sleep(d)
        if t.pending_errors and t.calls >= t.pending_errors[0][0] and kind in (
                "open", "write", "read", "mkdir"):
            _, e = t.pending_errors.pop(0)
            self.count("fault_" + e.lower())
            self.ev(t.name, "ERROR", e)
            t.hurt = True
            raise OSError(getattr(errno, e), os.strerror(getattr(errno, e)),
                          os.fspath(path) if path is not None else None)

    def spawn(self, name, body, plan=None, at=0.0, second=False):
        t = self.sched.spawn(name, body, at)
        if not (self.plan["threads"] and name[0] == "p"):
            self.pids += 1
        t.pid, t.plan, t.calls, t.second, t.fds = self.pids, plan, 0, second, set()
        t.pending_errors = sorted(plan["errors"]) if plan and not second else []
        t.hurt = False
        return t

    def source(self, i):
        return os.path.join(self.root, "src", f"s{i}.js")

    def publisher(self, pr, idx):
        def body(t):
            for o in pr["ops"]:
                if o["gap"]:
                    self.sched.sleep(o["gap"])
                self.publish(t, o)
        return body

    def publish(self, t, o):
        rec = {"op": "w", "v": o["content"], "a": self.sched.steps, "b": None, "who": t.name}
        self.history.setdefault(o["name"], []).append(rec)
        t.hurt = False
        self.ev(t.name, "publish", o["kind"], o["name"], o["content"])
        t0 = self.sched.now
        try:
            if o["kind"] == "string":
                m = rmodule.string_to_module(o["name"], content(o["content"]),
                                             resolve_imports=o["resolve"])
            else:
                path = self.source(o["content"])
                if o["kind"] == "edit":
                    path = os.path.join(self.root, "src", f"own-{t.name.strip(chr(39))}.js")
                    self.edit(path, o["content"])
                m = rmodule.file_to_module(o["name"], path,
                                           resolve_imports=o["resolve"],
                                           symlink=o["kind"] == "symlink")
        except Exception as e:  # noqa: BLE001
            self.ev(t.name, "failed", type(e).__name__, str(e).replace(self.root, ""))
            self.count("publications_failed")
            if not t.hurt:
                self.violate("failed", f"{o['kind']} publication of {o['name']} failed after "
                             f"{self.sched.now - t0:.1f} s: {type(e).__name__}: "
                             f"{str(e).replace(self.root, '')}")
            return
        self.sched.steps += 1
        rec["b"] = self.sched.steps
        self.count("publications")
        self.ev(t.name, "published", o["name"], o["content"])
        if o["resolve"] and set(m.import_names) != names_of(o["content"]) and not t.hurt:
            self.violate("names", f"the publisher of version {o['content']} of {o['name']} was "
                         f"told it exports {sorted(m.import_names)}")

    def edit(self, path, version):
        """the publisher's own source gets another version"""
        with real_open(path, "wb") as f:
            f.write(content(version).encode())
            f.flush()
            self.touch(f.fileno())

    def read(self, t, name, path):
        rec = {"op": "r", "a": self.sched.steps, "b": None, "v": None, "who": t.name}
        data = b""
        try:
            fd = os.open(path, os.O_RDONLY)
        except FileNotFoundError:
            data = None
        else:
            while chunk := os.read(fd, 1 << 16):
                data += chunk
            os.close(fd)
        self.sched.steps += 1
        rec["b"] = self.sched.steps
        if data is not None:
            rec["v"] = self.known.get(data)
            if rec["v"] is None:
                self.violate("partial", f"a reader of {name} got {len(data)} bytes that are no "
                             f"version of it: {data[:60]!r}")
                return
        self.count("reads")
        self.ev(t.name, "read", name, rec["v"])
        self.history.setdefault(name, []).append(rec)

    def reader(self, r):
        def body(t):
            for _ in range(r["n"]):
                self.read(t, r["name"], self.target(r["name"]))
                if r["gap"]:
                    self.sched.sleep(r["gap"])
                else:
                    self.sched.point(True)
        return body

    def target(self, name):
        # where the endpoint serves the module from
        return os.path.join(self.root, "web", *(name + ".js").split("/"))

    def run(self):
        global CUR
        plan = self.plan
        boot.seed_run(plan["seed"])
        self.root = tempfile.mkdtemp(prefix="verif-fs-", dir=boot.fast_dir())
        rng = random.Random(plan["seed"])
        self.sched = Sched(rng, plan["switch"], max_steps=30000, max_time=3000)
        self.known = {content(i).encode(): i for i in range(8)}
        filecmp.clear_cache()
        try:
            os.makedirs(os.path.join(self.root, "src"))
            os.makedirs(os.path.join(self.root, "web"))
            os.makedirs(os.path.join(self.root, "tmp"))
            for i in range(8):
                self.edit(self.source(i), i)
            config.REACTPY_WEB_MODULES_DIR.current = self.webdir()
            names = sorted({o["name"] for p in plan["procs"] for o in p["ops"]})
            if plan["jumps"]:
                self.count("fault_clock_jump")
            if plan["pre"] == "dangling":
                # published as a link to a source that has since been deleted
                gone = os.path.join(self.root, "src", "gone.js")
                os.makedirs(os.path.dirname(self.target(names[0])), exist_ok=True)
                os.symlink(gone, self.target(names[0]))
            elif plan["pre"]:
                # the directory holds an earlier publication
                to = self.target(names[0])
                os.makedirs(os.path.dirname(to), exist_ok=True)
                if plan["pre"] == "symlink":
                    os.symlink(self.source(0), to)
                else:
                    shutil.copy(self.source(0), to)
                self.history[names[0]] = [{"op": "w", "v": 0, "a": -2, "b": -1, "who": "pre"}]
            CUR = self
            with Seam():
                if plan["lock0"]:
                    self.dead_publisher(names[0])
                for i, pr in enumerate(plan["procs"]):
                    t = self.spawn(f"p{i}", self.publisher(pr, i), pr, pr["start"])
                    t.index = i
                for i, r in enumerate(plan["readers"]):
                    self.spawn(f"r{i}", self.reader(r))
                self.sched.on_step = self.after
                self.sched.run()
                # faults are over: one more publication of each name has to succeed soon
                self.tasks = self.sched.tasks
                last = self.sched
                if not self.sched.stuck:
                    self.finish(names)
                self.sched = last if last.stuck else self.sched
            if self.sched.stuck:
                self.violate("stuck", f"{self.sched.stuck} at {self.sched.now:.1f} s")
        finally:
            CUR = None
            for buf in self.buffers:
                try:
                    (buf.detach() if not buf.closed else None)
                except Exception:  # noqa: BLE001, S110
                    pass
            self.buffers.clear()
            shutil.rmtree(self.root, ignore_errors=True)
        self.errors()
        if not any(k == "partial" for k, _ in self.bad):
            for name, ops in sorted(self.history.items()):
                if not linearizable(ops):
                    self.violate("history", f"what readers of {name} saw fits no order of the "
                                 f"publications: {describe(ops)}")
                    break
        self.digest = self.hash.hexdigest()
        self.sim_time = self.sched.now
        self.steps = self.sched.steps
        return self

    def webdir(self):
        from pathlib import Path
        return Path(self.root) / "web"

    def errors(self):
        for t in self.tasks:
            if t.error is not None and not isinstance(t.error, (Crash,)):
                self.violate("failed", f"{t.name}: {type(t.error).__name__}: {t.error}")
        self.shapes.add(repr([(t.name[0], t.dead, t.calls // 20) for t in self.tasks]))

    def after(self, t):
        if t.done and t.dead:
            for fd in t.fds:
                try:
                    real["close"](fd)
                except OSError:
                    pass
            t.fds.clear()
            r = t.plan.get("restart")
            if r is not None and not t.second:
                self.count("restarts")
                n = self.spawn(t.name + "'", self.publisher(t.plan, t.index), t.plan, r, True)
                n.index = t.index

    def dead_publisher(self, name):
        """a process that died in the middle of a publication some time ago"""
        pr = {"crash": 8, "stall": [], "errors": []}
        self.spawn("dead", lambda t: self.publish(
            t, {"kind": "file", "name": name, "content": 0, "resolve": False}), pr)

    def finish(self, names):
        steps, now = self.sched.steps, self.sched.now
        self.sched = Sched(random.Random(1), 0.0, max_steps=steps + 20000, max_time=now + 60)
        self.sched.steps, self.sched.now = steps, now
        # nobody has written anything since then
        def body(t):
            for n in names:
                self.read(t, n, self.target(n))
                t0 = self.sched.now
                self.publish(t, {"kind": "file", "name": n, "content": 7, "resolve": True})
                if self.sched.now - t0 > 30:
                    self.violate("slow", f"after all faults a publication of {n} took "
                                 f"{self.sched.now - t0:.0f} s")
                self.read(t, n, self.target(n))
                self.publish(t, {"kind": "string", "name": n, "content": 6, "resolve": True})
                self.read(t, n, self.target(n))
        t = self.spawn("last", body)
        self.sched.run()
        self.tasks = [*self.tasks, t]


def describe(ops):
    return "; ".join(f"{o['who']} {'publishes' if o['op'] == 'w' else 'reads'} {o['v']} "
                     f"[{o['a']},{o['b']}]" for o in sorted(ops, key=lambda o: o["a"]))[:700]


def linearizable(ops):
    """is there an order of the operations, each between its start and end, in which every
    read gets the latest write? (an unfinished or failed write may have happened or not)"""
    inf = float("inf")
    ops = [dict(o, e=o["b"] if o["b"] is not None else inf) for o in ops]
    reads = [o for o in ops if o["op"] == "r"]
    writes = [o for o in ops if o["op"] == "w"]
    allops = [*reads, *writes]
    must = frozenset(i for i, o in enumerate(allops) if o["e"] < inf)
    seen = set()
    stack = [(frozenset(), None)]
    while stack:
        done, val = stack.pop()
        if must <= done:
            return True
        if (done, val) in seen:
            continue
        seen.add((done, val))
        if len(seen) > 200000:
            return True  # too many to decide
        left = [i for i in range(len(allops)) if i not in done]
        horizon = min(allops[i]["e"] for i in left)
        for i in left:
            o = allops[i]
            if o["a"] > horizon:
                continue
            if o["op"] == "r":
                if o["v"] == val:
                    stack.append((done | {i}, val))
            else:
                stack.append((done | {i}, o["v"]))
    return False


def run(plan, want_trace=False):
    return World(plan, want_trace).run()


def judge(prop, plan, w):
    return w.bad


def nontrivial(prop, w):
    return w.stats.get("publications", 0) >= 4 and w.stats.get("reads", 0) >= 3
