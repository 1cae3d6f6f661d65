"""The seams: every source of nondeterminism and every fault of a simulated run.

 clock      SimClock       replaces the time functions everywhere in the process
 entropy    Tap            replaces the models' random generators (record / script)
 statements Tracer         fails a chosen statement of the code under test, counts
                           steps and enforces step budgets
 threads    Scheduler      real threads, one released at a time, switched by seed
 disk       Disk           the preloaded system-call shim (shim/simdisk.c)
 evaluations (per property) the objective handed to the optimiser, VarGP.free_energy
"""
import contextlib
import ctypes
import gc
import io
import os
import pickle
import random
import resource
import shutil
import sys
import tempfile
import threading
import time

import numpy as np

from .core import REPO

ROOT = os.path.realpath(REPO)
SRC = os.path.join(ROOT, "src") + os.sep
MAIN = os.path.join(ROOT, "vgpa_main.py")


# ---------------------------------------------------------------- scratch ----
@contextlib.contextmanager
def scratch():
    """A scratch directory, made the working directory, removed afterwards."""
    old = os.getcwd()
    d = os.path.realpath(tempfile.mkdtemp(prefix="vgpa-dst-"))
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


@contextlib.contextmanager
def quiet():
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        yield buf


# ------------------------------------------------------------------ clock ----
class SimClock:
    """Simulated clock: advances only when read, as its seeded mode says."""

    NAMES = ("time", "perf_counter", "monotonic", "process_time", "thread_time")
    MODES = ("steady", "coarse", "frozen", "jumpy", "backwards", "epoch")

    def __init__(self, seed, mode="steady"):
        self.rng = random.Random(f"clock:{seed}")
        self.mode = mode
        self.now = {"epoch": 0.0, "backwards": 4.0e9}.get(mode, 1.7e9 + self.rng.random() * 1e8)
        self.covered = 0.0
        self.reads = 0
        self.jumps = 0

    def tick(self):
        self.reads += 1
        m = self.mode
        step = 1e-4
        if m == "coarse":
            step = 15.6e-3 if self.reads % 40 == 0 else 0.0
        elif m == "frozen":
            step = 0.0
        elif m == "jumpy":
            step = self.rng.choice((1e-6, 1e-3, 1.0, 3600.0, 86400.0 * 365))
            self.jumps += step > 10
        elif m == "backwards":
            step = -self.rng.choice((0.0, 1e-3, 3600.0))
            self.jumps += step < -10
        self.now += step
        self.covered += abs(step)
        return self.now

    def sleep(self, s):
        self.now += s
        self.covered += s

    @contextlib.contextmanager
    def installed(self):
        saved = []
        new = {}
        for n in self.NAMES:
            new[n] = lambda: self.tick()
            new[n + "_ns"] = lambda: int(self.tick() * 1e9)
        new["sleep"] = self.sleep
        swap = {}
        for n, f in new.items():
            if hasattr(time, n):
                swap[getattr(time, n)] = f
                saved.append((time, n, getattr(time, n)))
        for name, mod in list(sys.modules.items()):
            if mod is not None and (name == "src" or name.startswith(("src.", "vgpa_main"))):
                for a, v in list(vars(mod).items()):
                    try:
                        if v in swap:
                            saved.append((mod, a, v))
                    except TypeError:
                        pass
        for mod, a, v in saved:
            setattr(mod, a, swap[v])
        try:
            yield self
        finally:
            for mod, a, v in saved:
                setattr(mod, a, v)


# ----------------------------------------------------------------- memory ----
@contextlib.contextmanager
def sim_memory(seed=None):
    """What np.empty() and the operating system's entropy deliver is decided here.

    seed None: memory is found clean and entropy is a constant; otherwise old
    contents of the memory and entropy come from a seeded stream.
    """
    r = random.Random(f"memory:{seed}")
    real = np.empty, np.empty_like
    poison = (0.0, 0) if seed is None else (r.choice((np.nan, 1e300, -7.0, 3.5)), r.choice((1, -3, 77)))

    def dirty(a):
        k = a.dtype.kind
        if k in "fc":
            a.fill(poison[0])
        elif k in "iu":
            a.fill(poison[1] if k == "i" else abs(poison[1]))
        elif k == "b":
            a.fill(bool(poison[1]))
        return a

    def empty(*a, **k):
        return dirty(real[0](*a, **k))

    def empty_like(*a, **k):
        return dirty(real[1](*a, **k))

    def bits(n):
        return r.getrandbits(n) if seed is not None else 0x5DEECE66D & ((1 << n) - 1)
    import secrets
    import numpy.random.bit_generator as bg
    saved = []

    def put(mod, name, new):
        if hasattr(mod, name):
            saved.append((mod, name, getattr(mod, name)))
            setattr(mod, name, new)
    put(np, "empty", empty)
    put(np, "empty_like", empty_like)
    put(bg, "randbits", bits)
    put(secrets, "randbits", bits)
    put(os, "urandom", lambda n: bits(8 * n).to_bytes(n, "little"))
    for name, mod in list(sys.modules.items()):
        if mod is not None and name.startswith("src."):
            for a, v in list(vars(mod).items()):
                if v is real[0] or v is real[1]:
                    put(mod, a, empty if v is real[0] else empty_like)
    try:
        yield
    finally:
        for mod, name, old in reversed(saved):
            setattr(mod, name, old)


@contextlib.contextmanager
def sim_machine(seed):
    """Another computer: number of processors, load, host and user name, process number, variables, sizes."""
    import getpass
    import platform
    import socket
    r = random.Random(f"machine:{seed}")
    n = r.choice((1, 2, 3, 5, 7, 16, 61, 128))
    pid = r.randrange(2, 4000000)
    host = r.choice(("a", "node17", "very-long-name.example.org"))
    pages, load = r.choice((10, 50, 1000, 40000, 10 ** 7)), r.choice((0.1, 7, 1000))
    size = os.terminal_size((r.choice((20, 80, 300)), 24))
    new = {(os, "cpu_count"): lambda: n, (os, "process_cpu_count"): lambda: n, (os, "sched_getaffinity"): lambda p=0: set(range(n)),
           (os, "getloadavg"): lambda: (r.random() * 90,) * 3, (os, "getpid"): lambda: pid, (os, "getppid"): lambda: pid - 1,
           (os, "getuid"): lambda: 1000 + n, (os, "geteuid"): lambda: 1000 + n, (os, "getlogin"): lambda: "u" + host,
           (os, "get_terminal_size"): lambda *a: size, (shutil, "get_terminal_size"): lambda *a, **k: size,
           (os, "sysconf"): lambda k, real=os.sysconf: n if "NPROC" in str(k) else pages if "PAGES" in str(k) else real(k),
           (resource, "getrusage"): lambda who, real=resource.getrusage: resource.struct_rusage(type(x)(x * load) for x in real(who)),
           (gc, "get_count"): lambda: (r.randrange(700), r.randrange(10), r.randrange(10)),
           (shutil, "disk_usage"): lambda p: shutil._ntuple_diskusage(pages * 4096, pages * 2048, pages * 2048),
           (platform, "machine"): lambda: f"m{n}", (platform, "platform"): lambda *a, **k: f"OS-{n}",
           (socket, "gethostname"): lambda: host, (platform, "node"): lambda: host, (getpass, "getuser"): lambda: "u" + host,
           (platform, "release"): lambda: f"6.{n}.0", (platform, "processor"): lambda: f"cpu{n}",
           (sys, "getrefcount"): lambda o: n}
    import multiprocessing
    new[multiprocessing, "cpu_count"] = lambda: n
    saved = [(m, a, getattr(m, a)) for m, a in new if hasattr(m, a)]
    swap = {old: new[m, a] for m, a, old in saved}
    for name, mod in list(sys.modules.items()):
        if mod is not None and name.startswith("src."):
            for a, v in list(vars(mod).items()):
                try:
                    if v in swap:
                        saved.append((mod, a, v))
                except TypeError:
                    pass
    env = dict(os.environ)
    for m, a, old in saved:
        setattr(m, a, swap[old])
    for k in ("OMP_NUM_THREADS", "MKL_NUM_THREADS", "NUMBA_NUM_THREADS", "SLURM_CPUS_PER_TASK"):
        os.environ[k] = str(n)
    os.environ.update(HOME="/nowhere", USER=host, LANG=r.choice(("C", "de_DE.UTF-8")), TZ=r.choice(("UTC", "Asia/Tokyo")), TMPDIR="/tmp", HOSTNAME=host)
    old_argv, sys.argv = sys.argv, ["prog" + host]
    limit = sys.getrecursionlimit()
    sys.setrecursionlimit(r.choice((limit, 5000)))
    try:
        yield
    finally:
        sys.argv = old_argv
        sys.setrecursionlimit(limit)
        os.environ.clear()
        os.environ.update(env)
        for m, a, old in saved:
            setattr(m, a, old)


class Pristine:
    """A process forked off beforehand that calls fn(*args) without anything of
    what happens here in between; every call in a further fork of its own."""

    def __init__(self, fn):
        self.fn = fn
        self.pid = None

    def __enter__(self):
        a, b = os.pipe(), os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(a[1]), os.close(b[0])
                self._serve(os.fdopen(a[0], "rb"), b[1])
            finally:
                os._exit(0)
        os.close(a[0]), os.close(b[1])
        self.to, self.fro = os.fdopen(a[1], "wb"), os.fdopen(b[0], "rb")
        return self

    def _serve(self, req, out):
        while True:
            try:
                args = pickle.load(req)
            except EOFError:
                return
            pid = os.fork()
            if pid == 0:
                try:
                    r = ("ok", self.fn(*args))
                except BaseException as e:
                    r = ("raise", f"{type(e).__name__}: {e}")
                data = pickle.dumps(r)
                while data:
                    data = data[os.write(out, data):]
                os._exit(0)
            os.waitpid(pid, 0)

    def __call__(self, *args):
        pickle.dump(args, self.to)
        self.to.flush()
        st, r = pickle.load(self.fro)
        if st != "ok":
            raise RuntimeError(f"in another process: {r}")
        return r

    def __exit__(self, *a):
        self.to.close(), self.fro.close()
        os.waitpid(self.pid, 0)


# ------------------------------------------------------------ thread pools ----
class Pools:
    """Thread pools of the code under test, simulated: the tasks are done by the
    calling thread, as they are submitted or (under a seed) some when handed in,
    the others when somebody waits, and complete in a seeded order."""
    rng = None
    pending = []

    @classmethod
    @contextlib.contextmanager
    def seeded(cls, seed):
        cls.rng = random.Random(f"pools:{seed}")
        try:
            yield
        finally:
            cls.drain()
            cls.rng = None

    @classmethod
    def drain(cls):
        while cls.pending:
            cls.one()

    @classmethod
    def one(cls):
        n = len(cls.pending)
        cls.work(*cls.pending.pop(cls.rng.randrange(n) if cls.rng else 0))

    @staticmethod
    def work(f, fn, a, k):
        if f.set_running_or_notify_cancel():
            try:
                r = fn(*a, **k)
            except BaseException as e:
                f.set_exception(e)
            else:
                f.set_result(r)

    @classmethod
    def install(cls):
        import concurrent.futures as cf
        import concurrent.futures._base as base
        import concurrent.futures.thread as th
        if getattr(th.ThreadPoolExecutor, "_simulated", False):
            return

        class Future(base.Future):
            def result(self, timeout=None):
                cls.drain()
                return super().result(0)

            def exception(self, timeout=None):
                cls.drain()
                return super().exception(0)

        def submit(self, fn, /, *a, **k):
            if self._shutdown:
                raise RuntimeError("cannot schedule new futures after shutdown")
            f = Future()
            if self._initializer:
                init, self._initializer = self._initializer, None
                init(*self._initargs)
            cls.pending.append((f, fn, a, k))
            while cls.pending and (cls.rng is None or cls.rng.random() < 0.4):
                cls.one()
            return f

        def shutdown(self, wait=True, *, cancel_futures=False):
            self._shutdown = True
            cls.drain()

        def as_completed(fs, timeout=None):
            cls.drain()
            fs = list(fs)
            fs = [f for i, f in enumerate(fs) if all(f is not g for g in fs[:i])]
            if all(type(f) is Future for f in fs):
                if cls.rng:
                    cls.rng.shuffle(fs)
                return iter(fs)
            return real_as_completed(fs, timeout)

        def wait(fs, timeout=None, return_when=base.ALL_COMPLETED):
            cls.drain()
            return real_wait(fs, timeout, return_when)
        real_as_completed, real_wait = base.as_completed, base.wait
        T = th.ThreadPoolExecutor
        T.submit, T.shutdown, T._simulated = submit, shutdown, True
        for m in (cf, base):
            m.as_completed, m.wait = as_completed, wait


# ---------------------------------------------------------------- entropy ----
class Tap(np.random.Generator):
    """A generator that records what it hands out; or hands out a script."""

    def setup(self, script=None):
        self.draws = []          # flat list of standard normals handed out, in order
        self.calls = []
        self.script = script     # None, or a callable (start, count) -> values
        self.foreign = 0         # draws that are not (scaled) standard normals
        return self

    def _std(self, size):
        n = 1 if size is None else int(np.prod(size))
        if self.script is None:
            z = np.asarray(super().standard_normal(n))
        else:
            z = np.asarray(self.script(len(self.draws), n), dtype=float)
        self.draws.extend(z.tolist())
        return float(z[0]) if size is None else z.reshape(size).copy()

    def standard_normal(self, size=None, dtype=np.float64, out=None):
        if out is not None:
            self.calls.append(("standard_normal", np.shape(out)))
            out[...] = self._std(np.shape(out))
            return out
        self.calls.append(("standard_normal", size))
        return self._std(size).astype(dtype) if size is not None else self._std(None)

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None and (np.ndim(loc) or np.ndim(scale)):
            size = np.broadcast(loc, scale).shape
        self.calls.append(("normal", size))
        return loc + scale * self._std(size)

    def multivariate_normal(self, mean, cov, size=None, **kw):
        self.calls.append(("multivariate_normal", size))
        mean = np.asarray(mean, float)
        shape = () if size is None else tuple(np.atleast_1d(size))
        z = self._std(shape + (mean.size,))
        return mean + z.dot(np.linalg.cholesky(np.asarray(cov, float)).T)


def _other(name):
    def f(self, *a, **k):
        self.foreign += 1
        self.calls.append((name,))
        return getattr(np.random.Generator, name)(self, *a, **k)
    return f


for _n in ("random", "uniform", "integers", "choice", "permutation", "shuffle", "exponential",
           "standard_exponential", "gamma", "standard_gamma", "chisquare", "standard_t", "laplace", "bytes"):
    if hasattr(np.random.Generator, _n):
        setattr(Tap, _n, _other(_n))


def tap(obj, seed=0, script=None, fresh=False):
    """Replaces the generator held by obj; returns the Tap, or None."""
    names = set(getattr(obj, "__dict__", {}))
    for c in type(obj).__mro__:
        s = c.__dict__.get("__slots__", ())
        names.update([s] if isinstance(s, str) else s)
    t = None
    for n in sorted(names):
        for name in (n, f"_{type(obj).__name__}{n}" if n.startswith("__") else n):
            v = getattr(obj, name, None)
            if isinstance(v, np.random.Generator):
                if t is None:
                    if isinstance(v, Tap) and not fresh:
                        t = v
                    else:
                        t = Tap(v.bit_generator if script is None and seed is None else np.random.PCG64(seed or 0))
                    t.setup(script)
                setattr(obj, name, t)
                break
    return t


# ------------------------------------------------------------- statements ----
class StepBudget(BaseException):
    pass


class InjectedInterrupt(KeyboardInterrupt):
    pass


class InjectedMemory(MemoryError):
    pass


class InjectedFloat(FloatingPointError):
    pass


class InjectedOS(OSError):
    pass


class InjectedRuntime(RuntimeError):
    pass


EXC = {"interrupt": InjectedInterrupt, "memory": InjectedMemory, "float": InjectedFloat,
       "os": InjectedOS, "runtime": InjectedRuntime}
INJECTED = tuple(EXC.values())


def rel(code):
    return code.co_filename[len(ROOT) + 1:]


class Tracer:
    """Counts the executed statements of the code under test; may fail one."""

    def __init__(self, target=None, exc=None, max_lines=None, main=False):
        self.lines = 0
        self.sites = {}           # (file, function, line offset) -> times executed
        self.target, self.exc = target, exc
        self.fired = None
        self.on_fire = None
        self.max_lines = max_lines
        self.want = {}
        self.main = main

    def _wanted(self, code):
        w = self.want.get(code)
        if w is None:
            fn = code.co_filename
            w = self.want[code] = fn.startswith(SRC) or (self.main and fn == MAIN)
        return w

    def _global(self, frame, event, arg):
        return self._local if self._wanted(frame.f_code) else None

    def _local(self, frame, event, arg):
        if event == "line":
            self.lines += 1
            key = (frame.f_code, frame.f_lineno)
            n = self.sites[key] = self.sites.get(key, 0) + 1
            if self.target is not None and self.fired is None and self.name(key) == self.target[0] and n == self.target[1]:
                self.fired = f"{self.target[0]} occurrence {n}"
                if self.on_fire:
                    self.on_fire()
                raise self.exc("injected fault")
            if self.max_lines is not None and self.lines > self.max_lines:
                raise StepBudget(f"more than {self.max_lines} statements")
        return self._local

    @staticmethod
    def name(key):
        code, line = key
        return f"{rel(code)}:{code.co_qualname}:{line}"

    def __enter__(self):
        self.prev = sys.gettrace()
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(self.prev)

    def names(self):
        return [(self.name(k), n) for k, n in self.sites.items()]


class FastTracer(Tracer):
    """As Tracer, comparing the target by code object only (cheap when armed)."""

    def _local(self, frame, event, arg):
        if event == "line":
            self.lines += 1
            line = frame.f_lineno
            if line == self.tline and frame.f_code.co_qualname == self.tfunc and rel(frame.f_code) == self.tfile:
                self.seen += 1
                if self.seen == self.target[1] and self.fired is None:
                    self.fired = f"{self.target[0]} occurrence {self.seen}"
                    if self.on_fire:
                        self.on_fire()
                    raise self.exc("injected fault")
            if self.max_lines is not None and self.lines > self.max_lines:
                raise StepBudget(f"more than {self.max_lines} statements")
        return self._local

    def __init__(self, target, exc, **kw):
        super().__init__(target, exc, **kw)
        self.seen = 0
        self.tfile, self.tfunc, self.tline = target[0].rsplit(":", 2)
        self.tline = int(self.tline)


def pick_site(names, u, v):
    """A statement (uniform over distinct statements) and an occurrence of it."""
    name, n = names[int(u * len(names)) % len(names)]
    if v < 0.3:
        occ = 1
    elif v < 0.5:
        occ = n
    else:
        occ = 1 + int((v - 0.5) * 2 * n) % n
    return name, occ


# ---------------------------------------------------------------- threads ----
def inside_library(frame):
    """Whether the thread holds a lock of a library (h5py's own lock while it
    goes through a group, the lock of a module being imported): a thread that is
    released now may have to wait for it where the scheduler cannot see it."""
    phil = getattr(sys.modules.get("h5py._objects"), "phil", None)
    if phil is not None and phil._is_owned():
        return True
    while frame is not None:
        if frame.f_code.co_filename.startswith("<frozen importlib"):
            return True
        frame = frame.f_back
    return False


class Scheduler:
    """Runs functions in real threads of which exactly one is ever released.

    At each statement (or bytecode) of the code under test a seeded stream
    decides how long the running thread goes on and which one is next.
    """

    def __init__(self, seed, mean_run=20, opcodes=False, max_switches=200000):
        self.rng = random.Random(f"sched:{seed}")
        self.mean = mean_run
        self.opcodes = opcodes
        self.switches = 0
        self.max_switches = max_switches
        self.trail = []
        self.points = 0
        self.want = {}

    def _slice(self):
        # Heavy-tailed slices: mostly short, sometimes long.
        r = self.rng.random()
        if r < 0.15:
            return 1
        if r < 0.9:
            return 1 + int(self.rng.expovariate(1.0 / self.mean))
        return 1 + int(self.rng.expovariate(1.0 / (50 * self.mean)))

    def _trace(self, me):
        def local(frame, event, arg):
            if self.opcodes and not frame.f_trace_opcodes:
                frame.f_trace_opcodes = True
            if event == "line" or event == "opcode":
                self.points += 1
                self.left -= 1
                if self.left <= 0 and not inside_library(frame):
                    self._switch(me, frame)
            return local

        def glob(frame, event, arg):
            code = frame.f_code
            w = self.want.get(code)
            if w is None:
                w = self.want[code] = code.co_filename.startswith(SRC)
            if not w:
                return None
            if self.opcodes:
                frame.f_trace_opcodes = True
            return local
        return glob

    def _switch(self, me, frame=None):
        self.left = self._slice()
        others = [i for i in self.alive if i != me]
        if not others or self.switches >= self.max_switches:
            return
        nxt = others[self.rng.randrange(len(others))]
        self.switches += 1
        if len(self.trail) < 400:
            self.trail.append((me, frame.f_code.co_name if frame else "end", frame.f_lineno if frame else 0, nxt))
        self.baton[nxt].release()
        self.baton[me].acquire()

    current = None

    def run(self, funcs):
        Scheduler.current = self
        try:
            return self._run(funcs)
        finally:
            Scheduler.current = None

    def _run(self, funcs):
        n = len(funcs)
        self.who = {}
        self.alive = list(range(n))
        self.baton = [threading.Semaphore(0) for _ in range(n)]
        self.left = self._slice()
        out = [None] * n
        end = threading.Event()

        def body(i):
            self.baton[i].acquire()
            self.who[threading.get_ident()] = i
            sys.settrace(self._trace(i))
            try:
                out[i] = ("ok", funcs[i]())
            except BaseException as e:
                out[i] = ("raise", e)
            finally:
                sys.settrace(None)
                self.alive.remove(i)
                if self.alive:
                    nxt = self.alive[self.rng.randrange(len(self.alive))]
                    self.left = self._slice()
                    self.baton[nxt].release()
                else:
                    end.set()

        ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
        for t in ts:
            t.start()
        self.baton[self.rng.randrange(n)].release()
        end.wait()
        for t in ts:
            t.join()
        return out


class SimLock:
    """A lock made by the code under test: waiting for it hands over control."""

    def __init__(self, real):
        self.real = real

    def acquire(self, blocking=True, timeout=-1):
        s = Scheduler.current
        me = s.who.get(threading.get_ident()) if s else None
        if me is None or not blocking:
            return self.real.acquire(blocking, timeout)
        for i in range(100000):
            if self.real.acquire(False):
                return True
            if len(s.alive) < 2:
                break
            trace = sys.gettrace()
            sys.settrace(None)
            s._switch(me)
            sys.settrace(trace)
        from .core import Violation
        raise Violation("deadlock", "the threads wait for one another for ever")

    def release(self):
        self.real.release()

    def locked(self):
        return self.real.locked()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


def install_locks():
    """Locks the code under test makes (and only those) know the scheduler."""
    def factory(orig):
        def make(*a, **k):
            lock = orig(*a, **k)
            f = sys._getframe(1).f_code.co_filename
            return SimLock(lock) if f.startswith((SRC, MAIN)) else lock
        return make
    for n in ("Lock", "RLock"):
        if not getattr(getattr(threading, n), "sim", False):
            f = factory(getattr(threading, n))
            f.sim = True
            setattr(threading, n, f)


# ------------------------------------------------------------------- disk ----
class Disk:
    """The simulated disk under one scratch directory."""

    KINDS = {"E": "io_error", "P": "persistent_error", "S": "short_transfer",
             "C": "crash_during_call", "X": "crash_before_call", "Z": "read_bit_flip", "q": "disk_full"}

    def __init__(self):
        self.lib = ctypes.CDLL(None)
        try:
            self.lib.sd_arm
        except AttributeError:
            raise RuntimeError("disk shim is not preloaded")
        self.lib.sd_log.restype = ctypes.c_char_p
        for n in ("sd_arm", "sd_disarm", "sd_count", "sd_fired"):
            getattr(self.lib, n).restype = ctypes.c_long

    def arm(self, directory, plan=""):
        self.known = set(os.listdir(directory))
        rc = self.lib.sd_arm(os.fsencode(directory), plan.encode())
        if rc:
            raise RuntimeError(f"sd_arm failed: {rc}")

    def disarm(self):
        return self.lib.sd_disarm()

    def sched(self, out, inp):
        self.lib.sd_sched(out, inp)

    def count(self):
        return self.lib.sd_count()

    def log(self):
        # Names the code under test makes up (temporary files) are numbered: they may be random.
        out, names = [], {}
        for l in self.lib.sd_log().decode().splitlines():
            p = l.split()
            if len(p) >= 5 and p[0].isdigit():
                k = 4 if p[-2] == "FAULT" else 3
                path = l.split(" ", 2)[2].rsplit(" ", k)[0]
                if path not in self.known:
                    path = names.setdefault(path, f"new{len(names)}")
                out.append((int(p[0]), p[1], path, int(p[-k]), int(p[1 - k]), p[-1]))
        return out

    def fired(self):
        return {v: self.lib.sd_fired(ord(k)) for k, v in self.KINDS.items() if self.lib.sd_fired(ord(k))}


def in_child(fn, timeout=60):
    """Runs fn in a forked process that may crash: (exit status, bytes)."""
    import select
    import signal
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            data = fn(w)
            if data:
                os.write(w, data)
        except BaseException:
            import traceback
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
            os._exit(99)
        os._exit(0)
    os.close(w)
    buf = b""
    end = time.monotonic() + timeout
    from .core import REAL_TIME
    end = REAL_TIME() + timeout
    while True:
        rd, _, _ = select.select([r], [], [], max(0.0, end - REAL_TIME()))
        if not rd:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            raise TimeoutError("child process did not finish")
        c = os.read(r, 1 << 20)
        if not c:
            break
        buf += c
    os.close(r)
    _, st = os.waitpid(pid, 0)
    return st, buf
