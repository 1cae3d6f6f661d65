"""Storage runs: result sets, the reference reader, fault plans, crashing processes."""
import errno
import hashlib
import os
import pickle
import random
import resource
import signal
import time

import numpy as np

from . import seams, world
from .core import Violation

REAL_OUT = {}
KEYS = ("at", "bt", "fx", "m0", "s0", "mt", "st", "Efx", "Edf", "lamt", "psit")
ERRNOS = {"ENOSPC": errno.ENOSPC, "EIO": errno.EIO, "EDQUOT": errno.EDQUOT, "EFBIG": errno.EFBIG, "EACCES": errno.EACCES,
          "EROFS": errno.EROFS, "ENOMEM": errno.ENOMEM, "EMFILE": errno.EMFILE}


def warm(real=True):
    s = world.sut()
    with seams.quiet():
        import h5py  # noqa
    if not real:
        return
    for m, a in (("DW", dict(sys_=0.8, theta=1.0)), ("OU", dict(sys_=0.5, theta=2.0))):
        try:
            sim = world.full_run(world.params(m, "heun", n=30, dt=0.02, density=10, **a), cap=4, save=False)
            REAL_OUT[m] = dict(sim.output)
        except Exception:
            pass


def gen_output(rng, big=None):
    """Seeded description of one result set."""
    kind = rng.choices(("1d", "3d", "40d", "real", "tiny", "odd"), (4, 4, 1 if big is None else (4 if big else 0), 2, 2, 2))[0]
    return {"kind": kind, "n": rng.choice((1, 2, 21, 101, 401)) if kind != "40d" else rng.choice((3, 11, 41)),
            "seed": rng.randrange(10 ** 9), "special": rng.random() < 0.4, "model": rng.choice(("DW", "OU"))}


def gen_twist(rng, spec):
    """Results that differ from given ones in a single entry (same names, shapes and types)."""
    return dict(spec, twist=rng.randrange(1, 10 ** 9))


ODD_TYPES = ("f8", "f8", ">f8", "f4", "f2", "i8", "i4", "i2", "u1", "u8", ">i4", "c16", "c8", "?", "S5")
ODD_SHAPES = ((1, 1), (0,), (0, 3), (1, 0, 2), (1,), (3,), (2, 1), (1, 4), (5, 3), (4, 2, 2), (2, 1, 3, 2), (70,))


def odd(r):
    """One result of unusual shape, type or memory layout."""
    if r.random() < 0.2:
        return (3, True, 2.5, 1 + 2j, -0.0, float("nan"), np.float32(0.1), np.int16(-4), np.bool_(False), 2 ** 60)[r.integers(10)]
    t = np.dtype(ODD_TYPES[r.integers(len(ODD_TYPES))])
    shape = ODD_SHAPES[r.integers(len(ODD_SHAPES))]
    n = int(np.prod(shape))
    if t.kind in "fc":
        a = r.standard_normal(shape) * 10.0
        if t.kind == "c":
            a = a + 1j * r.standard_normal(shape)
        if n and r.random() < 0.3:
            a.flat[r.integers(n)] = (np.nan, np.inf, -0.0)[r.integers(3)]
    else:
        a = r.integers(0, 2 if t.kind == "b" else 100, shape)
    a = np.asarray(a).astype(t)
    how = r.integers(6)
    if how == 1:
        a = np.asfortranarray(a)
    elif how == 2 and a.ndim > 1:
        a = np.ascontiguousarray(a.T).T
    elif how == 3:
        a = np.repeat(a, 2, axis=0)[::2]
    elif how == 4:
        a = a[::-1]
    elif how == 5:
        a.flags.writeable = False
    return a


def make_output(spec):
    """The result set (a new dict with new arrays) a description stands for."""
    if spec.get("twist"):
        out = make_output(dict(spec, twist=0))
        r = random.Random(f"twist:{spec['twist']}")
        names = [k for k, v in out.items() if np.asarray(v).dtype.kind == "f" and np.size(v)]
        if names:
            # The reported value is the least likely to be the one that differs.
            k = r.choice(sorted(set(names) - {"fx"}) or names)
            v = np.array(out[k])
            i = r.randrange(v.size)
            x = v.flat[i]
            v.flat[i] = np.nextafter(x, v.dtype.type(np.inf)) if np.isfinite(x) and r.random() < 0.5 else v.dtype.type(0.5 if x != 0.5 else 1.5)
            out[k] = v if np.ndim(out[k]) else v[()]
        return out
    r = np.random.default_rng(spec["seed"])
    if spec["kind"] == "odd":
        out = {k: odd(r) for k in KEYS}
        for k in ("extra", "with space", "0")[:r.integers(4)]:
            out[k] = odd(r)
        return out
    if spec["kind"] == "real" and REAL_OUT:
        src = REAL_OUT.get(spec["model"]) or next(iter(REAL_OUT.values()))
        out = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in src.items()}
        out["fx"] = float(out["fx"]) + spec["seed"] * 1e-6      # distinguishable sets
        return out
    n = spec["n"]
    if spec["kind"] == "big":
        # Every value occurs once, in big (compressible) arrays.
        out = {k: (np.arange(n * 1600.0) + r.integers(1000)).reshape(n, 40, 40) for k in ("at", "psit")}
        return dict(out, bt=np.arange(n * 40.0).reshape(n, 40), st=(np.arange(n * 1600) + r.integers(1000)).astype("f4").reshape(n * 1600),
                    Edf=np.arange(n * 700).reshape(-1, n), fx=float(r.standard_normal()))
    d = {"3d": 3, "40d": 40}.get(spec["kind"], 1)
    out = {}

    def arr(shape):
        a = r.standard_normal(shape)
        if spec["special"] and a.size:
            for v in (np.nan, np.inf, -np.inf, -0.0, 5e-324, 1.7e308, 1e-310):
                a.flat[r.integers(a.size)] = v
        elif r.random() < 0.2:
            a[...] = 0.0
        return a
    for k in KEYS:
        if k == "fx":
            out[k] = float(r.standard_normal()) * 1e3
        elif d == 1:
            out[k] = arr(n) if k not in ("m0", "s0") else (np.float64(r.standard_normal()) if k == "m0" else 0.25)
        elif k in ("at", "st", "Edf", "psit"):
            out[k] = arr((n, d, d))
        elif k == "m0":
            out[k] = arr(d)
        elif k == "s0":
            out[k] = np.eye(d) * 0.5
        else:
            out[k] = arr((n, d))
    return out


def image(out):
    return world.image(out)


def read_reference(path):
    """Reads a result file with h5py alone (not the code under test)."""
    import h5py
    out = {}
    with h5py.File(path, "r") as f:
        for k in f:
            out[k] = f[k][()]
    return image(out)


def in_process(fn, timeout=60):
    """Runs fn in a forked process: ('ok', value) | ('raise', text) | ('died', signal or 137)."""
    def go(w):
        if timeout <= 100:
            resource.setrlimit(resource.RLIMIT_CPU, (20, 30))
        try:
            v = ("ok", fn())
        except Violation as e:
            v = ("violation", (e.klass, e.msg))
        except BaseException as e:
            v = ("raise", type(e).__name__ + ": " + str(e)[:300])
        return pickle.dumps(v)
    st, buf = seams.in_child(go, timeout)
    if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGXCPU:
        raise Violation("never_ended", "an operation neither returned nor failed: stopped after 20 s or more of processor time")
    if os.WIFSIGNALED(st):
        return "died", -os.WTERMSIG(st)
    if os.WEXITSTATUS(st) == 137:
        return "died", 137
    if not buf:
        return "died", os.WEXITSTATUS(st)
    v = pickle.loads(buf)
    if v[0] == "violation":
        raise Violation(*v[1])
    return v


def file_of(name):
    return name.strip().replace(" ", "_") + ".h5"


def simulation(name, out):
    sim = world.sut()["Simulation"](name)
    sim.output.update(out)
    return sim


class sim_sleep:
    """Sleeping takes no time but is limited: an hour of it is never ending."""

    def __enter__(self):
        self.orig, self.total = time.sleep, 0.0

        def sleep(s):
            self.total += s + 1e-3
            if self.total > 3600:
                raise Violation("never_ended", "an operation was still waiting after an hour of simulated time")
        time.sleep = sleep

    def __exit__(self, *a):
        time.sleep = self.orig


def save_once(name, out, plan="", trace=None, sim=None):
    """Saves in this process under a fault plan: (raised exception or None, fired, events, log)."""
    sim = sim or simulation(name, out)
    disk = seams.Disk()
    err = None
    disk.arm(os.getcwd(), plan)
    try:
        with seams.quiet(), sim_sleep():
            if trace:
                with trace:
                    sim.save()
            else:
                sim.save()
    except Violation:
        disk.disarm()
        raise
    except BaseException as e:
        err = e
    # Release what an exception's traceback keeps open while the disk is still the simulated one.
    text = None if err is None else type(err).__name__ + ": " + str(err)[:200]
    err = None
    events = disk.disarm()
    return text, disk.fired(), events, disk.log()


def load_once(name, plan=""):
    disk = seams.Disk()
    disk.arm(os.getcwd(), plan)
    try:
        with seams.quiet(), sim_sleep():
            got = world.sut()["load"](file_of(name))
        res = ("ok", check_loaded(got))
    except Violation:
        disk.disarm()
        raise
    except BaseException as e:
        res = ("raise", type(e).__name__ + ": " + str(e)[:200])
    n = disk.disarm()
    return res, disk.fired(), n, disk.log()


def check_loaded(got):
    if not isinstance(got, dict):
        raise Violation("form", f"load() returned a {type(got).__name__}, not a dictionary")
    for k, v in got.items():
        if not isinstance(v, np.ndarray):
            raise Violation("form", f"load() returned a {type(v).__name__} for {k}, not an array")
    return image(got)


def digest_file(path):
    try:
        with open(path, "rb") as f:
            return hashlib.sha256(f.read()).hexdigest()[:16]
    except FileNotFoundError:
        return None


def differs(got, want, what):
    d = world.diff_image(got, want, "loaded", "stored")
    return f"{what}: {d}" if d else ""


def short_plan(seed, p, n=600, eintr=0.0):
    """Short transfers (and interrupted calls) at random events."""
    r = random.Random(f"short:{seed}")
    out = []
    for i in range(n):
        if r.random() < p:
            out.append(f"{i}:S:{r.choice((1, 2, 7, 100, 511, 4000))}")
        if len(out) >= 900:
            break
    return ";".join(out)


def dry_save(name, out):
    """System calls and statements of an undisturbed save (on a copy of the directory)."""
    import shutil

    def go():
        new = os.getcwd() + "-dry"
        shutil.copytree(os.getcwd(), new)
        try:
            os.chdir(new)
            with seams.Tracer() as t:
                err, _, n, log = save_once(name, out)
            return err, n, log, sorted(t.names())
        finally:
            shutil.rmtree(new)
    r = in_process(go)
    if r[0] != "ok":
        return None, [], []
    return r[1][1], r[1][2], r[1][3]


def gen_fault(rng, kinds):
    k = rng.choice(kinds)
    f = {"kind": k, "u": round(rng.random(), 6), "v": round(rng.random(), 6), "errno": rng.choice(sorted(ERRNOS))}
    if k == "error" and rng.random() < 0.3:
        f["errno"] = "EINTR"
    if k == "statement":
        f["exc"] = rng.choice(sorted(seams.EXC) + ["kill", "kill"])
    return f


def resolve(f, n, log, names, size):
    """A concrete fault plan from a seeded fault description."""
    if f["kind"] == "none" or not n:
        return "", None
    errnos = dict(ERRNOS, EINTR=errno.EINTR)
    i = min(int(f["u"] * n), n - 1)
    ln = log[i][4] if i < len(log) else 0
    if f["kind"] == "error":
        return f"{i}:E:{errnos[f['errno']]}", None
    if f["kind"] == "two_errors":
        j = min(i + int(f["v"] * 12), n - 1)
        return f"{i}:E:{errnos[f['errno']]};{j}:E:5", None
    if f["kind"] == "persistent":
        return f"{i}:P:{errnos[f['errno']] if f['errno'] != 'EINTR' else errno.EIO}", None
    if f["kind"] == "full":
        return f"q:{int(f['u'] * size * 1.05)}", None
    if f["kind"] == "crash_before":
        return f"{i}:X:0", None
    if f["kind"] == "crash_torn":
        return f"{i}:C:{int(f['v'] * max(ln, 1)) if f['v'] < 0.9 else -1}", None
    if f["kind"] == "short":
        return short_plan(int(f["v"] * 1e6), 0.3), None
    if f["kind"] == "short_error":
        p = ";".join(q for q in short_plan(int(f["v"] * 1e6), 0.1).split(";") if q and int(q.split(":")[0]) != i)
        return f"{i}:E:{errnos[f['errno']]};{p}", None
    if f["kind"] == "statement":
        if not names:
            return "", None
        site = seams.pick_site([tuple(x) for x in names], f["u"], f["v"])
        exc = (lambda m: os._exit(137)) if f["exc"] == "kill" else seams.EXC[f["exc"]]
        return "", seams.FastTracer(site, exc)
    raise ValueError(f["kind"])


def fault_name(f):
    return {"statement": "kill_at_statement" if f.get("exc") == "kill" else f"{f.get('exc')}_at_statement"}.get(f["kind"], f["kind"])
