"""C26: every operation leaves the process and the directory as it found them."""
import ast
import atexit
import builtins
import collections
import decimal
import faulthandler
import gc
import io
import json
import locale
import logging
import math
import os
import pathlib
import random
import resource
import shutil
import signal
import socket
import sys
import tempfile
import threading
import time
import tracemalloc
import types
import warnings

import h5py
import numpy as np
import scipy.linalg

from .. import seams, storage, world
from ..core import Violation

ID = "C26"
RUNS = {"quick": 700, "thorough": 25000}
RUN_TIMEOUT = 200
CPU_LIMIT = 120
DEATH = "an operation killed the process"
RULE = ("one run = one process that performs a seeded history of operations (set-up, run, save, load, optimisation, path generation, observation), many of which fail (an exception at "
        "a seeded statement, a disk error on a seeded system call, a full disk, damaged or missing files), some repeated up to 200 times with few file descriptors "
        "allowed; after each operation open descriptors and HDF5 objects, files in the directory, threads, child processes and all process-wide settings "
        "must be what they were, files stored before must be unchanged, and at the end a save and a load succeed; non-trivial = a fault struck")
STATES = "distinct (operation, fault, place) signatures"
REAL = ["src/ (everything)", "h5py, HDF5, zlib"]
STUB = ["statement failures (tracer)", "system calls on the scratch directory (shim)", "optimiser iteration limit (tuning knob)"]
ASSUMPTIONS = ["when the disk also refuses to remove a temporary file (second or persistent error), that file may stay",
               "exceptions and their tracebacks have been released by the caller"]
FAULTS = ("none", "none", "statement", "statement", "error", "error", "full", "short_error", "persistent")
OPS = ("setup", "run", "save", "save", "save", "load", "load", "scg", "path", "obs", "load_damaged", "load_missing")


BASE = {}
LIBRARIES = (builtins, os, os.path, math, time, random, io, json, shutil, tempfile, pathlib, np, np.random, np.linalg, scipy.linalg, h5py)
CHANGES = ("open file descriptors", "working directory", "threads", "child processes", "standard streams", "warning filters", "resource limits", "environment", "process group", "global random state")


def warm():
    world.sut()
    tempfile.gettempdir()
    # Not those that the simulator itself changes from one run to the next.
    BASE.update({k: v for k, v in snapshot().items() if k not in CHANGES})
    BASE["environment"] = dict(os.environ)
    world.warm()
    storage.warm()


def gen(rng, index, tier):
    ps = [world.gen_params(rng, weights=(6, 5, 2, 0.05), small=True) for _ in range(rng.choice((1, 2)))]
    ops = []
    for _ in range(rng.choice((2, 3, 5, 8))):
        o = rng.choice(OPS)
        k = rng.choice(FAULTS)
        if o in ("save", "load"):
            k = "error" if k == "statement" else k
        elif o in ("load_damaged", "load_missing"):
            k = "none"
        elif k != "none":
            k = "statement"
        f = storage.gen_fault(rng, (k,)) if k != "none" else {"kind": "none", "u": 0.0, "v": 0.0, "errno": "EIO"}
        if f.get("exc") == "kill":
            f["exc"] = rng.choice(sorted(seams.EXC))
        if o in ("setup", "run") and rng.random() < 0.2:
            f["bad"] = rng.choice(("noise", "model", "solver", "missing"))
        p = rng.randrange(len(ps))
        times = rng.choice((1, 1, 1, 1, 3, 60, 200)) if o in ("save", "load", "load_damaged", "load_missing") else 1
        if times == 1 and rng.random() < 0.2 and ps[p]["Model"] in ("DW", "OU"):
            times = 30
        ops.append({"op": o, "p": p, "fault": f, "out": storage.gen_output(rng, big=False), "name": rng.choice(("run", "two words")),
                    "times": times, "v": round(rng.random(), 6), "bad": rng.random() < 0.12, "damage": rng.choice(("truncate", "flip", "garbage"))})
    return {"params": ps, "ops": ops, "fds": rng.random() < 0.5}


CAN_FAIL = {}
TRIVIAL = {"len", "range", "enumerate", "print", "str", "int", "float", "bool", "repr", "isinstance", "list", "dict", "tuple", "set", "type", "id", "super", "zip", "sorted"}


def can_fail(site):
    """Whether a statement is one that may fail and need not clean up: it calls
    something that is not trivial, is no head of a with-block (an exception
    raised by the tracer on leaving the block keeps Python from calling __exit__,
    which no exception of the program can), and is not itself part of clean-up
    code (handlers and finally-blocks)."""
    name, _, line = site.rsplit(":", 2)
    if name not in CAN_FAIL:
        lines = set()

        def calls(node):
            for x in ast.walk(node):
                if isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and x.func.id in TRIVIAL):
                    return True
            return False

        def visit(body):
            for x in body:
                subs = [getattr(x, k, None) or [] for k in ("body", "orelse")]
                if isinstance(x, ast.Try):
                    visit(x.body)
                    visit(x.orelse)
                elif isinstance(x, (ast.With, ast.AsyncWith, ast.FunctionDef, ast.ClassDef)):
                    visit(x.body)
                elif isinstance(x, (ast.For, ast.While, ast.If)):
                    if calls(x.iter if isinstance(x, ast.For) else x.test):
                        lines.update(range(x.lineno, x.body[0].lineno))
                    for s in subs:
                        visit(s)
                elif calls(x):
                    lines.update(range(x.lineno, x.end_lineno + 1))
        with open(os.path.join(seams.REPO, name)) as f:
            visit(ast.parse(f.read()).body)
        CAN_FAIL[name] = lines
    return int(line) in CAN_FAIL[name]


def descriptors():
    out = {}
    for n in os.listdir("/proc/self/fd"):
        try:
            out[int(n)] = os.readlink(f"/proc/self/fd/{n}")
        except OSError:
            pass
    return out


def snapshot():
    return {
        "open file descriptors": descriptors(),
        "open HDF5 objects": h5py.h5f.get_obj_count(h5py.h5f.OBJ_ALL, h5py.h5f.OBJ_ALL),
        "threads": threading.active_count(),
        "child processes": open(f"/proc/self/task/{os.getpid()}/children").read() if os.path.exists(f"/proc/self/task/{os.getpid()}/children") else "",
        "working directory": os.getcwd(),
        "environment": dict(os.environ),
        "umask": umask(),
        "signal handlers": [repr(signal.getsignal(s)) for s in sorted(signal.valid_signals())],
        "blocked signals": sorted(signal.pthread_sigmask(signal.SIG_BLOCK, ())),
        "timers": [signal.getitimer(k) for k in (signal.ITIMER_REAL, signal.ITIMER_VIRTUAL)],
        "thread switch interval": sys.getswitchinterval(),
        "thread stack size": threading.stack_size(),
        "processors": sorted(os.sched_getaffinity(0)),
        "priority": (os.nice(0), os.sched_getscheduler(0)),
        "user and group": (os.getresuid(), os.getresgid()),
        "process group": (os.getpgid(0), os.getsid(0)),
        "configuration of h5py": (h5py.get_config().track_order, h5py.get_config().complex_names, h5py.get_config().bool_names),
        "decimal context": repr(decimal.getcontext()),
        "fault handler": faulthandler.is_enabled(),
        "memory tracing": tracemalloc.is_tracing(),
        "NumPy buffer size": np.getbufsize(),
        "temporary directory": tempfile.tempdir,
        "time zone": (time.tzname, time.timezone),
        "socket timeout": socket.getdefaulttimeout(),
        "bytecode and flags": (sys.dont_write_bytecode, sys.getdlopenflags(), getattr(sys, "tracebacklimit", None), sys.get_int_max_str_digits()),
        "floating-point error handling": (np.geterr(), repr(np.geterrcall())),
        "print options": {k: repr(v) for k, v in np.get_printoptions().items()},
        "global NumPy random state": repr([x.tolist() if hasattr(x, "tolist") else x for x in np.random.get_state()]),
        "global random state": hash(random.getstate()),
        "warning filters": [repr(f) for f in warnings.filters],
        "standard streams": (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
        "module search path": list(sys.path),
        "hooks": (repr(sys.excepthook), repr(sys.displayhook), repr(sys.unraisablehook), repr(sys.breakpointhook), repr(sys.gettrace()), repr(sys.getprofile()), repr(threading.excepthook)),
        "recursion limit": sys.getrecursionlimit(),
        "resource limits": [resource.getrlimit(getattr(resource, r)) for r in dir(resource) if r.startswith("RLIMIT_")],
        "garbage collection": (gc.isenabled(), gc.get_threshold()),
        "logging": (logging.root.level, len(logging.root.handlers), logging.root.manager.disable),
        "locale": locale.setlocale(locale.LC_ALL),
        "functions of the libraries": {f"{m.__name__}.{k}": id(v) for m in LIBRARIES for k, v in vars(m).items() if callable(v)},
    }


def kept():
    """How much the modules under test keep: entries of containers reachable from their globals, classes and default arguments."""
    todo = [vars(m) for n, m in sorted(sys.modules.items()) if (n == "src" or n.startswith("src.")) and m is not None]
    seen, total = set(), 0
    while todo:
        o = todo.pop()
        if id(o) in seen:
            continue
        seen.add(id(o))
        if isinstance(o, dict):
            parts = [v for k, v in list(o.items()) if not str(k).startswith("__")]
        elif isinstance(o, (list, tuple, set, frozenset, collections.deque)):
            parts = list(o)
        elif isinstance(o, type):
            if not str(o.__module__).startswith("src"):
                continue
            parts = list(vars(o).values())
        elif hasattr(o, "cache_info"):
            total += o.cache_info().currsize
            continue
        elif isinstance(o, types.FunctionType):
            parts = [*(o.__defaults__ or ()), *(o.__kwdefaults__ or {}).values(), *(c.cell_contents for c in (o.__closure__ or ()) if c != types.CellType())]
        elif str(type(o).__module__).startswith("src"):
            parts = [getattr(o, k, None) for t in type(o).__mro__ for k in (getattr(t, "__slots__", ()) or ())] + list(getattr(o, "__dict__", {}).values())
        else:
            continue
        total += len(parts)
        todo += parts
    return total


def umask():
    m = os.umask(0)
    os.umask(m)
    return m


def files():
    out = {}
    for d, _, fs in os.walk("."):
        for f in fs:
            p = os.path.relpath(os.path.join(d, f), ".")
            out[p] = storage.digest_file(p)
        if d != ".":
            out[os.path.relpath(d, ".") + "/"] = None
    return out


def difference(a, b):
    for k in a:
        if a[k] != b[k]:
            if isinstance(a[k], dict):
                ks = [x for x in sorted(set(a[k]) | set(b[k]), key=str) if a[k].get(x) != b[k].get(x)]
                if k.startswith("functions"):
                    # Libraries may load parts of themselves later.
                    ks = [x for x in ks if x in a[k] and x in b[k]]
                    if not ks:
                        continue
                return f"{k}: " + ", ".join(f"{x}: {a[k].get(x)!r} -> {b[k].get(x)!r}" for x in ks[:3])
            return f"{k}: {str(a[k])[:80]} -> {str(b[k])[:80]}"
    return ""


def spoiled(p, how):
    q = dict(p)
    if how == "noise":
        q["Noise"] = dict(p["Noise"], sys=-1.0)
    elif how == "model":
        q["Model"] = "XX"
    elif how == "solver":
        q["Ode-method"] = "none"
    elif how == "missing":
        q.pop("Prior")
    return q


def plan_of(op, size):
    """The fault plan of a save or load, from an undisturbed one on a copy of the directory."""
    f = op["fault"]
    if f["kind"] in ("none", "statement"):
        return ""
    if op["op"] == "save":
        n, log, _ = storage.dry_save(op["name"], storage.make_output(op["out"]))
    else:
        st, r = storage.in_process(lambda: storage.load_once(op["name"]))
        n, log = (r[2], r[3]) if st == "ok" else (0, [])
    return storage.resolve(f, n, log, [], size)[0] if n else ""


def run(sc, cov):
    warnings.simplefilter("ignore")
    with seams.scratch():
        st, r = storage.in_process(lambda: history(sc), 100)
    if st == "died":
        raise Violation("process_died", f"{DEATH} ({r})")
    if st == "raise":
        raise RuntimeError(f"harness: {r}")
    cov.trivial = True
    for op, fault, fired, place, err, n in r:
        if fired:
            cov.trivial = False
            for k, c in fired.items():
                cov.fault(k, c)
        cov.hit(f"{op}_{'raised' if err else 'done'}", n)
        cov.state(op, fault, place, bool(err))
        cov.log(op, fault, sorted(fired.items()), place, err, n)
        cov.steps += n


def history(sc):
    s = world.sut()
    sims = [s["Simulation"](f"sim{i}") for i in range(len(sc["params"]))]
    done = [0] * len(sims)
    ready = []
    with world.Cap(2), seams.quiet():
        # Simulations to work with; and one of everything, so that lazily made things exist.
        for i, p in enumerate(sc["params"]):
            try:
                with np.errstate(all="ignore"):
                    sims[i].setup(p, None)
                    sims[i].run()
                ready.append(i)
            except Exception:
                pass
        for name in ("run", "two words"):
            storage.simulation(name, {"fx": 1.0}).save()
            s["load"](storage.file_of(name))
        try:
            s["load"]("nowhere.h5")
        except Exception:
            pass
    now = snapshot()
    d = difference(BASE, {k: now[k] for k in BASE})
    if d:
        raise Violation("left_behind", f"after the first set-up, run, save and load in a process: {d}")
    if sc["fds"]:
        resource.setrlimit(resource.RLIMIT_NOFILE, (max(descriptors()) + 24, resource.getrlimit(resource.RLIMIT_NOFILE)[1]))
    out = []
    for k, op in enumerate(sc["ops"]):
        out.append(one(k, op, sc, sims, ready, s))
    # Nothing has been used up.
    last = {"fx": 2.0, "at": np.arange(5.0)}
    err, _, _, _ = storage.save_once("last one", last)
    if err:
        raise Violation("used_up", f"after {[(o['op'], o['fault']['kind'], o['times']) for o in sc['ops']]}: saving fails: {err}")
    got, _, _, _ = storage.load_once("last one")
    if got[0] != "ok":
        raise Violation("used_up", f"after {[(o['op'], o['fault']['kind'], o['times']) for o in sc['ops']]}: loading fails: {got[1]}")
    return out


def one(k, op, sc, sims, ready, s):
    name, f = op["op"], op["fault"]
    target = storage.file_of(op["name"])
    sim, p = sims[op["p"]], sc["params"][op["p"]]
    size = 20000 + sum(os.path.getsize(x) for x in os.listdir(".") if os.path.isfile(x))
    own = set()

    if name == "setup":
        q = spoiled(p, f.get("bad"))

        def act():
            s["Simulation"]("other").setup(q, None)
    elif name == "run":
        if op["p"] not in ready:
            return name, "unusable", {}, "", None, 0

        def act():
            sim.run()
    elif name == "save":
        src = storage.simulation(op["name"], storage.make_output(op["out"]))
        if op["bad"]:
            # Something that cannot be stored, before, between or after the rest.
            items = list(src.output.items())
            items.insert(int(op["v"] * (len(items) + 1)), ("unusable", np.array([object(), None])))
            src.output = dict(items)
        own.add(target)

        def act():
            src.save()
    elif name == "load":
        def act():
            s["load"](target)
    elif name == "load_missing":
        def act():
            s["load"]("missing.h5")
    elif name == "load_damaged":
        b = bytearray(open(target, "rb").read())
        if op["damage"] == "truncate":
            b = b[:int(op["v"] * len(b))]
        elif op["damage"] == "flip":
            b[int(op["v"] * len(b))] ^= 1 << int(op["v"] * 1e6) % 8
        else:
            b = bytearray(random.Random(op["v"]).randbytes(3000))
        with open("damaged.h5", "wb") as h:
            h.write(b)

        def act():
            s["load"]("damaged.h5")
    elif name == "scg":
        def act():
            o = s["SCG"](lambda x: float(x.dot(x)), lambda x, eval_fun=False: 2 * x, {"max_it": 3, "display": True})
            o(np.array([1.0, 2.0]))
            o.check_gradient_function(np.array([1.0, 2.0]))
    else:
        if op["p"] not in ready:
            return name, "unusable", {}, "", None, 0
        m = s["models"][p["Model"]](p["Noise"]["sys"], p["Drift"]["theta"], 1)
        w = p["Time-window"]
        if name == "obs":
            m.make_trajectory(w["t0"], w["tf"], w["dt"])

        def act():
            if name == "path":
                m.make_trajectory(w["t0"], w["tf"], w["dt"])
            else:
                m.collect_obs(p["Observations"]["density"], p["Noise"]["obs"], None)
    plan = plan_of(op, size)
    tr = None
    if f["kind"] == "statement":
        # The statements it executes (in another process).
        def dry():
            with seams.Tracer() as t, seams.quiet(), np.errstate(all="ignore"), world.Cap(2):
                here = os.getcwd()
                shutil.copytree(here, here + "-dry")
                try:
                    os.chdir(here + "-dry")
                    act()
                except Exception:
                    pass
                finally:
                    shutil.rmtree(here + "-dry")
            return sorted(t.names())
        st, names = storage.in_process(dry, 100)
        if st != "ok" or not names:
            return name, "unusable", {}, "", None, 0
        names = [x for x in names if can_fail(x[0])]
        if not names:
            return name, "unusable", {}, "", None, 0
        site = seams.pick_site([tuple(x) for x in names], f["u"], f["v"])
    gc.collect()
    fired, err = {}, None
    with np.errstate(over="warn"), world.Cap(2):
        before, there = snapshot(), files()
        disk = seams.Disk()
        n, blocks, handlers = 0, [], atexit._ncallbacks()
        thirds = [op["times"] * j // 3 for j in (1, 2, 3)] if op["times"] >= 30 else []
        for _ in range(op["times"]):
            tr = seams.FastTracer(site, seams.EXC[f["exc"]]) if f["kind"] == "statement" else None
            text = open(os.devnull, "w")
            sys.stdout, keep = text, sys.stdout
            if plan:
                disk.arm(os.getcwd(), plan)
            err = None
            try:
                if tr:
                    with tr:
                        act()
                else:
                    act()
            except BaseException as e:
                err = type(e).__name__
                e.__traceback__ = None
            now_out = sys.stdout
            sys.stdout = keep
            text.close()
            if plan:
                disk.disarm()
                for a, c in disk.fired().items():
                    fired[a] = fired.get(a, 0) + c
            if now_out is not text:
                raise Violation("left_behind", f"operation {k} ({name}): standard output was replaced")
            if tr and tr.fired:
                fired[f"{f['exc']}_at_statement"] = fired.get(f"{f['exc']}_at_statement", 0) + 1
            n += 1
            tr = None
            if n in thirds:
                gc.collect()
                blocks.append((len(gc.get_objects()), kept()))
        gc.collect()
        after, now = snapshot(), files()
    place = site[0] if f["kind"] == "statement" else plan[:24]
    what = f"operation {k} ({name}{' x' + str(n) if n > 1 else ''}, {f['kind']} {place}{', damage: ' + op['damage'] if name == 'load_damaged' else ''}; {'failed: ' + err if err else 'succeeded'})"
    # (Some library may register something, once.)
    if atexit._ncallbacks() - handlers > 2:
        raise Violation("left_behind", f"{what}: {atexit._ncallbacks() - handlers} functions to be called at exit")
    if blocks and any(all(b[j] - a[j] >= 0.9 * (v - u) for a, b, u, v in zip(blocks, blocks[1:], thirds, thirds[1:])) for j in (0, 1)):
        raise Violation("used_up", f"{what}: each repetition leaves objects behind")
    d = difference(before, after)
    if d:
        raise Violation("left_behind", f"{what}: {d}")
    new = [x for x in now if x not in there and x not in own]
    if new and not (f["kind"] in ("persistent",) or fired.get("persistent_error")):
        raise Violation("files_left", f"{what}: left {new[:3]} behind")
    for x in new:
        os.unlink(x)
    changed = [x for x in there if now.get(x) != there[x] and x not in own]
    if changed:
        raise Violation("files_changed", f"{what}: changed or removed {changed[:3]}")
    return name, f["kind"], fired, place, err, n


def shrink(sc):
    out = []
    ops = sc["ops"]
    for i in range(len(ops)):
        if len(ops) > 1:
            out.append(dict(sc, ops=ops[:i] + ops[i + 1:]))
    for i, o in enumerate(ops):
        for k, v in (("times", 1), ("out", {"kind": "tiny", "n": 2, "seed": 1, "special": False, "model": "DW"})):
            if o[k] != v:
                out.append(dict(sc, ops=ops[:i] + [dict(o, **{k: v})] + ops[i + 1:]))
        if o["fault"]["kind"] != "none":
            out.append(dict(sc, ops=ops[:i] + [dict(o, fault=dict(o["fault"], kind="none"))] + ops[i + 1:]))
    if sc["fds"]:
        out.append(dict(sc, fds=False))
    return out
