"""C06: the command line reports success only for a stored, complete run."""
import copy
import errno
import io
import json
import os
import random
import runpy
import sys
import warnings

import numpy as np

from .. import seams, storage, world
from ..core import Violation

ID = "C06"
RUNS = {"quick": 700, "thorough": 20000}
RUN_TIMEOUT = 300
CPU_LIMIT = 120
RULE = ("one run = one or two executions of the real command line (vgpa_main.py as __main__ in its own process) with a seeded parameter file - valid, missing, "
        "unreadable, truncated at any byte, not JSON, with missing or invalid entries - and at most one disturbance: an exception or interrupt at a "
        "statement of the program, a disk error, a full disk, short transfers, a standard output that breaks; exit status, output and result file are compared with an "
        "undisturbed run through the API; non-trivial = the file was invalid or the disturbance struck")
STATES = "distinct (model, parameter defect or disturbance and its place, exit status, message, file) signatures"
REAL = ["vgpa_main.py", "src/ (everything)", "h5py, HDF5, zlib"]
STUB = ["statement failures (tracer)", "standard output (may break)", "system calls on the scratch directory (shim)", "interpreter start-up (the program runs by runpy in a forked process)",
        "optimiser iteration limit (tuning knob)"]
ASSUMPTIONS = ["exit status is derived from the exception that leaves the program, as the interpreter does"]

TOP = ("Output_Name", "Model", "Ode-method", "Time-window", "Noise", "Observations", "Drift", "Prior", "Random-Seed")
NESTED = (("Time-window", "t0"), ("Time-window", "tf"), ("Time-window", "dt"), ("Noise", "sys"), ("Noise", "obs"),
          ("Observations", "density"), ("Drift", "theta"), ("Prior", "mu0"), ("Prior", "tau0"))
BADVAL = (("Model", None, "XX"), ("Model", None, None), ("Model", None, 3), ("Model", None, ["DW"]), ("Ode-method", None, "leapfrog"), ("Ode-method", None, None),
          ("Ode-method", None, 4), ("Noise", "sys", -0.5), ("Noise", "sys", 0.0), ("Noise", "sys", float("nan")), ("Noise", "sys", "abc"),
          ("Noise", "sys", None), ("Noise", "sys", [[1.0, 2.0], [2.0, 1.0]]), ("Noise", "obs", None), ("Noise", "obs", "x"), ("Noise", "obs", -0.1),
          ("Noise", "obs", 0.0), ("Noise", "obs", float("nan")),
          ("Time-window", "dt", 0.0), ("Time-window", "dt", -0.01), ("Time-window", "dt", None), ("Time-window", "dt", "0.01"), ("Time-window", "dt", float("nan")),
          ("Time-window", "tf", "<t0"), ("Time-window", "tf", None), ("Time-window", "t0", None), ("Time-window", "t0", "zero"),
          ("Observations", "density", 10 ** 7), ("Observations", "density", None), ("Observations", "density", "many"), ("Observations", "density", -3),
          ("Observations", "density", 0),
          ("Drift", "theta", None), ("Drift", "theta", "abc"), ("Drift", "theta", [1.0, 2.0]), ("Prior", "tau0", None), ("Prior", "mu0", "abc"),
          ("Prior", "tau0", -0.5),
          ("Random-Seed", None, -1), ("Random-Seed", None, "abc"), ("Random-Seed", None, 1.5),
          ("Noise", None, None), ("Drift", None, 3), ("Time-window", None, []), ("Observations", None, "x"), ("Prior", None, None))
KINDS = ("statement", "statement", "statement", "statement", "error", "error", "full", "persistent", "short", "stdout", "stdout", "file", "file", "file", "value", "value", "none")


def warm():
    world.warm(evaluate=True)
    storage.warm(real=False)
    with seams.quiet():
        try:
            runpy.run_path(seams.MAIN, run_name="warm")
        except Exception:
            pass


def gen(rng, index, tier):
    acts = []
    for i in range(rng.choice((1, 1, 2))):
        p = world.gen_params(rng, weights=(6, 5, 3, 0.15), small=True)
        p["Output_Name"] = rng.choice(("Sim_A", "Sim_A", "two words", None, "v1.2"))
        k = rng.choice(KINDS)
        a = {"params": p, "kind": k, "u": round(rng.random(), 6), "v": round(rng.random(), 6), "exc": rng.choice(sorted(seams.EXC)),
             "errno": rng.choice(sorted(storage.ERRNOS) + ["EINTR"]), "part": rng.choice(("main", "any", "any")), "mute": rng.random() < 0.3}
        if k == "file":
            a["how"] = rng.choice(("missing", "trailing", "directory", "empty", "truncated", "truncated", "truncated", "binary", "nondict", "nokey", "nokey", "nonested", "nonested", "noarg", "noparams"))
        if k == "value":
            a["how"] = rng.randrange(len(BADVAL))
        acts.append(a)
    return {"acts": acts, "cap": rng.choice((1, 2, 3))}


def write_params(a):
    """Writes the parameter file; True if the program must refuse it."""
    p = copy.deepcopy(a["params"])
    r = random.Random(f"file:{a['u']}")
    how = a.get("how")
    bad = False
    if a["kind"] == "value":
        k, s, v = BADVAL[how]
        if v == "<t0":
            v = p["Time-window"]["t0"] - 0.5
        if s is None:
            p[k] = v
        else:
            p[k][s] = v
        bad = True
    text = json.dumps(p, indent=2)
    if a["kind"] == "file":
        bad = True
        if how == "missing" or how == "noarg" or how == "noparams":
            return True
        if how == "directory":
            os.mkdir("params.json")
            return True
        if how == "empty":
            text = r.choice(("", " \n"))
        elif how == "truncated":
            text = text[:r.choice((int(a["v"] * len(text)), len(text) - 1, len(text) - 2))]
        elif how == "binary":
            with open("params.json", "wb") as f:
                f.write(bytes(r.randrange(256) for _ in range(200)) + b"\xff\xfe")
            return True
        elif how == "nondict":
            text = r.choice(("[]", "null", "3", '"abc"', "[1, 2]", json.dumps(list(p))))
        elif how == "trailing":
            text += r.choice((text, " x", "}", "\n{}", ",", "\n\x00"))
        elif how == "nokey":
            p.pop(r.choice(TOP))
            text = json.dumps(p)
        elif how == "nonested":
            x, y = r.choice(NESTED)
            p[x].pop(y)
            text = json.dumps(p)
    with open("params.json", "w") as f:
        f.write(text)
    return bad


def failure(a):
    """The exception to raise; real ones often carry no message (memory, interrupts, assertions)."""
    cls = seams.EXC[a["exc"]]
    return (lambda m: cls()) if a["mute"] else cls


class Output(io.StringIO):
    """Standard output that breaks at its n-th write (once, or for good)."""

    def __init__(self, at=None, err=0, once=False):
        super().__init__()
        self.n, self.at, self.err, self.once = 0, at, err, once
        self.on_fire = None

    def write(self, s):
        self.n += 1
        if self.at is not None and (self.n == self.at + 1 if self.once else self.n > self.at):
            if self.on_fire:
                self.on_fire()
                self.on_fire = None
            if self.err == "closed":
                raise ValueError("I/O operation on closed file.")
            if self.err == "encoding":
                raise UnicodeEncodeError("ascii", s or "?", 0, 1, "ordinal not in range(128)")
            raise OSError(self.err, os.strerror(self.err))
        return super().write(s)


def execute(argv, trace=None, out=None):
    """Runs the program as the interpreter would: (status, output, exception)."""
    out = out or Output()
    saved = sys.argv, sys.stdout, sys.stderr
    sys.argv, sys.stdout, sys.stderr = [seams.MAIN] + argv, out, io.StringIO()
    status, exc = 0, None
    late = []
    if trace:
        # A failure after the announcement is no failure of the run.
        trace.on_fire = lambda: late.append("completed" in out.getvalue().lower())
    out.on_fire = lambda: late.append("completed" in out.getvalue().lower())
    try:
        try:
            if trace:
                with trace:
                    runpy.run_path(seams.MAIN, run_name="__main__")
            else:
                runpy.run_path(seams.MAIN, run_name="__main__")
        except SystemExit as e:
            status = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
            exc = f"SystemExit({e.code!r})"
        except BaseException as e:
            status, exc = 1, f"{type(e).__name__}: {str(e)[:150]}"
    finally:
        sys.argv, sys.stdout, sys.stderr = saved
    return status & 0xFF, out.getvalue(), exc, any(late)


def program(a, cap, sites=False, trace=None, plan="", out=None):
    argv = ["--params", "params.json"]
    if a.get("how") == "noarg" and a["kind"] == "file":
        argv = []
    elif a.get("how") == "noparams" and a["kind"] == "file":
        argv = ["--data", "nothing.csv"]

    def go():
        warnings.simplefilter("ignore")
        t = seams.Tracer(main=True) if sites else trace
        disk = seams.Disk()
        disk.arm(os.getcwd(), plan)
        with world.Cap(cap), np.errstate(all="ignore"):
            o = out or Output()
            st, text, exc, late = execute(argv, t, o)
        n = disk.disarm()
        fired = disk.fired()
        if o.at is not None and o.n > o.at:
            fired["broken_stdout"] = 1
        return st, text, exc, n, fired, (sorted(t.names()) if sites else bool(t and t.fired)), disk.log(), late, o.n
    return storage.in_process(go, 200)


def reference(a, cap, name):
    """The same parameters through the API, undisturbed, elsewhere."""
    def go():
        warnings.simplefilter("ignore")
        with seams.scratch():
            p = json.loads(json.dumps(a["params"]))
            with seams.quiet(), np.errstate(all="ignore"), world.Cap(cap):
                sim = world.sut()["Simulation"](name)
                sim.setup(p, None)
                sim.run()
            return storage.image(sim.output)
    return storage.in_process(go, 200)


def run(sc, cov):
    cov.trivial = True
    cap = sc["cap"]
    with seams.scratch():
        for i, a in enumerate(sc["acts"]):
            if os.path.isdir("params.json"):
                os.rmdir("params.json")
            elif os.path.exists("params.json"):
                os.unlink("params.json")
            name = a["params"]["Output_Name"] or "Sim_00"
            f = storage.file_of(name)
            if os.path.exists(f):
                old = storage.digest_file(f)
            else:
                old = None
            bad = write_params(a)
            want = None
            if not bad:
                st, want = reference(a, cap, name)
                if st != "ok":
                    cov.hit("unusable_parameters")
                    return
            trace, plan, label = None, "", a["kind"]
            output = None
            if a["kind"] in ("statement", "error", "full", "persistent", "short", "stdout"):
                # Where a disturbance can strike: from an undisturbed execution on a copy.
                cwd = os.getcwd()
                import shutil
                shutil.copytree(cwd, cwd + "-dry")
                try:
                    os.chdir(cwd + "-dry")
                    st, r = program(a, cap, sites=a["kind"] == "statement")
                finally:
                    os.chdir(cwd)
                    shutil.rmtree(cwd + "-dry")
                if st != "ok":
                    raise RuntimeError(f"dry run: {st} {r}")
                n, names, log = r[3], r[5], r[6]
                if a["kind"] == "statement":
                    if a["part"] == "main":
                        names = [x for x in names if x[0].startswith("vgpa_main")] or names
                    # Statements of main that run before __main__ is reached at all are start-up.
                    site = seams.pick_site([tuple(x) for x in names], a["u"], a["v"])
                    trace = seams.FastTracer(site, failure(a), main=True)
                    label = f"{a['exc']}{' (no message)' if a['mute'] else ''} at {site[0]}"
                elif a["kind"] == "stdout":
                    output = Output(int(a["u"] * r[8]), (errno.EPIPE, errno.ENOSPC, errno.EPIPE, "closed", errno.EIO, "encoding")[int(a["v"] * 6)], a["mute"] or a["part"] == "main")
                    label = f"standard output broken after {output.at} writes ({'once' if output.once else 'for good'}, {output.err})"
                else:
                    size = sum(x[4] for x in log if x[1] == "w") + sum(os.path.getsize(x) for x in os.listdir(".") if os.path.isfile(x))
                    plan, _ = storage.resolve(a, n, log, [], size)
                    label = f"{a['kind']} {plan[:40]}"
            st, r = program(a, cap, trace=trace, plan=plan, out=output)
            if a["kind"] in ("file", "value"):
                label = f"{a['kind']}: {a['how'] if a['kind'] == 'file' else BADVAL[a['how']]}"
            what = f"execution {i} ({a['params']['Model']}/{a['params']['Ode-method']}, {label})"
            if st == "raise":
                raise RuntimeError(f"harness: {r}")
            if st == "died":
                status, out, exc, fired, struck, late = 139, "", "died", {}, True, False
            else:
                status, out, exc, n, fired, struck, _, late, _ = r
            struck = struck or bool(fired) or bad
            cov.trivial = cov.trivial and not struck
            if bad:
                cov.fault("invalid_parameters")
            elif trace and struck:
                cov.fault(f"{a['exc']}_at_statement")
            for k, c in fired.items():
                cov.fault(k, c)
            said = "completed" in out.lower()
            got = None
            if os.path.exists(f):
                x, y = storage.in_process(lambda: storage.read_reference(f))
                got = y if x == "ok" else "unreadable"
            cov.state(a["params"]["Model"], label, status, said, got == want)
            cov.log(i, label, status, said, exc, got)
            cov.hit(f"status_{'zero' if status == 0 else 'nonzero'}")
            cov.steps += 1
            if bad and (status == 0 or said):
                raise Violation("success_on_invalid", f"{what}: invalid parameters, but exit status {status}{', completion announced' if said else ''}")
            if status != 0 and said and not late:
                raise Violation("announced", f"{what}: completion announced, exit status {status} ({exc})")
            if status == 0 or (said and late):
                if got is None:
                    raise Violation("success_without_results", f"{what}: success reported, but there is no result file {f}: {sorted(os.listdir('.'))}")
                if got == "unreadable":
                    raise Violation("success_without_results", f"{what}: success reported, but the result file is unreadable")
                d = storage.differs(got, want, f"{what}: success reported, result file")
                if d:
                    raise Violation("success_without_results", d)
                if not said:
                    raise Violation("announced", f"{what}: exit status 0 without the completion message")
            elif not struck:
                raise Violation("failed", f"{what}: an undisturbed run with valid parameters ended with status {status} ({exc})")
            elif a["kind"] == "short" and set(fired) <= {"short_transfer"}:
                raise Violation("failed", f"{what}: short transfers made the run fail: {exc}")


def shrink(sc):
    out = []
    for i in range(len(sc["acts"])):
        if len(sc["acts"]) > 1:
            out.append(dict(sc, acts=sc["acts"][:i] + sc["acts"][i + 1:]))
    for i, a in enumerate(sc["acts"]):
        for q in world.shrink_params(a["params"]):
            out.append(dict(sc, acts=sc["acts"][:i] + [dict(a, params=q)] + sc["acts"][i + 1:]))
    if sc["cap"] > 1:
        out.append(dict(sc, cap=1))
    return out
