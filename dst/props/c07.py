"""C07: a failed attempt leaves nothing behind; a retry equals a fresh run."""
import copy
import os
import warnings

import numpy as np

from .. import seams, storage, world
from ..core import Violation

ID = "C07"
RUNS = {"quick": 400, "thorough": 14000}
RUN_TIMEOUT = 300
CPU_LIMIT = 120
DEATH = "a failing step killed the whole process: nothing can be retried"
RULE = ("one run = one simulation object taken through a seeded history of set-up, run and save, some of which fail (exception injected at a seeded "
        "statement, disk error on a seeded system call, full disk), are repeated after succeeding, or are interleaved with other parameters; after every success "
        "the results are compared bit for bit with those of an undisturbed object in another process; non-trivial = at least one failure and one judged success after it")
STATES = "distinct (model, step, failing function or system call, retry form) signatures"
REAL = ["src/ (everything)", "h5py, HDF5, zlib"]
STUB = ["statement failures (tracer)", "system calls on the scratch directory (shim)", "optimiser iteration limit (tuning knob)"]
ASSUMPTIONS = ["compiled (numba) kernels are atomic: failures strike between Python statements", "disk errors are transient (one call), or end when room is made"]


def warm():
    world.warm(evaluate=True)
    storage.warm(real=False)


def gen(rng, index, tier):
    p = world.gen_params(rng, weights=(6, 5, 3, 0.2), small=True)
    q = world.gen_params(rng, weights=(5, 5, 1, 0), small=True) if rng.random() < 0.3 else None
    steps = []

    def step(name):
        f = {"step": name, "kind": "statement", "u": round(rng.random(), 6), "v": round(rng.random(), 6), "exc": rng.choice(sorted(seams.EXC)),
             "errno": rng.choice(sorted(storage.ERRNOS))}
        if name == "save" and rng.random() < 0.6:
            f["kind"] = rng.choice(("error", "error", "full"))
        return f
    n = rng.choice((1, 1, 2, 3))
    for name in ("setup", "run", "save"):
        for _ in range(rng.choice((0, 1, 1, 2)) if n > 1 or rng.random() < 0.5 else 0):
            fs = step(name)
            fs["restart"] = rng.random() < 0.3      # retry the whole sequence up to here
            steps.append(fs)
        steps.append({"step": name, "kind": "none"})
        if rng.random() < 0.25:
            steps.append({"step": name, "kind": "none"})
        if q and rng.random() < 0.3:
            steps.append({"step": "other", "kind": rng.choice(("none", "statement")), "u": round(rng.random(), 6), "v": round(rng.random(), 6),
                          "exc": rng.choice(sorted(seams.EXC)), "upto": rng.choice(("setup", "run", "save"))})
            steps.append({"step": "all", "kind": "none"})
    if not any(s["kind"] != "none" for s in steps):
        fs = step("run")
        fs["restart"] = rng.random() < 0.5
        steps.insert(rng.randrange(1, len(steps)), fs)
    return {"params": p, "other": q, "cap": rng.choice((1, 2, 3, 4)), "steps": steps, "arrays": rng.random() < 0.3}


def op(sim, name, p, cap):
    with seams.quiet(), np.errstate(all="ignore"), world.Cap(cap):
        if name == "setup":
            sim.setup(p, None)
        elif name == "run":
            sim.run()
        else:
            sim.save()


def result(sim, name):
    if name == "setup":
        return world.setup_image(sim)
    if name == "run":
        return world.sim_image(sim)
    f = storage.file_of("sim")
    return dict(world.sim_image(sim), **{"file:" + k: v for k, v in storage.read_reference(f).items()})


ORDER = ("setup", "run", "save")


def undisturbed(p, cap, name):
    """Images after each step, and the statements each step executes."""
    def go():
        with seams.scratch():
            sim = world.sut()["Simulation"](name)
            out, sites = {}, {}
            for s in ORDER:
                with seams.Tracer() as t:
                    op(sim, s, p, cap)
                sites[s] = sorted(t.names())
                out[s] = result(sim, s)
            return out, sites
    st, r = storage.in_process(go, 200)
    return r if st == "ok" else None


def run(sc, cov):
    warnings.simplefilter("ignore")
    mk = world.arrayify if sc["arrays"] else copy.deepcopy
    p = mk(sc["params"])
    ref = undisturbed(copy.deepcopy(p), sc["cap"], "sim")
    cov.trivial = True
    if ref is None:
        cov.hit("unusable_parameters")
        return
    want, sites = ref
    failed = False
    Sim = world.sut()["Simulation"]
    with seams.scratch():
        sim = Sim("sim")
        done = -1           # index of the last step in force
        for i, s in enumerate(sc["steps"]):
            name = s["step"]
            what = f"step {i} ({name}, {sc['params']['Model']}/{sc['params']['Ode-method']})"
            if name == "other":
                q = copy.deepcopy(sc["other"])
                tr = None
                if s["kind"] == "statement":
                    last = sites[s["upto"]]
                    if last:
                        tr = seams.FastTracer(seams.pick_site(last, s["u"], s["v"]), seams.EXC[s["exc"]])
                try:
                    for k in ORDER[:ORDER.index(s["upto"]) + 1]:
                        if tr and k == s["upto"]:
                            with tr:
                                op(sim, k, q, sc["cap"])
                        else:
                            op(sim, k, q, sc["cap"])
                except Exception:
                    pass
                except seams.INJECTED:
                    pass
                cov.hit("other_parameters")
                done = -1
                continue
            if name == "all" or (s["kind"] == "none" and ORDER.index(name) > done + 1):
                names = ORDER if name == "all" else ORDER[:ORDER.index(name) + 1]
                for k in names:
                    attempt(sim, k, p, sc["cap"], want, what, cov)
                done = ORDER.index(names[-1])
                cov.trivial = cov.trivial and not failed
                continue
            k = ORDER.index(name)
            if k > done + 1:
                continue        # cannot be done now
            if s["kind"] == "none":
                attempt(sim, name, p, sc["cap"], want, what, cov)
                done = max(done, k) if name != "setup" else 0
                if name == "run":
                    done = 1
                cov.trivial = cov.trivial and not failed
                continue
            # An attempt that is meant to fail.
            before = world.image(sim.output) if name == "save" else None
            tr, plan = None, ""
            if s["kind"] == "statement":
                if not sites[name]:
                    continue
                tr = seams.FastTracer(seams.pick_site(sites[name], s["u"], s["v"]), seams.EXC[s["exc"]])
            else:
                n, log, _ = storage.dry_save("sim", dict(sim.output))
                if not n:
                    continue
                size = sum(np.asarray(v).nbytes for v in sim.output.values()) + 9000
                plan, _ = storage.resolve(s, n, log, [], size)
            disk = seams.Disk()
            err = None
            if plan:
                disk.arm(os.getcwd(), plan)
            try:
                if tr:
                    with tr:
                        op(sim, name, p, sc["cap"])
                else:
                    op(sim, name, p, sc["cap"])
            except Exception as e:
                err = type(e).__name__
            except seams.INJECTED as e:
                err = type(e).__name__
            fired = disk.fired() if plan else {}
            if plan:
                disk.disarm()
            if tr and tr.fired:
                cov.fault(f"{s['exc']}_at_statement")
            for a, b in fired.items():
                cov.fault(a, b)
            site = tr.target[0] if tr else (plan.split(":")[1] if ":" in plan else "q")
            cov.state(sc["params"]["Model"], name, site, s["restart"])
            cov.log(i, name, site, plan, err)
            if err is None:
                # Nothing struck, or it was handled: then the step has succeeded.
                if not (tr and tr.fired) or name != "save":
                    compare(sim, name, want, what + " survived a fault")
                done = k if name != "save" else max(done, k)
                continue
            if not (tr and tr.fired) and not fired:
                raise Violation("retry_failed", f"{what}: failed without a fault: {err}")
            failed = True
            if name == "save":
                d = world.diff_image(world.image(sim.output), before, "now", "before")
                if d:
                    raise Violation("left_behind", f"{what}: a failed save changed the results in memory: {d}")
            note = f"{what} after a failure in {site} {plan[:30]}"
            if s["restart"]:
                for r in ORDER[:k + 1]:
                    attempt(sim, r, p, sc["cap"], want, note + ", whole sequence repeated", cov)
            else:
                attempt(sim, name, p, sc["cap"], want, note + ", repeated", cov)
            done = k
            cov.trivial = False
            cov.steps += 1


def attempt(sim, name, p, cap, want, what, cov):
    try:
        op(sim, name, p, cap)
    except Exception as e:
        raise Violation("retry_failed", f"{what}: {name} failed: {type(e).__name__}: {str(e)[:200]}")
    compare(sim, name, want, what)
    cov.hit("successes_judged")


def compare(sim, name, want, what):
    try:
        got = result(sim, name)
    except Exception as e:
        raise Violation("retry_differs", f"{what}: no results after {name}: {type(e).__name__}: {e}")
    d = world.diff_image(got, want[name], "retried", "undisturbed")
    if d:
        raise Violation("retry_differs", f"{what}: after {name}: {d}")


def shrink(sc):
    out = []
    for i in range(len(sc["steps"])):
        if len(sc["steps"]) > 1:
            out.append(dict(sc, steps=sc["steps"][:i] + sc["steps"][i + 1:]))
    for q in world.shrink_params(sc["params"]):
        out.append(dict(sc, params=q))
    if sc["arrays"]:
        out.append(dict(sc, arrays=False))
    if sc["cap"] > 1:
        out.append(dict(sc, cap=1))
    return out
