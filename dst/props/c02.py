"""C02: simulations sharing a process do not influence one another."""
import copy
import random
import warnings

import numpy as np

from .. import seams, storage, world
from ..core import Violation

ID = "C02"
RUNS = {"quick": 300, "thorough": 10000}
RUN_TIMEOUT = 300
CPU_LIMIT = 120
RULE = ("one run = two to four simulations (often of equal shape but with different seed, drift, noise or solver, or sharing one parameter "
        "dictionary) taken through set-up, run and save in one process: in a seeded sequential order, or by threads of which the seeded scheduler "
        "releases one at a time and switches at statements or bytecodes of the code under test; one of them may fail; each is compared bit for "
        "bit with itself alone in a process; non-trivial = at least two simulations finished")
STATES = "distinct (models, order of steps or number of switches and switch places) signatures"
REAL = ["src/ (everything)", "h5py, HDF5, zlib", "real threads"]
STUB = ["thread scheduling (one thread released at a time)", "optimiser iteration limit (tuning knob)"]
ASSUMPTIONS = ["threads switch between Python statements or bytecodes of the repository, not inside compiled code",
               "simulations that run at the same time have different names (a name is a file)"]
STEPS = ("setup", "run", "save")


def warm():
    world.warm(evaluate=True)
    storage.warm(real=False)


def variant(rng, p):
    q = copy.deepcopy(p)
    k = rng.choice(("seed", "theta", "sigma", "solver", "obs", "same", "prior"))
    if k == "seed":
        q["Random-Seed"] += 1
    elif k == "theta":
        t = q["Drift"]["theta"]
        q["Drift"]["theta"] = [round(v * 1.05, 4) for v in t] if isinstance(t, list) else round(t * 1.1, 4)
    elif k == "sigma":
        t = q["Noise"]["sys"]
        if not isinstance(t, list):
            q["Noise"]["sys"] = t * 1.5
        elif not isinstance(t[0], list):
            q["Noise"]["sys"] = [v * 1.5 for v in t]
        else:
            q["Noise"]["sys"] = [[v * 1.5 for v in r] for r in t]
    elif k == "solver":
        q["Ode-method"] = rng.choice(world.SOLVERS)
    elif k == "obs":
        t = q["Noise"]["obs"]
        q["Noise"]["obs"] = [v * 1.3 for v in t] if isinstance(t, list) else t * 1.3
    elif k == "prior":
        t = q["Prior"]["mu0"]
        q["Prior"]["mu0"] = [v + 0.5 for v in t] if isinstance(t, list) else t + 0.5
    return q


def gen(rng, index, tier):
    n = rng.choice((2, 2, 2, 3, 4))
    base = world.gen_params(rng, weights=(6, 5, 3, 0.15), small=True)
    ps = [base]
    while len(ps) < n:
        ps.append(variant(rng, base) if rng.random() < 0.4 else world.sibling(rng, base) if rng.random() < 0.5 else world.gen_params(rng, weights=(6, 5, 2, 0), small=True))
    mode = rng.choice(("threads", "threads", "sequence"))
    seq = [i for i in range(n) for _ in STEPS]
    rng.shuffle(seq)
    one_d = all(p["Model"] in ("DW", "OU") for p in ps)
    return {"params": ps, "mode": mode, "seq": seq, "sched": rng.randrange(10 ** 6), "mean": rng.choice((2, 10, 40, 200, 2000)),
            "opcodes": one_d and rng.random() < 0.2, "cap": rng.choice((1, 2, 2, 3)), "arrays": rng.random() < 0.35, "share": rng.random() < 0.4,
            "victim": ({"who": rng.randrange(n), "how": rng.choice(("bad_noise", "bad_method", "bad_model"))} if n > 2 and rng.random() < 0.3 else None),
            "repeat": rng.random() < 0.2, "refill": rng.random() < 0.5}


def spoil(p, how):
    q = copy.deepcopy(p)
    if how == "bad_noise":
        q["Noise"]["sys"] = -1.0
    elif how == "bad_method":
        q["Ode-method"] = "leapfrog"
    else:
        q["Model"] = "XX"
    return q


def refill(box, p):
    """The caller's one dictionary takes on other parameters, in place."""
    for k in [k for k in box if k not in p]:
        del box[k]
    for k, v in p.items():
        if isinstance(v, dict) and isinstance(box.get(k), dict):
            refill(box[k], v)
        elif isinstance(v, np.ndarray) and isinstance(box.get(k), np.ndarray) and v.shape == box[k].shape and v.dtype == box[k].dtype:
            box[k][...] = v
        elif isinstance(v, list) and isinstance(box.get(k), list):
            box[k][:] = copy.deepcopy(v)
        else:
            box[k] = copy.deepcopy(v)


def step(sim, name, p):
    if name == "setup":
        sim.setup(p, None)
    elif name == "run":
        sim.run()
    else:
        sim.save()


def result(sim):
    return dict(world.sim_image(sim), **{"file:" + k: v for k, v in storage.read_reference(storage.file_of(sim.name)).items()})


def alone(p, cap, name):
    def go():
        warnings.simplefilter("ignore")
        with seams.scratch():
            with seams.quiet(), np.errstate(all="ignore"), world.Cap(cap):
                sim = world.sut()["Simulation"](name)
                for s in STEPS:
                    step(sim, s, p)
            return result(sim)
    return storage.in_process(go, 200)


def run(sc, cov):
    warnings.simplefilter("ignore")
    mk = world.arrayify if sc["arrays"] else copy.deepcopy
    n = len(sc["params"])
    given = []
    bad = sc["victim"]["who"] if sc["victim"] else None
    for i, p in enumerate(sc["params"]):
        if i == bad:
            given.append(spoil(p, sc["victim"]["how"]))
        elif sc["share"] and any(p == q and j != bad for j, q in enumerate(sc["params"][:i])):
            given.append(next(given[j] for j, q in enumerate(sc["params"]) if p == q and j != bad))
        elif sc["share"] and i:
            # Different simulations sharing the parts of the parameters that are equal.
            q = mk(p)
            for k in q:
                for j, (g, o) in enumerate(zip(given, sc["params"])):
                    if j != bad and o.get(k) == p[k] and world.freeze(g.get(k)) == world.freeze(q[k]):
                        q[k] = g[k]
                        break
            given.append(q)
        else:
            given.append(mk(p))
    before = [world.freeze(g) for g in given]
    want = []
    for i, p in enumerate(sc["params"]):
        if i == bad:
            want.append(None)
            continue
        st, r = alone(mk(p), sc["cap"], f"sim{i}")
        if st != "ok":
            cov.trivial = True
            cov.hit("unusable_parameters")
            return
        want.append(r)
    Sim = world.sut()["Simulation"]
    where = ""
    with seams.scratch(), seams.quiet(), np.errstate(all="ignore"), world.Cap(sc["cap"]):
        sims = [Sim(f"sim{i}") for i in range(n)]
        errs = [None] * n
        if sc["mode"] == "threads":
            def work(i):
                def go():
                    for s in STEPS * (2 if sc["repeat"] else 1):
                        step(sims[i], s, given[i])
                return go
            sched = seams.Scheduler(sc["sched"], sc["mean"], sc["opcodes"])
            res = sched.run([work(i) for i in range(n)])
            for i, (st, e) in enumerate(res):
                if st != "ok":
                    errs[i] = f"{type(e).__name__}: {str(e)[:200]}"
            where = f"interleaved by {n} threads, {sched.switches} switches"
            cov.fault("thread_switch", sched.switches)
            cov.steps += sched.points
            cov.state("threads", [p["Model"] for p in sc["params"]], sched.switches, sched.trail[:60])
            cov.log(sched.switches, sched.trail[:400])
        else:
            at = [0] * n
            box = {}
            for i in sc["seq"]:
                if errs[i]:
                    continue
                p = given[i]
                if sc.get("refill") and at[i] == 0:
                    refill(box, given[i])
                    p = box
                    cov.fault("dictionary_refilled")
                try:
                    step(sims[i], STEPS[at[i]], p)
                except Exception as e:
                    errs[i] = f"{type(e).__name__}: {str(e)[:200]}"
                at[i] += 1
            where = f"in the order {sc['seq']}"
            cov.fault("sequential_switch", sum(a != b for a, b in zip(sc["seq"], sc["seq"][1:])))
            cov.state("sequence", [p["Model"] for p in sc["params"]], sc["seq"])
        done = 0
        for i in range(n):
            m = f"simulation {i} of {n} ({sc['params'][i]['Model']}/{sc['params'][i]['Ode-method']}), {where}"
            if i == bad:
                cov.fault("failing_neighbour")
                continue
            if errs[i]:
                raise Violation("influenced", f"{m}: failed, but not when run alone: {errs[i]}")
            try:
                got = result(sims[i])
            except Exception as e:
                raise Violation("influenced", f"{m}: no results: {type(e).__name__}: {e}")
            d = world.diff_image(got, want[i], "together", "alone")
            if d:
                raise Violation("influenced", f"{m}: {d}")
            cov.log(i, sorted(got.items()))
            done += 1
    for i, g in enumerate(given):
        if world.freeze(g) != before[i]:
            a, b = before[i], world.freeze(g)
            ks = [k for k in a if a[k] != b.get(k)]
            raise Violation("parameters_changed", f"the parameters handed to simulation {i} were changed: {ks}")
    cov.hit("simulations_judged", done)
    cov.trivial = done < 2


def shrink(sc):
    out = []
    n = len(sc["params"])
    if n > 2:
        for i in range(n):
            if sc["victim"] and sc["victim"]["who"] >= i:
                if sc["victim"]["who"] == i:
                    out.append(dict(sc, params=sc["params"][:i] + sc["params"][i + 1:], victim=None, seq=[s - (s > i) for s in sc["seq"] if s != i]))
                continue
            out.append(dict(sc, params=sc["params"][:i] + sc["params"][i + 1:], seq=[s - (s > i) for s in sc["seq"] if s != i]))
    if sc["mode"] == "threads":
        out.append(dict(sc, mode="sequence"))
        if sc["opcodes"]:
            out.append(dict(sc, opcodes=False))
        if sc["mean"] < 2000:
            out.append(dict(sc, mean=sc["mean"] * 10))
        if sc["repeat"]:
            out.append(dict(sc, repeat=False))
    for k in ("arrays", "share", "refill"):
        if sc.get(k):
            out.append(dict(sc, **{k: False}))
    if sc["cap"] > 1:
        out.append(dict(sc, cap=1))
    for i, p in enumerate(sc["params"]):
        for q in world.shrink_params(p)[:3]:
            out.append(dict(sc, params=sc["params"][:i] + [q] + sc["params"][i + 1:]))
    return out
