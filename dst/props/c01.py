"""C01: a seeded simulation is exactly repeatable."""
import contextlib
import copy
import json
import os
import pickle
import random
import subprocess
import sys
import warnings

import numpy as np

from .. import core, seams, storage, world
from ..core import Violation

ID = "C01"
RUNS = {"quick": 240, "thorough": 8000}
RUN_TIMEOUT = 300
CPU_LIMIT = 120
RULE = ("one run = one seeded simulation (set-up, run, save) executed in a plain process and again in processes whose environment the simulator "
        "disturbs: clock mode (frozen, coarse, jumping, running backwards, epoch zero), state of the global generators of NumPy and Python, "
        "poisoned heap, garbage collector, name, directory, order of the parameters, and (some runs) a new interpreter with another hash seed; "
        "everything produced is compared bit for bit, and a neighbouring seed must give another realisation; non-trivial = the plain run succeeded")
STATES = "distinct (model, solver, seed class, environment) signatures"
REAL = ["src/ (everything)", "h5py, HDF5, zlib", "NumPy generators"]
STUB = ["wall clock and sleeping (SimClock)", "thread pools of the code under test, if any (tasks done in a seeded order)", "old contents of np.empty() memory and operating-system entropy (sim_memory)", "optimiser iteration limit (tuning knob)"]
ASSUMPTIONS = ["one machine, one set of libraries, numerical libraries restricted to one thread"]
ENVS = ("clock", "clock", "global_rng", "heap", "gc", "name", "cwd", "order", "history", "all", "errstate", "entropy", "machine", "machine", "seed_type", "pools")
INTS = tuple((t, int(np.iinfo(t).min), int(np.iinfo(t).max)) for t in (np.int64, np.uint64, np.int32, np.uint32, np.int16, np.uint8))
# Set-ups that a new interpreter repeats in addition: (seed, model).
PANEL = tuple((s, m) for m in ("DW", "OU", "L63") for s in (0, 5, 2 ** 31 + 3, 2 ** 32 + 9, 2 ** 40, 2 ** 63 + 1, 2 ** 64 + 5, 10 ** 30))


def warm():
    world.warm(evaluate=True)
    storage.warm(real=False)


def gen(rng, index, tier):
    p = world.gen_params(rng, weights=(6, 5, 4, 0.25), small=True)
    s = p["Random-Seed"]
    other = rng.choice((s + 1, s + 1, s + 2 ** 32, s + 2 ** 31, s * 2 + 1, s + 1000, s + 2 ** 64, s ^ 1, s + 256, s + 65536))
    return {"params": p, "cap": rng.choice((1, 2, 3)), "other_seed": other,
            "envs": [{"kind": rng.choice(ENVS), "clock": rng.choice(seams.SimClock.MODES), "seed": rng.randrange(10 ** 6)} for _ in range(rng.choice((1, 2, 2, 3)))],
            "fresh": rng.choice(("1", "random", "77")) if (index % 12 == 7 and p["Model"] in ("DW", "OU")) else None}


def shuffled(p, r):
    ks = list(p)
    r.shuffle(ks)
    return {k: shuffled(p[k], r) if isinstance(p[k], dict) else p[k] for k in ks}


def produce(p, cap, name="sim", run=True, memory=None):
    """One complete simulation in the current directory: everything it produced."""
    warnings.simplefilter("ignore")
    with seams.quiet(), np.errstate(all="ignore"), world.Cap(cap), seams.sim_memory(memory):
        sim = world.sut()["Simulation"](name)
        sim.setup(p, None)
        if run:
            sim.run()
            sim.save()
    if not run:
        return world.setup_image(sim)
    out = world.sim_image(sim)
    files = [f for f in os.listdir(".") if f.endswith(".h5")]
    f = storage.file_of(name)
    if f not in files:
        raise RuntimeError(f"no result file {f}: {files}")
    out.update({"file:" + k: v for k, v in storage.read_reference(f).items()})
    return out


def disturbed(p, cap, env):
    """As produce, in an environment of the simulator's making."""
    with contextlib.ExitStack() as stack:
        return _disturbed(p, cap, env, stack)


def _disturbed(p, cap, env, stack):
    r = random.Random(f"env:{env['seed']}")
    k = env["kind"]
    every = k == "all"
    clock = None
    name = "sim"
    memory = env["seed"] if every or k in ("heap", "entropy") else None
    if every or k == "order":
        p = shuffled(p, r)
    if k == "seed_type":
        # The same integer in another of NumPy's and Python's types.
        s = p["Random-Seed"]
        p = dict(p, **{"Random-Seed": r.choice([t(s) for t, lo, hi in INTS if lo <= s <= hi] or [s])})
    if every or k == "name":
        name = r.choice(("another", "7", "x" * 60, "run 3"))
    if every or k == "cwd":
        d = r.choice(("sub", "a/b/c"))
        os.makedirs(d)
        os.chdir(d)
    if every or k == "global_rng":
        np.random.seed(r.randrange(2 ** 32))
        np.random.random(r.randrange(1, 1000))
        np.random.standard_normal(r.randrange(1, 4))
        random.seed(r.random())
    if every or k == "history":
        # Earlier use of the same process.
        g = np.random.default_rng(r.randrange(99))
        g.standard_normal(1000)
        try:
            with seams.quiet():
                q = copy.deepcopy(p)
                q["Random-Seed"] = r.randrange(1000)
                world.sut()["Simulation"]("earlier").setup(q, None)
        except Exception:
            pass
    if every or k == "heap":
        keep = []
        for n in list(range(1, 400)) + [r.randrange(400, 200000) for _ in range(60)]:
            keep.append(np.full(n, r.choice((np.nan, 1e300, -7.0))))
        if r.random() < 0.5:
            keep = keep[::2]
        del keep
    if every or k == "gc":
        import gc
        gc.set_threshold(r.choice((1, 5, 100000)))
        if r.random() < 0.3:
            gc.disable()
    if k == "errstate":
        np.seterr(all=r.choice(("ignore", "warn")))
        np.set_printoptions(precision=2)
    if every or k == "pools":
        stack.enter_context(seams.Pools.seeded(env["seed"]))
    if k == "machine":
        with seams.sim_machine(env["seed"]):
            return produce(p, cap, name, memory=memory), (0.0, 0, 0)
    if every or k == "clock":
        clock = seams.SimClock(env["seed"], env["clock"])
        with clock.installed():
            out = produce(p, cap, name, memory=memory)
        return out, (clock.covered, clock.jumps, clock.reads)
    return produce(p, cap, name, memory=memory), (0.0, 0, 0)


def panel():
    """Set-ups with seeds of all kinds."""
    out = {}
    for s, m in PANEL:
        p = world.params(m, "euler", {"L63": 4.0}.get(m, 0.5), {"L63": [10.0, 28.0, 2.5]}.get(m, 1.5), seed=s)
        out.update({f"{m} set-up with seed {s}: {k}": v for k, v in produce(p, 1, run=False).items()})
    return out


def in_scratch(fn):
    def go():
        with seams.scratch():
            return fn()
    return storage.in_process(go, 200)


def fresh(p, cap, hashseed):
    """A new interpreter: other hash randomisation, other heap."""
    env = dict(os.environ, PYTHONHASHSEED=hashseed, MALLOC_PERTURB_="165", LANG="C", TZ="Asia/Tokyo")
    code = ("import sys,json,pickle; sys.path[:0]=[sys.argv[1],sys.argv[2]]\n"
            "from dst.props import c01\nfrom dst import seams\n"
            "p,cap=json.loads(sys.argv[3])\n"
            "with seams.scratch(): out=[c01.produce(p,cap), c01.panel()]\n"
            "sys.stdout.buffer.write(b'RESULT'+pickle.dumps(out))")
    r = subprocess.run([sys.executable, "-c", code, core.REPO, core.VERIF, json.dumps([p, cap])], env=env, capture_output=True, timeout=200)
    if b"RESULT" not in r.stdout:
        return "raise", r.stderr[-400:].decode(errors="replace")
    return "ok", pickle.loads(r.stdout.split(b"RESULT", 1)[1])


def run(sc, cov):
    p, cap = sc["params"], sc["cap"]
    st, ref = in_scratch(lambda: produce(copy.deepcopy(p), cap))
    if st != "ok":
        cov.trivial = True
        cov.hit("unusable_parameters")
        return
    s = p["Random-Seed"]
    what = f"{p['Model']}/{p['Ode-method']} with seed {s}"
    cls = 0 if s == 0 else 1 if s < 2 ** 31 else 2
    for env in sc["envs"]:
        st, r = in_scratch(lambda: disturbed(copy.deepcopy(p), cap, env))
        label = env["kind"] + (":" + env["clock"] if env["kind"] in ("clock", "all") else "")
        if st != "ok":
            raise Violation("not_repeatable", f"{what}: in another environment ({label}): {r}")
        got, (sim, jumps, reads) = r
        cov.sim_time += sim
        cov.fault("environment_" + env["kind"])
        cov.fault("clock_jump", jumps)
        d = world.diff_image(got, ref, "disturbed", "plain")
        if d:
            raise Violation("not_repeatable", f"{what}: in another environment ({label}): {d}")
        cov.state(p["Model"], p["Ode-method"], cls, label)
        cov.log(label, sorted(got.items()))
    if sc["fresh"]:
        st, got = fresh(p, cap, sc["fresh"])
        if st != "ok":
            raise Violation("not_repeatable", f"{what}: in a new interpreter: {got}")
        d = world.diff_image(got[0], ref, "new interpreter", "plain") or world.diff_image(got[1], in_scratch(panel)[1], "new interpreter", "plain")
        if d:
            raise Violation("not_repeatable", f"{what}: in a new interpreter with another hash seed: {d}")
        cov.fault("new_interpreter")
        cov.state(p["Model"], "fresh", sc["fresh"])
    # Another seed selects another realisation.
    q = copy.deepcopy(p)
    q["Random-Seed"] = sc["other_seed"]
    if sc["other_seed"] != s:
        st, got = in_scratch(lambda: produce(q, cap, run=False))
        if st == "ok":
            for k, n in (("~path", "sample path"), ("~obs_y", "observations")):
                if got[k] == ref[k]:
                    raise Violation("same_realisation", f"{what}: seed {sc['other_seed']} gives the same {n}")
            cov.hit("other_seed_judged")
    cov.steps += 1


def shrink(sc):
    out = []
    for i in range(len(sc["envs"])):
        if len(sc["envs"]) > 1:
            out.append(dict(sc, envs=sc["envs"][:i] + sc["envs"][i + 1:]))
        if sc["envs"][i]["kind"] == "all":
            for k in sorted(set(ENVS) - {"all"}):
                out.append(dict(sc, envs=[dict(sc["envs"][i], kind=k)]))
    if sc["fresh"]:
        out.append(dict(sc, fresh=None))
    if sc["cap"] > 1:
        out.append(dict(sc, cap=1))
    for q in world.shrink_params(sc["params"]):
        out.append(dict(sc, params=q))
    return out
