"""C27: simulations without a seed are independent realisations."""
import contextlib
import copy
import os
import random
import warnings

import numpy as np

from .. import models, seams, storage, world
from ..core import Violation

ID = "C27"
RUNS = {"quick": 500, "thorough": 20000}
RUN_TIMEOUT = 240
CPU_LIMIT = 120
RULE = ("one run = a family of simulated processes, all with the same frozen clock, process number, host and user, in which simulations without a seed "
        "are set up one after another, by interleaved threads, in forked processes, again with the same object, after set-ups that failed at a seeded "
        "statement, after the global generators were seeded and between simulations with a seed; the operating system's entropy is simulated and never "
        "repeats, but successive values may differ in a few bits only; the standard normal variates behind every path and every reading are recovered "
        "and no two simulations may share any; non-trivial = at least two set-ups without a seed were compared")
STATES = "distinct (model, kind of entropy, sequence of operations) signatures"
REAL = ["src/ (set-up, path generation, observation)", "NumPy generators", "operating-system processes and threads"]
STUB = ["operating-system entropy", "clock, process number, host and user names", "thread scheduling", "statement failures (tracer)"]
ASSUMPTIONS = ["processes forked from one another do not go on drawing from the generator of a model made before the fork",
               "three or more equal variates (to nine digits) do not occur by chance"]
OPS = ("new", "new", "again", "threads", "fork", "fork", "seeded", "global", "failed", "regen", "run")


def warm():
    world.warm(evaluate=True)
    import socket, platform, getpass, multiprocessing, secrets, uuid   # noqa: F401 (hooked below)


def gen(rng, index, tier):
    p = world.gen_params(rng, weights=(6, 6, 4, 0.3), small=True)
    p["Random-Seed"] = None
    ops = [{"op": rng.choice(OPS)} for _ in range(rng.randint(2, 5))]
    for o in ops:
        o.update(seed=rng.choice((0, 1, 7, 42, 12345, 2 ** 32)), k=rng.choice((2, 2, 3)), u=round(rng.random(), 6), v=round(rng.random(), 6),
                 exc=rng.choice(sorted(seams.EXC)), mean=rng.choice((2, 10, 50, 400)), opcodes=rng.random() < 0.2, sub=rng.choice(("new", "again", "new")))
    return {"params": p, "ops": ops, "entropy": rng.choice(("full", "low", "high", "middle")), "seed": rng.randrange(10 ** 6)}


class Entropy:
    """The operating system's entropy: values that never repeat."""

    def __init__(self, kind, seed, process=0):
        self.kind, self.seed, self.process, self.count = kind, seed, process, 0

    def bits(self, n):
        self.count += 1
        unique = self.process * 1024 + self.count
        if self.kind == "full" or n < 32:
            return random.Random(f"{self.seed}:{unique}").getrandbits(n)
        base = random.Random(f"base:{self.seed}:{n}").getrandbits(n)
        return base ^ (unique << {"low": 0, "high": n - 16, "middle": n // 2 - 8}[self.kind])

    @contextlib.contextmanager
    def installed(self):
        import secrets
        import numpy.random.bit_generator as bg
        saved = []
        for mod, name, new in ((bg, "randbits", self.bits), (secrets, "randbits", self.bits), (os, "urandom", self.some), (random, "_urandom", self.some)):
            if hasattr(mod, name):
                saved.append((mod, name, getattr(mod, name)))
                setattr(mod, name, new)
        try:
            yield
        finally:
            for mod, name, old in saved:
                setattr(mod, name, old)

    def some(self, n):
        return self.bits(8 * n).to_bytes(n, "little")


def variates(p, sim):
    """The standard normal variates behind a set-up simulation."""
    d = sim.m_data
    spec = {"model": p["Model"], "theta": p["Drift"]["theta"], "sigma": p["Noise"]["sys"]}
    x = np.array(d["model"].sample_path, float)
    out = [path_variates(spec, x, p["Time-window"]["dt"])]
    y, t = np.array(d["obs_y"], float), np.asarray(d["obs_t"])
    r = np.sqrt(np.broadcast_to(np.asarray(p["Noise"]["obs"], float), y.shape[1:]))
    out.append(((y - x[t]) / r).ravel())
    return np.concatenate(out)


def path_variates(spec, x, dt):
    dim = models.dim(spec)
    e = (x[1:] - x[:-1] - models.drift(spec, x[:-1]) * dt).reshape(len(x) - 1, -1)
    z = np.linalg.solve(np.linalg.cholesky(models.cov_matrix(spec) * dt), e.T).T if dim > 1 else e / np.sqrt(float(spec["sigma"]) * dt)
    # Increments that rounding has spoiled are of no use.
    big = np.abs(x).reshape(len(x), -1).max(axis=1)[:-1]
    return z[big < 1e3].ravel()


def shared(a, b, tol=1e-8):
    """How many variates of a occur in b (up to sign)."""
    a, b = np.sort(np.abs(a[np.isfinite(a)])), np.sort(np.abs(b[np.isfinite(b)]))
    if not a.size or not b.size:
        return 0
    # Special values (zero noise and the like) are judged too: no normal variate is exactly zero.
    i = np.searchsorted(b, a - tol)
    ok = i < b.size
    hit = np.zeros(a.size, bool)
    hit[ok] = np.abs(b[i[ok]] - a[ok]) <= tol
    return int(hit.sum())


def setup(sim, p):
    with np.errstate(all="ignore"):
        sim.setup(copy.deepcopy(p), None)
    return variates(p, sim)


def family(sc):
    """Everything that happens in the first process: [(who, seeded, variates)]."""
    warnings.simplefilter("ignore")
    p = sc["params"]
    Sim = world.sut()["Simulation"]
    got, trail = [], []
    ent = Entropy(sc["entropy"], sc["seed"])
    clock = seams.SimClock(1, "frozen")
    children = [0]
    with seams.scratch(), ent.installed(), clock.installed(), seams.sim_machine(3), seams.quiet(), world.Cap(1):
        sims = [Sim("first")]
        got.append(("the first one", None, setup(sims[0], p)))
        for k, op in enumerate(sc["ops"]):
            kind = op["op"]
            if kind == "new":
                sims.append(Sim(f"sim{k}"))
                got.append((f"a new one (operation {k})", None, setup(sims[-1], p)))
            elif kind == "again":
                s = sims[int(op["u"] * len(sims))]
                got.append((f"another set-up of the same object (operation {k})", None, setup(s, p)))
            elif kind == "seeded":
                q = dict(p, **{"Random-Seed": op["seed"]})
                got.append((f"one with seed {op['seed']} (operation {k})", op["seed"], setup(Sim("seeded"), q)))
            elif kind == "global":
                np.random.seed(op["seed"] % 2 ** 32)
                random.seed(op["seed"])
            elif kind == "run":
                try:
                    with np.errstate(all="ignore"):
                        sims[-1].run()
                        sims[-1].save()
                except Exception:
                    pass
            elif kind == "failed":
                s = Sim(f"failed{k}") if op["u"] < 0.5 else sims[-1]
                with seams.Tracer() as t:
                    setup(Sim("probe"), dict(p, **{"Random-Seed": 99}))
                tr = seams.FastTracer(seams.pick_site(sorted(t.names()), op["u"], op["v"]), seams.EXC[op["exc"]])
                with contextlib.suppress(BaseException), tr:
                    s.setup(copy.deepcopy(p), None)
                trail.append(tr.fired)
                got.append((f"one set up after a failed attempt (operation {k})", None, setup(s, p)))
            elif kind == "regen":
                m = sims[-1].m_data["model"]
                w = p["Time-window"]
                with np.errstate(all="ignore"):
                    m.make_trajectory(w["t0"], w["tf"], w["dt"])
                spec = {"model": p["Model"], "theta": p["Drift"]["theta"], "sigma": p["Noise"]["sys"]}
                got.append((f"another path of the same model (operation {k})", None, path_variates(spec, np.array(m.sample_path, float), w["dt"])))
            elif kind == "threads":
                new = [Sim(f"thread{k}-{j}") for j in range(op["k"])]
                sched = seams.Scheduler(op["seed"] + k, op["mean"], op["opcodes"] and p["Model"] in ("DW", "OU"))
                with np.errstate(all="ignore"):
                    res = sched.run([lambda s=s: s.setup(copy.deepcopy(p), None) for s in new])
                trail.append(("switches", sched.switches))
                for j, (st, e) in enumerate(res):
                    if st != "ok":
                        raise Violation("failed", f"set-up without a seed fails in thread {j}: {e!r}")
                    got.append((f"thread {j} (operation {k})", None, variates(p, new[j])))
                sims.append(new[0])
            elif kind == "fork":
                for j in range(op["k"]):
                    children[0] += 1
                    ent2 = Entropy(sc["entropy"], sc["seed"], children[0])

                    def child():
                        with ent2.installed():
                            s = Sim("child") if op["sub"] == "new" else sims[-1]
                            return setup(s, p)
                    st, z = storage.in_process(child, 120)
                    if st != "ok":
                        raise Violation("failed", f"set-up without a seed fails in a forked process: {z}")
                    got.append((f"process {children[0]} (operation {k})", None, z))
    return got, trail


def run(sc, cov):
    p = sc["params"]
    st, r = storage.in_process(lambda: usable(p), 120)
    if st != "ok":
        cov.trivial = True
        cov.hit("unusable_parameters")
        return
    st, r = storage.in_process(lambda: family(sc), 200)
    if st != "ok":
        raise Violation("failed", f"{p['Model']}: set-ups without a seed fail: {r}") if st == "raise" and "harness" not in str(r) else RuntimeError(str(r))
    got, trail = r
    n = 0
    for i in range(len(got)):
        for j in range(i):
            (wa, sa, a), (wb, sb, b) = got[j], got[i]
            if sa is not None and sb is not None:
                continue
            k = shared(a, b)
            n += 1
            if k >= 3:
                raise Violation("related", f"{p['Model']}: {wa} and {wb} share {k} of {min(a.size, b.size)} random variates, though one or both have no seed"
                                           f" (entropy: {sc['entropy']})")
    kinds = [o["op"] for o in sc["ops"]]
    for o in kinds:
        cov.hit("after_" + o)
    cov.fault("statement_failure", sum(1 for t in trail if t and t[0] != "switches"))
    cov.fault("thread_switch", sum(t[1] for t in trail if t and t[0] == "switches"))
    cov.fault("process_fork", sum(o["k"] for o in sc["ops"] if o["op"] == "fork"))
    cov.fault("entropy_" + sc["entropy"])
    cov.hit("pairs_compared", n)
    cov.state(p["Model"], sc["entropy"], kinds)
    cov.log([(w, z.tobytes().hex()[:64]) for w, _, z in got])
    cov.steps += len(got)
    cov.trivial = n < 1


def usable(p):
    with seams.quiet(), np.errstate(all="ignore"):
        world.sut()["Simulation"]("probe").setup(dict(copy.deepcopy(p), **{"Random-Seed": 5}), None)
    return True


def shrink(sc):
    out = []
    for i in range(len(sc["ops"])):
        out.append(dict(sc, ops=sc["ops"][:i] + sc["ops"][i + 1:]))
    for i, o in enumerate(sc["ops"]):
        if o["op"] in ("fork", "threads") and o["k"] > 2:
            out.append(dict(sc, ops=sc["ops"][:i] + [dict(o, k=2)] + sc["ops"][i + 1:]))
    if sc["entropy"] != "full":
        out.append(dict(sc, entropy="full"))
    for q in world.shrink_params(dict(sc["params"], **{"Random-Seed": 1})):
        q["Random-Seed"] = None
        out.append(dict(sc, params=q))
    return out
