"""C12: the optimiser makes progress once faults stop."""
import numpy as np

from .. import objective as ob
from .. import seams, world
from ..core import Violation

ID = "C12"
RUNS = {"quick": 6000, "thorough": 60000}
RUN_TIMEOUT = 90
RULE = ("one run = one optimisation of a smooth single-minimum problem (3 families, dimension 1-8, condition number up to 100), or one "
        "inference of a seeded DW / OU simulation, with a burst of unusable values (NaN up to 200 evaluations, infinite / huge / far too "
        "large up to 12, then with the tolerances set to zero) starting after the first evaluation; progress is judged a bounded number of iterations after the last fault; "
        "non-trivial = the burst hit at least one evaluation")
STATES = "distinct (workload, family, fault kind, burst position, burst length, iterations needed) signatures"
REAL = ["src/numerics/optim_scg.py (SCG)", "DW / OU inference runs: the whole pipeline set-up / run"]
STUB = ["objective (simulated service) in 90 % of the runs; VarGP.free_energy wrapped to fail for a while in the others"]
ASSUMPTIONS = ["progress bound: 400 iterations after the burst (800 after overflows of more than 4 evaluations) for the convex problems, 60 for the inferences",
               "reached = within 1 % of the initial gap to the minimum (or within 1e-3 of the minimum)"]


def warm():
    world.warm(("DW", "OU"))


def gen(rng, index, tier):
    kind = rng.choice(("nan", "nan", "+inf", "huge", "spike"))
    length = rng.choice((1, 2, 3, 5, 8, 20, 60, 200)) if kind == "nan" else rng.choice((1, 2, 3, 4, 6, 8, 12))
    start = rng.choice((1, 2, 3, 4, 5, 8, 13, 21, 34))
    sc = {"burst": {"kind": kind, "at": start, "len": length}}
    if rng.random() < 0.1:
        if kind != "nan":
            sc["burst"]["len"] = min(length, 4)
        sc["params"] = world.gen_params(rng, ("DW", "OU"), small=True)
    else:
        b = ob.gen_base(rng, kinds=ob.CONVEX, dmax=8, cond=100.0)
        b["scale"] = 1.0
        b["shift"] = 0.0 if abs(b["shift"]) > 100 else b["shift"]
        sc["base"] = b
        # Long overflows shrink the steps below any tolerance, so the tolerances are off.
        sc["tol"] = 0.0 if kind != "nan" and length > 4 else rng.choice((1e-6, 1e-6, 0.0))
    return sc


def run(sc, cov):
    b = sc["burst"]
    if "params" in sc:
        return run_inference(sc, cov)
    spec = {"base": sc["base"], "opts": {"max_it": b["len"] + (400 if b["len"] <= 4 or b["kind"] == "nan" else 800), "x_tol": sc["tol"], "f_tol": sc["tol"] * 1e-2},
            "faults": [{"on": "f", "at": b["at"] + j, "kind": b["kind"], "arg": 10.0} for j in range(b["len"])]}
    o = ob.drive(spec)
    svc = o["svc"]
    hits = sum(svc.fired.values())
    for k, n in svc.fired.items():
        cov.fault(k, n)
    cov.trivial = not hits
    cov.steps = svc.clock
    for w, xb, v, _ in svc.log:
        cov.log(w, xb.hex(), repr(v))
    if "runaway" in o:
        raise Violation("no-progress", o["runaway"])
    xm, fm = svc.min
    f0, f1 = float(svc.f0(np.array(sc["base"]["x0"], float))), float(svc.f0(np.asarray(o["x"], float).ravel()))
    gap = f1 - fm
    it = int(o["scg"].statistics["MaxIt"])
    cov.state(sc["base"]["kind"], b["kind"], b["at"], b["len"], it)
    cov.hit("recovered")
    if not (gap <= 1e-2 * (f0 - fm) or gap <= 1e-3):
        raise Violation("no-progress", f"{hits} unusable values ({b['kind']}) from evaluation {b['at']} on; after {it} iterations the value is "
                                       f"{f1:.6g}, the minimum {fm:.6g}, the start {f0:.6g}")


def run_inference(sc, cov):
    b = sc["burst"]
    s = world.sut()
    VarGP = s["VarGP"]
    orig = VarGP.free_energy
    st = {"n": 0, "hits": 0, "first": None}
    bad = {"nan": float("nan"), "+inf": float("inf"), "huge": 1e300, "spike": 1e9}[b["kind"]]

    def faulty(me, x):
        v = orig(me, x)
        k = st["n"]
        st["n"] += 1
        if st["first"] is None:
            st["first"] = v
        cov.log(repr(v))
        if b["at"] <= k < b["at"] + b["len"]:
            st["hits"] += 1
            return bad
        return v

    def infer(wrap):
        if wrap:
            VarGP.free_energy = faulty
        try:
            with seams.quiet(), world.Cap(60 + b["len"]), np.errstate(all="ignore"):
                sim = s["Simulation"]("sim")
                sim.setup(sc["params"], None)
                sim.run()
        finally:
            VarGP.free_energy = orig
        return float(np.asarray(sim.output["fx"]).ravel()[0])
    f_clean = infer(False)
    f1 = infer(True)
    cov.fault("free_energy_" + b["kind"], st["hits"])
    cov.steps = st["n"]
    cov.trivial = not st["hits"] or not (f_clean < st["first"])
    cov.hit("inference_runs")
    cov.state("inf", sc["params"]["Model"], sc["params"]["Ode-method"], b["kind"], b["at"], b["len"], st["n"])
    if f_clean < st["first"] and not f1 < st["first"]:
        raise Violation("no-progress", f"inference after a burst of {st['hits']} unusable free energies ended at {f1:.6g}, start {st['first']:.6g}, undisturbed {f_clean:.6g}")


def shrink(sc):
    b = sc["burst"]
    for n in (1, 2, b["len"] // 2):
        if 0 < n < b["len"]:
            yield dict(sc, burst=dict(b, len=n))
    for a in (1, 2, b["at"] // 2):
        if 0 < a < b["at"]:
            yield dict(sc, burst=dict(b, at=a))
    if b["kind"] != "nan":
        yield dict(sc, burst=dict(b, kind="nan"))
    if "base" in sc:
        for c in ob.shrink_spec(dict(sc, faults=[], opts={"max_it": 1})):
            yield dict(sc, base=c["base"])
