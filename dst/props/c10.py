"""C10: the optimiser returns the best accepted point, whatever the objective does."""
import math

import numpy as np

from .. import objective as ob
from .. import seams, world
from ..core import Violation

ID = "C10"
RUNS = {"quick": 6000, "thorough": 60000}
RUN_TIMEOUT = 60
RULE = ("one run = one optimisation of a seeded simulated objective service (12 function families, dimension 1-10, true / scaled / "
        "flipped / random / stale / noisy gradients, value noise, bursts of NaN, infinite, huge, spiked or dipped values and damaged "
        "gradients at seeded call indices); non-trivial = at least one trial evaluation; distinct = distinct event logs")
STATES = "distinct (family, gradient mode, last 12 call outcomes, end reason) signatures"
REAL = ["src/numerics/optim_scg.py (SCG)"]
STUB = ["objective function and gradient (simulated service with fault plan)"]
ASSUMPTIONS = ["the objective is a function of one vector returning one float; it does not modify its argument"]


def warm():
    world.sut()


def gen(rng, index, tier):
    b = ob.gen_base(rng)
    it = rng.choice((1, 2, 3, 5, 10, 40, 150))
    sc = {"base": b, "opts": {"max_it": it, "x_tol": rng.choice((1e-6, 1e-6, 1e-3, 1e-12)), "f_tol": rng.choice((1e-8, 1e-8, 1e-3, 1e-12)),
                              "display": rng.random() < 0.2},
          "gmode": rng.choice(("true",) * 6 + ("scaled", "flipped", "random", "stale", "noisy")),
          "noise": rng.choice((0.0,) * 5 + (1e-9, 1e-3, 0.3)),
          "faults": ob.gen_faults(rng, min(3 * it + 1, 40))}
    if rng.random() < 0.2:
        sc["shape"] = "column"
    if rng.random() < 0.3:
        sc["ret"] = "np"
    if rng.random() < 0.4:
        sc["after"] = rng.choice(("scribble", "again", "both"))
    return sc


def same(a, b):
    return a == b or (math.isnan(a) and math.isnan(b))


def same_bits(a, b):
    return np.shape(a) == np.shape(b) and np.array_equal(np.asarray(a, float), b, equal_nan=True)


def run(sc, cov):
    o = ob.drive(sc)
    svc = o["svc"]
    for k, n in svc.fired.items():
        cov.fault(k, n)
    if sc.get("noise"):
        cov.fault("value_noise")
    if sc["gmode"] != "true":
        cov.fault("gradient_" + sc["gmode"])
    fs = [(xb, v) for w, xb, v, _ in svc.log if w == "f"]
    for w, xb, v, _ in svc.log:
        cov.log(w, xb.hex(), repr(v))
    if not np.array_equal(o["x0"], o["before"], equal_nan=True):
        raise Violation("start-vector-modified", f"x0 changed from {o['before'].tolist()} to {o['x0'].tolist()}")
    if "runaway" in o:
        cov.trivial = True       # C11's business
        return
    cov.steps = svc.clock
    x, fx = np.asarray(o["x"], float), float(o["fx"])
    cov.log("end", x.tobytes().hex(), repr(fx))
    cov.trivial = len(fs) < 2
    f0 = fs[0][1]
    got = [v for xb, v in fs if xb == x.ravel().tobytes()]
    cov.hit("returned_start" if fs[0][0] == x.tobytes() else "moved")
    if any(math.isnan(v) or math.isinf(v) for _, v in fs):
        cov.hit("saw_unusable_values")
    if math.isnan(f0):
        cov.hit("start_is_nan")
    cov.state(sc["base"]["kind"], sc["gmode"], [(w, "n" if v is None else ("nan" if v != v else v < f0)) for w, _, v, _ in svc.log[-12:]])
    if not got:
        raise Violation("point-not-evaluated", f"returned point {x.tolist()} was never evaluated")
    if not any(same(fx, v) for v in got):
        raise Violation("value-not-obtained", f"returned value {fx!r}, but the values obtained at the returned point were {got[:4]}")
    if not math.isnan(f0) and not fx <= f0:
        raise Violation("worse-than-start", f"returned {fx!r}, start value {f0!r}")
    # Best accepted point, on the reference model of a descent method.
    trace, cur, curf, amb = ob.history(svc.log, o["x0"])
    if not math.isnan(f0):
        tr = [float(v) for v in o["scg"].statistics["fx"]][:len(trace)]
        prev = f0
        for j, v in enumerate(tr):
            if not v <= prev:
                raise Violation("accepted-values-increase", f"iteration {j}: value {v!r} after {prev!r}")
            prev = v
        if not sc.get("noise") and not amb and not any(f["on"] == "f" for f in sc["faults"]):
            if x.tobytes() not in cur and not fx <= curf:
                raise Violation("better-point-lost", f"returned {fx!r}, but {curf!r} had been obtained by a trial step")

    if sc.get("after"):
        # What was returned is the caller's: it does not change when the caller
        # goes on using its own vector or optimises again with the same object.
        kept = [np.array(o["x"], float), float(o["fx"])]
        if sc["after"] != "again":
            o["x0"][...] = -77.125
        if sc["after"] != "scribble":
            x1 = np.array(sc["base"]["x0"], dtype=float) * 0.5 + 0.3
            with seams.quiet(), np.errstate(all="ignore"):
                try:
                    o["scg"](x1)
                except ob.Runaway:
                    pass
                except Exception as e:
                    raise Violation("no_result", f"optimising again with the same object raised {type(e).__name__}: {str(e)[:200]}")
        if not same_bits(o["x"], kept[0]) or not same(float(o["fx"]), kept[1]):
            raise Violation("result-changed-later", f"the returned point {kept[0].tolist()} (value {kept[1]!r}) later became "
                                                    f"{np.ravel(o['x']).tolist()} (value {float(o['fx'])!r}): {sc['after']}")
        cov.hit("returned_point_kept")


def shrink(sc):
    if sc.get("after"):
        yield {k: v for k, v in sc.items() if k != "after"}
    yield from ob.shrink_spec(sc)
