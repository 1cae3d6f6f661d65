"""C11: the optimiser stays within its budget and keeps honest statistics."""
import math
import re

import numpy as np

from .. import objective as ob
from .. import seams, world
from ..core import Violation

ID = "C11"
RUNS = {"quick": 6000, "thorough": 60000}
RUN_TIMEOUT = 60
RULE = ("one run = one or two optimisations by one optimiser object against seeded simulated objective services (see C10), every "
        "evaluation counted and ordered; a step budget turns endless loops into violations; non-trivial = at least one trial evaluation")
STATES = "distinct (family, gradient mode, iteration limit, end reason, iterations done, last outcomes) signatures"
REAL = ["src/numerics/optim_scg.py (SCG)"]
STUB = ["objective function and gradient (simulated service with fault plan)", "standard output (captured)"]
ASSUMPTIONS = ["bounded evaluations per iteration is judged as at most 4 function and 4 gradient evaluations per iteration plus 2",
               "when a tie or an unmoved trial makes the call history ambiguous, the per-iteration trace is not judged"]
MAXLINES = 3000000


def warm():
    world.sut()


def gen(rng, index, tier):
    b = ob.gen_base(rng)
    it = rng.choice((0, 1, 2, 3, 5, 10, 40, 150, 400) if rng.random() < 0.3 else (1, 2, 3, 5, 10, 40, 150, 400))
    sc = {"base": b, "opts": {"max_it": it, "x_tol": rng.choice((1e-6, 1e-6, 1e-3, 1e-12)), "f_tol": rng.choice((1e-8, 1e-8, 1e-3, 1e-12)),
                              "display": rng.random() < 0.3},
          "gmode": rng.choice(("true",) * 6 + ("scaled", "flipped", "random", "stale", "noisy")),
          "noise": rng.choice((0.0,) * 5 + (1e-9, 1e-3, 0.3)),
          "faults": ob.gen_faults(rng, min(3 * it + 1, 60))}
    if rng.random() < 0.05:
        del sc["opts"]["max_it"]           # the documented default, 150
    if rng.random() < 0.25:
        sc["again"] = [round(rng.uniform(-2, 2), 3) for _ in range(b["dim"])]
    return sc


def judge(sc, cov, svc, scg, text, limit, marks, what):
    stats = scg.statistics
    f_made, g_made = svc.nf + svc.nfg - marks[0], svc.ng - marks[1]
    log = svc.log[marks[2]:]
    if f_made > 4 * limit + 2 or g_made > 4 * limit + 2:
        raise Violation("over-budget", f"{what}: {f_made} function and {g_made} gradient evaluations for {limit} iterations")
    if int(stats["f_eval"]) != f_made or int(stats["df_eval"]) != g_made:
        raise Violation("evaluation-counts", f"{what}: statistics say {stats['f_eval']:g} function and {stats['df_eval']:g} gradient evaluations; "
                                             f"{f_made} and {g_made} were made")
    trace, cur, curf, amb = ob.history(log, None)
    # Did the last trial stay where it was, or can a trial be mistaken for a repeat?
    fs = [(xb, v) for w, xb, v, _ in log if w == "f"]
    n = len(trace)
    maxit = int(stats["MaxIt"])
    said = bool(re.search("(?i)maxim|limit|converge", text))
    if n > limit or maxit > limit:
        raise Violation("over-budget", f"{what}: {n} iterations made, {maxit} reported, limit {limit}")
    if said and maxit != limit:
        raise Violation("limit-message", f"{what}: says the limit was reached but reports {maxit} of {limit} iterations")


    if not amb:
        cov.hit("trace_judged")
        if maxit not in (n, n + 1) and not (said and maxit == limit == n):
            raise Violation("iteration-count", f"{what}: {n} iterations made, {maxit} reported")
        got = [float(v) for v in np.asarray(stats["fx"])[:n]]
        if len(got) != n or any(a != b and not (math.isnan(a) and math.isnan(b)) for a, b in zip(got, trace)):
            j = next((j for j in range(min(n, len(got))) if got[j] != trace[j]), None)
            if j is not None and not math.isnan(trace[j]):
                raise Violation("trace", f"{what}: after iteration {j} the statistics say {got[j]!r}, the current value was {trace[j]!r}")
        if n < limit and said:
            raise Violation("limit-message", f"{what}: says the limit was reached after {n} of {limit} iterations")
    if not said and n == limit and maxit == limit and fs:
        # Ended in the last iteration without saying so: it must have converged there.
        last_rejected = len(log) and log[-1][0] == "f" and (log[-1][2] != log[-1][2] or log[-1][2] > curf)
        if last_rejected:
            raise Violation("limit-message", f"{what}: iteration limit {limit} ended the optimisation on a rejected step without a word")
        if not amb and not sc.get("noise") and unfinished(log, sc["opts"]):
            raise Violation("limit-message", f"{what}: iteration limit {limit} ended the optimisation after a big step without a word")
    cov.state(sc["base"]["kind"], sc["gmode"], limit, said, min(n, 20), [(w, None if v is None else v == curf) for w, _, v, _ in log[-6:]])
    cov.hit("ended_by_limit" if said else ("ended_by_gradient" if maxit == n + 1 else "ended_otherwise"))
    return n


def unfinished(log, opts):
    """The last step was accepted and far bigger than the tolerances, the gradient there far from zero."""
    cur = prev = None
    for w, xb, v, x in log:
        if w == "f":
            x = np.asarray(x, dtype=float).ravel()
            if cur is None or v <= cur[0]:
                if cur is None or not np.array_equal(x, cur[1]):
                    prev = cur
                cur = (v, x)
    if cur is None or prev is None or log[-1][0] != "g" or log[-1][1] != cur[1].tobytes():
        return False                    # the new gradient tells whether it vanished
    g = np.ravel(log[-1][3])
    if not np.all(np.isfinite(g)):
        return False
    return (np.max(np.abs(cur[1] - prev[1])) > 10 * opts["x_tol"] or abs(cur[0] - prev[0]) > 10 * opts["f_tol"]) and float(g.dot(g)) > 1e-6


def run(sc, cov):
    limit = sc["opts"].get("max_it", 150)
    budget = 2 * (10 * (limit + 2) + 40)
    svc = ob.Service(sc, budget)
    scg = world.sut()["SCG"](svc.f, svc.df, dict(sc["opts"]))
    starts = [("first call", sc["base"]["x0"])] + ([("second call", sc["again"])] if sc.get("again") else [])
    for what, x0 in starts:
        marks = (svc.nf + svc.nfg, svc.ng, len(svc.log))
        with seams.quiet() as text, np.errstate(all="ignore"):
            try:
                scg(np.array(x0, dtype=float))
            except ob.Runaway as e:
                raise Violation("runaway", f"{what}: {e} with an iteration limit of {limit}")
            except Exception as e:
                raise Violation("no_return", f"{what}: the optimiser raised {type(e).__name__}: {str(e)[:200]} after {svc.clock} evaluations (none of which failed)")
        n = judge(sc, cov, svc, scg, text.getvalue(), limit, marks, what)
        cov.trivial = cov.trivial or (n < 1 and limit > 0)
    for k, c in svc.fired.items():
        cov.fault(k, c)
    if sc.get("noise"):
        cov.fault("value_noise")
    if sc["gmode"] != "true":
        cov.fault("gradient_" + sc["gmode"])
    cov.steps = svc.clock
    for w, xb, v, _ in svc.log:
        cov.log(w, xb.hex(), repr(v))


def shrink(sc):
    if sc.get("again"):
        yield {k: v for k, v in sc.items() if k != "again"}
    for c in ob.shrink_spec(sc):
        if c.get("again"):
            c["again"] = c["again"][:c["base"]["dim"]]
        yield c
