"""C13: sample paths are the model's equation driven by exactly the drawn noise."""
import random

import numpy as np

from .. import models, seams, world
from ..core import Violation

ID = "C13"
RUNS = {"quick": 480, "thorough": 12000}
RUN_TIMEOUT = 120
RULE = ("one run = a seeded model (scalar, vector or full noise matrix) generating several paths over seeded windows while the simulated "
        "entropy source hands out recorded, zero, single-impulse or extreme draws; the increments left after subtracting the reference "
        "drift are compared with the draws; non-trivial = at least one path judged")
STATES = "distinct (model, noise form, dt, steps, script kind, position in history) signatures"
REAL = ["src/dynamics/*.py (constructors, setters, make_trajectory)", "NumPy PCG64 in 'recorded' mode"]
STUB = ["random generator (recorded or scripted standard normal draws)"]
ASSUMPTIONS = ["Gaussian increments are derived from the model's NumPy Generator by standard_normal, normal or multivariate_normal",
               "paths that leave |x| < 1e6 under extreme draws are judged up to there"]


def warm():
    world.warm(evaluate=False)


def gen(rng, index, tier):
    spec = models.gen_model(rng)
    if spec["model"] == "L96" and rng.random() < 0.5:
        spec = models.gen_model(rng, ("L63",), (1,))
    big = spec["model"] == "L96"
    if rng.random() < 0.15:             # strong noise
        k = rng.choice((30.0, 300.0, 3000.0))
        spec["sigma"] = (k * np.array(spec["sigma"])).tolist()
    ops = []
    for _ in range(rng.choice((1, 1, 2) if big else (1, 2, 3, 4))):
        kind = rng.choice(("real", "real", "extreme", "extreme", "push", "zeros", "impulse", "impulse"))
        if spec["model"] in ("DW", "OU"):
            dt = rng.choice((0.001, 0.01, 0.013, 0.02, 0.05, 1e-4, 2e-5) + ((0.1, 0.125, 0.25, 0.4) if spec["model"] == "OU" else (0.08,)))
            n = rng.choice((1, 2, 4, 9)) if kind == "impulse" else rng.choice((2, 5, 20, 50, 150, 400))
        elif big:
            dt = rng.choice((0.005, 0.01, 1e-4))
            n = 1 if kind == "impulse" else rng.choice((2, 6, 20))
        else:
            dt = rng.choice((0.001, 0.005, 0.01, 0.02, 1e-4))
            n = rng.choice((1, 2, 4)) if kind == "impulse" else rng.choice((2, 5, 20, 80, 200))
        if kind == "real" and rng.random() < 0.12:
            n = rng.choice((1100, 2600, 5000, 9000)) if not big else 300
        op = {"op": "path", "script": kind, "part": rng.choice((0.0, 0.0, 0.0, 0.4)), "t0": rng.choice((0.0, 0.0, 1.0, -2.0, 3.7)), "n": n, "dt": dt, "seed": rng.randrange(10 ** 6)}
        if spec["model"] == "OU" and rng.random() < 0.3:
            op["mu"] = round(rng.uniform(-1, 1), 3)
        ops.append(op)
        if rng.random() < 0.3:
            new = models.gen_model(rng, (spec["model"],), (1,))
            ops.append({"op": "set", "sigma": models.cov_matrix(new).tolist() if models.dim(new) > 1 else new["sigma"], "theta": new["theta"]})
    ops = [o for i, o in enumerate(ops) if o["op"] == "path" or i + 1 < len(ops)] or ops[:1]
    return {"spec": spec, "seed": rng.choice(world.SEEDS), "ops": ops}


def script(op):
    r = random.Random(f"script:{op['seed']}")
    if op["script"] == "zeros":
        return lambda start, n: [0.0] * n

    def extreme(start, n):
        return [r.choice((0.0, 1e-12, r.gauss(0, 1), r.choice((-1, 1)) * r.choice((6.0, 9.0, 15.0)))) for _ in range(n)]
    if op["script"] == "push":          # a long series of one sign takes the state far out
        sign, size = r.choice((-1, 1)), r.choice((3.0, 8.0, 30.0))
        return lambda start, n: [sign * size * (1 + 1e-3 * r.random()) for _ in range(n)]
    return extreme if op["script"] == "extreme" else None


def generate(model, op):
    kw = {"mu": op["mu"]} if "mu" in op else {}
    # The window need not be a whole number of steps.
    tf = round(op["t0"] + (op["n"] + op.get("part", 0.0)) * op["dt"], 10)
    with seams.quiet(), np.errstate(all="ignore"):
        model.make_trajectory(op["t0"], tf, op["dt"], **kw)
    return np.array(model.sample_path, float), np.array(model.time_window, float), tf


def check_grid(op, x, tk, tf, d):
    dt = op["dt"]
    if x.shape != ((tk.size,) if d == 1 else (tk.size, d)):
        raise Violation("grid", f"path shape {x.shape} for {tk.size} grid points, dimension {d}")
    if tk.size < 2 or abs(tk[0] - op["t0"]) > 1e-9:
        raise Violation("grid", f"grid starts at {tk[:1]}, window at {op['t0']}")
    if np.max(np.abs(np.diff(tk) - dt)) > 1e-9:
        raise Violation("grid", f"grid is not uniform with step {dt}: {np.diff(tk)[:5]}")
    if tk[-1] < tf - 1e-6 * dt or tk[-1] > tf + dt * (1 + 1e-6):
        raise Violation("grid", f"grid ends at {tk[-1]}, window at {tf} (step {dt})")


def increments(spec, x, op):
    with np.errstate(all="ignore"):
        f = models.drift(spec, x[:-1], op.get("mu", 0.0)) * op["dt"]
        e = x[1:] - x[:-1] - f
        tol = 1e-12 * (1 + np.abs(x[:-1]) + np.abs(x[1:]) + np.abs(f)) * 8
    return (e.reshape(len(e), -1), tol.reshape(len(e), -1))


def impulse_map(model, spec, op):
    """The linear map from draws to increments, found by single impulses."""
    d = models.dim(spec)
    t = seams.tap(model, 0, lambda s, n: [0.0] * n)
    if t is None:
        raise RuntimeError("entropy seam lost: the model holds no NumPy Generator")
    x, tk, tf = generate(model, op)
    check_grid(op, x, tk, tf, d)
    nd = len(t.draws)
    e0, tol0 = increments(spec, x, op)
    if np.any(np.abs(e0) > tol0 * 1e3):
        i = np.argwhere(np.abs(e0) > tol0 * 1e3)[0]
        raise Violation("drift", f"with all draws zero, step {i[0]} component {i[1]} is off the model equation by {e0[tuple(i)]:.3g}")
    m = np.zeros((e0.size, nd))
    for k in range(nd):
        t.setup(lambda s, n, k=k: [1.0 if s + j == k else 0.0 for j in range(n)])
        x, _, _ = generate(model, op)
        e, _ = increments(spec, x, op)
        m[:, k] = (e - e0).ravel()
    return m, len(e0), nd


def judge_map(m, spec, steps, dt):
    d = models.dim(spec)
    want = np.kron(np.eye(steps), models.cov_matrix(spec) * dt)
    got = m.dot(m.T)
    scale = np.max(np.abs(want))
    if np.max(np.abs(got - want)) > 1e-7 * scale:
        i, j = np.unravel_index(np.argmax(np.abs(got - want)), got.shape)
        raise Violation("noise-covariance", f"covariance of the increments of (step {i // d}, component {i % d}) and (step {j // d}, component {j % d}) "
                                            f"is {got[i, j]:.6g} instead of {want[i, j]:.6g}")


def run(sc, cov):
    spec = dict(sc["spec"])
    d = models.dim(spec)
    model = models.make(spec, sc["seed"])
    judged = 0
    for pos, op in enumerate(sc["ops"]):
        if op["op"] == "set":
            with seams.quiet():
                model.sigma = models.as_arg(op["sigma"])
                model.theta = models.as_arg(op["theta"])
            spec.update(sigma=op["sigma"], theta=op["theta"])
            cov.hit("parameters_changed")
            continue
        before = models.params_image(model)
        old = model.xt if hasattr(model, "xt") else None
        dt = op["dt"]
        cov.state(spec["model"], np.ndim(spec["sigma"]), dt, op["n"], op["script"], pos)
        if op["script"] == "impulse":
            m, steps, nd = impulse_map(model, spec, op)
            judge_map(m, spec, steps, dt)
            cov.fault("scripted_impulse", nd)
            cov.log(m.tobytes().hex()[:400])
            judged += 1
        else:
            t = seams.tap(model, op["seed"], script(op))
            if t is None:
                raise RuntimeError("entropy seam lost: the model holds no NumPy Generator")
            x, tk, tf = generate(model, op)
            cov.fault("scripted_" + op["script"] if op["script"] != "real" else "recorded_draws", len(t.draws))
            check_grid(op, x, tk, tf, d)
            cov.log(x.tobytes().hex()[:2000])
            out = ~(np.abs(x).reshape(len(x), -1).max(axis=1) < 1e6)
            if out.any():
                # Judged up to there.
                cov.hit("path_left_range")
                x = x[:int(np.argmax(out))]
                if len(x) < 2:
                    continue
            e, tol = increments(spec, x, op)
            z = np.array(t.draws)
            # Per-step mixing matrix, found on a two-point path of the same model.
            a = block(model, spec, op)
            w = np.linalg.solve(a, e.T).T
            wtol = np.abs(np.linalg.inv(a)).dot(tol.T).T * 50 + 1e-9
            used = match(w.ravel(), wtol.ravel(), z)
            if used is not None:
                i = used
                raise Violation("increment-not-drawn", f"step {i // d}, component {i % d}: increment {e.ravel()[i]:.9g} (standardised {w.ravel()[i]:.9g}) "
                                                       f"is none of the {z.size} draws, or reuses one")
            judged += 1
        cov.steps += op["n"]
        cov.sim_time += op["n"] * dt
        if models.params_image(model) != before:
            raise Violation("parameters-touched", f"path generation changed the parameters: {before} -> {models.params_image(model)}")
    cov.trivial = not judged


def block(model, spec, op):
    d = models.dim(spec)
    key = (repr(spec["sigma"]), op["dt"])
    cache = block.__dict__.setdefault("cache", {})
    if key not in cache:
        m, steps, nd = impulse_map(models.make(spec, 1), spec, dict(op, n=1, t0=0.0, part=0.0))
        judge_map(m, spec, steps, op["dt"])
        first = m[:d]
        cols = [k for k in range(nd) if np.any(np.abs(first[:, k]) > 0)]
        cols = sorted(cols, key=lambda k: -np.abs(first[:, k]).max())
        # residuals carry rounding noise: keep the columns that matter
        keep = sorted(k for k in cols if np.abs(first[:, k]).max() > 1e-9 * np.abs(first).max())
        if len(keep) != d:
            raise Violation("noise-covariance", f"one step depends on {len(keep)} draws instead of {d}")
        cache[key] = first[:, keep]
    return cache[key]


def match(w, tol, z):
    """Index of the first value that is not a draw (each used once), or None."""
    order = np.argsort(z, kind="stable")
    zs = z[order]
    idx = np.argsort(w, kind="stable")
    # Greedy matching of two sorted lists with tolerances.
    taken = np.zeros(z.size, bool)
    for i in idx:
        lo, hi = np.searchsorted(zs, w[i] - tol[i]), np.searchsorted(zs, w[i] + tol[i], side="right")
        for k in range(lo, hi):
            if not taken[k]:
                taken[k] = True
                break
        else:
            return int(i)
    return None


def shrink(sc):
    ops = sc["ops"]
    for i in range(len(ops)):
        rest = ops[:i] + ops[i + 1:]
        if any(o["op"] == "path" for o in rest):
            yield dict(sc, ops=rest)
    for i, o in enumerate(ops):
        if o["op"] == "path":
            for n in (1, 2, 5):
                if o["n"] > n:
                    yield dict(sc, ops=ops[:i] + [dict(o, n=n)] + ops[i + 1:])
            if o["t0"]:
                yield dict(sc, ops=ops[:i] + [dict(o, t0=0.0)] + ops[i + 1:])
    s = sc["spec"]
    if isinstance(s["sigma"], list) and models.dim(s) > 1 and all(o["op"] == "path" for o in ops):
        yield dict(sc, spec=dict(s, sigma=2.0))
