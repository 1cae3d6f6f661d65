"""C14: observations are fresh noisy readings of the path at regular interior times."""
import random

import numpy as np

from .. import models, seams, world
from ..core import Violation
from .c13 import match

ID = "C14"
RUNS = {"quick": 1500, "thorough": 40000}
RUN_TIMEOUT = 120
RULE = ("one run = a seeded history of path generations, collections (density, noise form, component mask, refused densities) and parameter "
        "changes on one model while the simulated entropy source hands out recorded, zero or extreme draws; non-trivial = at least one "
        "collection judged")
STATES = "distinct (model, noise form, mask size, readings, script kind, position in history) signatures"
REAL = ["src/dynamics/stochastic_process.py (collect_obs)", "src/dynamics/*.py (make_trajectory)"]
STUB = ["random generator (recorded or scripted standard normal draws)"]
ASSUMPTIONS = ["the requested density is judged as readings = density x window length, rounded either way",
               "covariance matrices handed in are diagonal (errors are documented as independent)"]


def warm():
    world.warm(evaluate=False)


def gen(rng, index, tier):
    spec = models.gen_model(rng, weights=(4, 3, 5, 2))
    d = models.dim(spec)
    ops = []
    for k in range(rng.choice((2, 3, 4, 6))):
        r = rng.random()
        if k == 0 or r < 0.2:
            if spec["model"] in ("DW", "OU"):
                dt, n = rng.choice((0.01, 0.02, 0.05, 0.1)), rng.choice((20, 40, 100, 200))
            else:
                dt, n = rng.choice((0.005, 0.01)), rng.choice((30, 60, 120) if d == 3 else (20, 40))
            ops.append({"op": "path", "t0": rng.choice((0.0, 0.0, 1.5, -1.0)), "n": n, "dt": dt, "seed": rng.randrange(10 ** 6)})
        elif r < 0.3:
            ops.append({"op": "refuse", "by": rng.choice((1, 1, 2, 50)), "seed": rng.randrange(10 ** 6)})
        else:
            op = {"op": "collect", "share": round(rng.random() ** 1.5, 4), "seed": rng.randrange(10 ** 6),
                  "script": rng.choice(("real", "real", "zeros", "extreme")), "form": rng.choice(("scalar", "scalar", "vector", "matrix"))}
            if d > 1 and rng.random() < 0.4:
                m = [rng.random() < 0.6 for _ in range(d)]
                if not any(m):
                    m[rng.randrange(d)] = True
                op["mask"] = m
                op["mask_array"] = rng.random() < 0.5
            if d == 1:
                op["form"] = "scalar"
            op["r"] = [rng.choice((1e-4, 0.04, 0.1, 1.0, 2.25, 9.0)) for _ in range(d)]
            ops.append(op)
    if not any(o["op"] == "collect" for o in ops):
        ops.append({"op": "collect", "share": 0.3, "seed": 5, "script": "real", "form": "scalar", "r": [0.1] * d})
    return {"spec": spec, "seed": rng.choice(world.SEEDS), "ops": ops}


def script(op):
    r = random.Random(f"obs:{op['seed']}")
    if op["script"] == "zeros":
        return lambda start, n: [0.0] * n
    if op["script"] == "extreme":
        return lambda start, n: [r.choice((r.gauss(0, 1), r.choice((-1, 1)) * r.choice((8.0, 30.0)))) for _ in range(n)]
    return None


def snapshot(model):
    return (np.asarray(model.sample_path).tobytes(), np.shape(model.sample_path), np.asarray(model.time_window).tobytes(), repr(models.params_image(model)))


def run(sc, cov):
    spec = sc["spec"]
    d = models.dim(spec)
    model = models.make(spec, sc["seed"])
    judged = 0
    held = []
    grid = None
    for pos, op in enumerate(sc["ops"]):
        if op["op"] == "path":
            t = seams.tap(model, op["seed"], None)
            tf = round(op["t0"] + op["n"] * op["dt"], 10)
            with seams.quiet(), np.errstate(all="ignore"):
                model.make_trajectory(op["t0"], tf, op["dt"])
            grid = op
            cov.sim_time += op["n"] * op["dt"]
            cov.steps += op["n"]
            if not np.all(np.isfinite(model.sample_path)):
                cov.hit("path_diverged")
                break
            continue
        before = snapshot(model)
        cap = int(round(1.0 / grid["dt"]))
        if op["op"] == "refuse":
            with seams.quiet():
                try:
                    model.collect_obs(cap + op["by"], 0.1)
                except Exception:
                    cov.hit("refused")
                else:
                    raise Violation("excess-accepted", f"{cap + op['by']} readings per unit time accepted with only {cap} samples per unit time")
            if snapshot(model) != before:
                raise Violation("state-touched", "a refused collection changed path, grid or parameters")
            continue
        tk = np.asarray(model.time_window, float)
        path = np.array(model.sample_path, float)
        span = tk[-1] - tk[0]
        lo = int(np.ceil(1.0 / span)) if span < 1 else 1
        dens = min(max(lo, int(round(1 + op["share"] * (cap - 2)))), cap - 1)
        t = seams.tap(model, op["seed"], script(op))
        if t is None:
            raise RuntimeError("entropy seam lost: the model holds no NumPy Generator")
        mask = op.get("mask")
        cols = [i for i in range(d) if mask[i]] if mask else list(range(d))
        r = np.array(op["r"], float)[cols]
        if op["form"] == "scalar":
            r[:] = r[0]
            rn = float(r[0])
        elif op["form"] == "vector":
            rn = r.copy()
        else:
            rn = np.diag(r)
        rn_before = np.array(rn, copy=True)
        args = {} if mask is None else {"h_mask": np.array(mask) if op.get("mask_array") else list(mask)}
        with seams.quiet():
            try:
                obs_t, obs_y, obs_n = model.collect_obs(dens, rn, **args)
            except Exception as e:
                raise Violation("collection-failed", f"collecting {dens} readings per unit time ({op['form']} noise, mask {mask}) failed: {e!r}")
        cov.fault("scripted_" + op["script"] if op["script"] != "real" else "recorded_draws", len(t.draws))
        if snapshot(model) != before or not np.array_equal(np.asarray(rn), rn_before):
            raise Violation("state-touched", "collecting observations changed the path, the grid, the parameters or the noise handed in")
        for y, y0 in held:
            if y.tobytes() != y0:
                raise Violation("earlier-observations-touched", "observations collected earlier changed")
        idx = np.asarray(obs_t)
        y = np.asarray(obs_y, float)
        held.append((obs_y, y.tobytes()))
        want = span * dens
        if not (want - 1 - 1e-6 <= idx.size <= want + 1 + 1e-6):
            raise Violation("density", f"{idx.size} readings over {span:.6g} time units at density {dens}")
        if idx.size == 0:
            cov.hit("no_readings")
            continue
        if np.any(np.diff(idx) <= 0) or idx[0] < 0 or idx[-1] > tk.size - 1:
            raise Violation("times", f"sample times are not strictly increasing inside the window: {idx.tolist()[:20]} of {tk.size}")
        if idx[0] == 0:
            raise Violation("times", "the first reading is taken at the very start of the window")
        if idx.size > 1:
            g = np.diff(idx)
            if g.max() - g.min() > 1:
                raise Violation("times", f"gaps between readings range from {g.min()} to {g.max()}")
            if idx[0] > 2 * g.max() + 1 or tk.size - idx[-1] > 2 * g.max() + 1:
                raise Violation("times", f"readings {idx[0]}..{idx[-1]} do not spread over the window of {tk.size} samples")
        base = path[idx] if d == 1 else path[idx][:, cols]
        if y.shape != base.shape:
            raise Violation("values", f"observations have shape {y.shape}, expected {base.shape}")
        if not np.allclose(np.asarray(obs_n, float), r[0] if d == 1 else np.diag(r)):
            raise Violation("noise-matrix", f"returned observation noise {np.asarray(obs_n).tolist()} is not the configured {r.tolist()}")
        resid = (y - base)
        sd = np.sqrt(r[0]) if d == 1 else np.sqrt(r)[None, :]
        w = (resid / sd).ravel()
        tol = (1e-9 + 1e-14 * (1 + np.abs(base)) / sd * 50).ravel()
        bad = match(w, tol, np.array(t.draws))
        if bad is not None:
            raise Violation("error-not-drawn", f"reading {bad}: error {resid.ravel()[bad]:.9g} (standardised {w[bad]:.9g}) is none of the {len(t.draws)} draws "
                                               f"made by this collection, or reuses one")
        judged += 1
        cov.state(spec["model"], op["form"], len(cols), idx.size, op["script"], pos)
        cov.log(idx.tolist(), y.tobytes().hex()[:600])
    cov.trivial = not judged


def shrink(sc):
    ops = sc["ops"]
    for i in range(1, len(ops)):
        yield dict(sc, ops=ops[:i] + ops[i + 1:])
    for i, o in enumerate(ops):
        if o["op"] == "collect":
            if o.get("mask"):
                yield dict(sc, ops=ops[:i] + [{k: v for k, v in o.items() if not k.startswith("mask")}] + ops[i + 1:])
            if o["share"] > 0.1:
                yield dict(sc, ops=ops[:i] + [dict(o, share=0.1)] + ops[i + 1:])
            if o["form"] != "scalar":
                yield dict(sc, ops=ops[:i] + [dict(o, form="scalar")] + ops[i + 1:])
        if o["op"] == "path" and o["n"] > 20:
            yield dict(sc, ops=ops[:i] + [dict(o, n=20)] + ops[i + 1:])
