"""C09: the results of a run all describe one and the same solution."""
import copy
import warnings

import numpy as np

from .. import seams, world
from ..core import Violation

ID = "C09"
RUNS = {"quick": 480, "thorough": 16000}
RUN_TIMEOUT = 200
CPU_LIMIT = 120
RULE = ("one run = one to three inferences of a seeded simulation, driven to a seeded ending (iteration limit after accepted or rejected steps, "
        "convergence, vanishing gradient, unusable free energies at trial points, evaluations that leave no moments behind); the reported "
        "parameters are evaluated afresh in another process; non-trivial = the run ended and its start is finite")
STATES = "distinct (model, solver, iteration limit, fault kind and place, evaluations made, accepted or start point) signatures"
REAL = ["src/ (set-up, run, optimiser, evaluator)"]
STUB = ["free energy and gradient answers at faulty evaluations (wrapped at VarGP)", "optimiser tolerances and iteration limit (tuning knobs)"]
ASSUMPTIONS = ["reported and fresh values may differ by rounding (1e-8 relative)", "faults hit evaluations made inside the optimiser, the first one excluded"]
KINDS = ("nan", "nan", "inf", "skip", "skip", "huge", "zero_gradient", "none", "none", "reject_all", "reject_all")
NEED = ("at", "bt", "fx", "mt", "st", "lamt", "psit", "Efx", "Edf")


def warm():
    world.warm(evaluate=True)


def gen(rng, index, tier):
    p = world.gen_params(rng, weights=(5, 4, 4, 0.35), small=True)
    runs = []
    for _ in range(rng.choice((1, 1, 1, 2, 3))):
        runs.append({"cap": rng.choice((1, 1, 2, 2, 3, 4, 5, 7, 12, 25)) if p["Model"] in ("DW", "OU") else rng.choice((1, 2, 3, 5, 8)),
                     "tol": rng.choice((None, None, None, 1e-2, 1.0)),
                     "kind": rng.choice(KINDS), "at": rng.choice((1, 2, 2, 3, 4, 5, 6, 8, 11)), "len": rng.choice((1, 1, 2, 3, 8)), "every": rng.choice((0, 0, 2, 3))})
    return {"params": p, "runs": runs}


class Faults:
    """Wraps the evaluator for evaluations made inside the optimiser."""

    def __init__(self, r):
        self.r, self.n, self.hits, self.g = r, 0, 0, 0
        self.inside = 0

    def __enter__(self):
        s = world.sut()
        self.V, self.S = s["VarGP"], s["SCG"]
        self.saved = (self.V.free_energy, self.V.gradient, self.S.__call__, self.S.__init__)
        fe, gr, call, init = self.saved
        r, me = self.r, self

        def hit(k):
            if r["kind"] == "reject_all":
                return k >= r["at"]
            if r["at"] <= k < r["at"] + r["len"]:
                return True
            return bool(r["every"]) and k >= r["at"] and (k - r["at"]) % (r["every"] + r["len"]) < r["len"]

        def free_energy(v, x):
            if not me.inside:
                return fe(v, x)
            k = me.n
            me.n += 1
            if k == 0 or r["kind"] in ("none", "zero_gradient") or not hit(k):
                return fe(v, x)
            me.hits += 1
            if r["kind"] == "skip":
                return float("nan")
            val = fe(v, x)
            return {"inf": float("inf"), "huge": 1e290}.get(r["kind"], float("nan") if r["kind"] == "nan" else abs(val) * 10 + 1e6)

        def gradient(v, x, *a, **k):
            g = gr(v, x, *a, **k)
            if me.inside:
                me.g += 1
                if r["kind"] == "zero_gradient" and me.g > r["at"]:
                    me.hits += 1
                    return np.zeros_like(g)
            return g

        def scg_call(o, *a, **k):
            me.inside += 1
            try:
                return call(o, *a, **k)
            finally:
                me.inside -= 1

        def scg_init(o, f, df, *args, **kw):
            def fix(d):
                if isinstance(d, dict) and "max_it" in d:
                    d = dict(d, max_it=min(d["max_it"], r["cap"]))
                    if r["tol"]:
                        d.update(x_tol=r["tol"], f_tol=r["tol"])
                return d
            return init(o, f, df, *[fix(a) for a in args], **{k: fix(a) for k, a in kw.items()})
        self.V.free_energy, self.V.gradient, self.S.__call__, self.S.__init__ = free_energy, gradient, scg_call, scg_init
        return self

    def __exit__(self, *a):
        self.V.free_energy, self.V.gradient, self.S.__call__, self.S.__init__ = self.saved


def fresh(p, at, bt):
    """Evaluates the reported parameters (and the start) with a new evaluator (called in another process)."""
    warnings.simplefilter("ignore")
    try:
        with seams.quiet(), np.errstate(all="ignore"):
            sim = world.sut()["Simulation"]("fresh")
            sim.setup(copy.deepcopy(p), None)
            v = world.build(sim)
            x0 = v.initialization()
            f0 = v.free_energy(x0.copy())
            v = world.build(sim)
            x = np.concatenate((np.ravel(at), np.ravel(bt)))
            fx = v.free_energy(x)
            return f0, fx, {k: np.array(q) for k, q in v.arg_out.items()}, np.array_equal(x, x0), x.size == x0.size
    except Exception:
        return None


def run(sc, cov):
    # Forked off before any inference of this run.
    with seams.Pristine(lambda at, bt: fresh(sc["params"], at, bt)) as elsewhere:
        inferences(sc, cov, elsewhere)


def inferences(sc, cov, elsewhere):
    warnings.simplefilter("ignore")
    p = sc["params"]
    s = world.sut()
    with seams.quiet(), np.errstate(all="ignore"):
        sim = s["Simulation"]("sim")
        try:
            sim.setup(copy.deepcopy(p), None)
        except Exception:
            cov.trivial = True
            return
    cov.trivial = True
    for i, r in enumerate(sc["runs"]):
        what = f"run {i} ({p['Model']}/{p['Ode-method']}, limit {r['cap']}, {r['kind']} from evaluation {r['at']})"
        with Faults(r) as f, seams.quiet(), np.errstate(all="ignore"):
            try:
                sim.run()
            except Exception as e:
                err = f"{type(e).__name__}: {e}"
            else:
                err = None
        cov.fault("free_energy_" + r["kind"] if r["kind"] != "zero_gradient" else "vanishing_gradient", f.hits)
        if err:
            if f.hits:
                cov.hit("run_raised_under_fault")
                return
            # Without a fault an inference that cannot even start is a parameter problem; judged by the reference.
            cov.hit("run_raised")
            return
        out = {k: np.array(v) for k, v in sim.output.items()}
        miss = [k for k in NEED if k not in out]
        if miss:
            raise Violation("missing", f"{what}: results lack {miss}")
        ref = elsewhere(out["at"], out["bt"])
        if ref is None:
            raise Violation("inconsistent", f"{what}: the reported variational parameters cannot be evaluated")
        f0, fx, arg, start, size = ref
        if not size:
            raise Violation("inconsistent", f"{what}: reported parameters have the wrong size")
        got = float(out["fx"].ravel()[0]) if out["fx"].size == 1 else None
        if got is None:
            raise Violation("inconsistent", f"{what}: free energy of shape {out['fx'].shape}")
        if not np.isfinite(f0):
            return
        cov.trivial = False
        cov.hit("endings_judged")
        cov.state(p["Model"], p["Ode-method"], r["cap"], r["kind"], r["at"], f.n, start)
        cov.log(i, got, f.n, f.hits)
        cov.steps += f.n
        if not world.close(got, fx, rtol=1e-8, atol=1e-9):
            raise Violation("inconsistent_fx", f"{what}: reported free energy {got!r}, its reported parameters have {fx!r}")
        for k in sorted(arg):
            if k not in out:
                raise Violation("missing", f"{what}: results lack {k}")
            if not world.close(out[k].reshape(arg[k].shape) if out[k].size == arg[k].size else out[k], arg[k], rtol=1e-8, atol=1e-11):
                raise Violation("inconsistent", f"{what}: reported {k} does not belong to the reported parameters "
                                                f"(largest difference {np.nanmax(np.abs(np.ravel(out[k]) - np.ravel(arg[k]))) if out[k].size == arg[k].size else 'shape'})")
        if not got <= f0 + 1e-9 * abs(f0):
            raise Violation("above_start", f"{what}: reported free energy {got!r} is above the start {f0!r}")


def shrink(sc):
    out = []
    for i in range(len(sc["runs"])):
        if len(sc["runs"]) > 1:
            out.append(dict(sc, runs=sc["runs"][:i] + sc["runs"][i + 1:]))
    for i, r in enumerate(sc["runs"]):
        for alt in (dict(r, kind="none"), dict(r, cap=max(1, r["cap"] // 2)), dict(r, every=0), dict(r, len=1), dict(r, tol=None)):
            if alt != r:
                out.append(dict(sc, runs=sc["runs"][:i] + [alt] + sc["runs"][i + 1:]))
    for q in world.shrink_params(sc["params"]):
        out.append(dict(sc, params=q))
    return out
