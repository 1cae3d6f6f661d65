"""Workloads on VGPA: parameter generation and the public-API plumbing."""
import copy
import hashlib
import os
import sys

import numpy as np

from . import seams
from .core import REPO, Violation
from .seams import quiet

_loaded = {}


def sut():
    """The modules under test, imported from /repo's working tree."""
    if not _loaded:
        assert sys.path and REPO in sys.path
        seams.install_locks()
        seams.Pools.install()
        import src.var_bayes.simulation as simulation
        import src.var_bayes.variational as variational
        import src.var_bayes.fwd_ode as fwd
        import src.var_bayes.bwd_ode as bwd
        import src.var_bayes.gaussian_like as like
        import src.var_bayes.prior_kl0 as kl0
        import src.numerics.optim_scg as scg
        import src.dynamics.double_well as dw
        import src.dynamics.ornstein_uhlenbeck as ou
        import src.dynamics.lorenz_63 as l63
        import src.dynamics.lorenz_96 as l96
        if not os.path.realpath(simulation.__file__).startswith(seams.SRC):
            raise RuntimeError(f"wrong code under test: {simulation.__file__}")
        _loaded.update(simulation=simulation, Simulation=simulation.Simulation, load=simulation.load,
                       VarGP=variational.VarGP, FwdOde=fwd.FwdOde, BwdOde=bwd.BwdOde,
                       GaussianLikelihood=like.GaussianLikelihood, PriorKL0=kl0.PriorKL0, SCG=scg.SCG,
                       models={"DW": dw.DoubleWell, "OU": ou.OrnsteinUhlenbeck,
                               "L63": l63.Lorenz63, "L96": l96.Lorenz96},
                       modules={"DW": dw, "OU": ou, "L63": l63, "L96": l96})
    return _loaded


def warm(models=("DW", "OU", "L63", "L96"), evaluate=True):
    """Imports the code and has it compiled once, before runs fork off."""
    s = sut()
    with quiet():
        for m in models:
            try:
                p = {"DW": dict(sys=0.8, theta=1.0), "OU": dict(sys=0.8, theta=1.0),
                     "L63": dict(sys=[10.0] * 3, theta=[10.0, 28.0, 2.667]),
                     "L96": dict(sys=[4.0] * 40, theta=8.0)}[m]
                prm = params(m, "euler", p["sys"], p["theta"], n=12, dt=0.01, density=40)
                sim = s["Simulation"]("warm")
                sim.setup(prm, None)
                if evaluate:
                    v = build(sim)
                    x = v.initialization()
                    v.free_energy(x)
                    v.gradient(x)
            except Exception:
                pass        # runs will report what is wrong


def params(model, solver, sys_, theta, n=20, dt=0.01, t0=0.0, density=10, obs=0.1, seed=1,
           mu0=1.0, tau0=0.5, operator=None, name="sim"):
    return {"Output_Name": name, "Model": model, "Ode-method": solver, "Random-Seed": seed,
            "Time-window": {"t0": t0, "tf": round(t0 + n * dt, 10), "dt": dt},
            "Noise": {"sys": sys_, "obs": obs},
            "Observations": {"density": density, "operator": operator},
            "Drift": {"theta": theta}, "Prior": {"mu0": mu0, "tau0": tau0}}


SOLVERS = ("euler", "heun", "rk2", "rk4")
SEEDS = (0, 0, 1, 2, 7, 12345, 2 ** 31 - 1, 2 ** 32, 2 ** 63 + 11, 10 ** 25)


def spd(rng, d, scale):
    """A positive-definite matrix with visible off-diagonals (nested lists)."""
    a = np.array([[rng.uniform(-1, 1) for _ in range(d)] for _ in range(d)])
    m = a.dot(a.T) / d + np.eye(d) * 0.3
    m = 0.5 * (m + m.T)
    return (scale * m).tolist()


def gen_params(rng, models=("DW", "OU", "L63", "L96"), weights=None, small=False, prior_forms=True, seeds=SEEDS,
               full_sigma=True):
    """Seeded simulation parameters (JSON-able)."""
    m = rng.choices(models, weights or [1] * len(models))[0]
    solver = rng.choice(SOLVERS)
    seed = rng.choice(seeds) if rng.random() < 0.6 else rng.randrange(10 ** 6)
    t0 = rng.choice((0.0, 0.0, 0.0, 1.0, -0.5, 2.5, 100.0))
    if m in ("DW", "OU"):
        dt = rng.choice((0.01, 0.01, 0.02, 0.025, 0.04, 0.05))
        n = rng.choice((12, 20, 30) if small else (15, 30, 60, 100))
        sys_ = rng.choice((0.25, 0.5, 0.8, 1.0, 1.5, 0.02, 0.1, 4.0))
        theta = rng.choice((0.5, 0.8, 1.0, 1.3))
        obs = rng.choice((0.01, 0.04, 0.1, 0.3, 0.001, 2.0))
        mu0, tau0 = rng.choice((0.0, 1.0, -0.7, 0.04, -2.5)), rng.choice((0.25, 0.5, 1.0, 0.05, 3.0))
    elif m == "L63":
        dt = rng.choice((0.005, 0.01, 0.01))
        n = rng.choice((10, 14, 20) if small else (12, 20, 40))
        s = rng.choice((2.0, 5.0, 10.0))
        sys_ = rng.choice((s, [s, 2 * s, 1.5 * s]))
        if full_sigma and rng.random() < 0.35:
            sys_ = spd(rng, 3, s)
        theta = rng.choice(([10.0, 28.0, 2.667], [9.0, 26.0, 2.4], [10.0, 14.0, 2.667]))
        obs = rng.choice((1.0, 2.0, [1.0, 2.0, 1.5]))
        mu0, tau0 = rng.choice((0.0, 1.0)), rng.choice((0.5, 1.0))
        if prior_forms and rng.random() < 0.5:
            mu0 = rng.choice(([1.0, 2.0, 3.0], 0.5, [0.0, -2.0, 0.07], [-0.05, 0.0, 20.0], [1.5, -1.5, 0.0]))
    else:
        dt = rng.choice((0.005, 0.01))
        n = rng.choice((6, 8) if small else (8, 12))
        s = rng.choice((1.0, 4.0))
        sys_ = rng.choice((s, [s] * 20 + [2 * s] * 20))
        theta = rng.choice((8.0, 6.0))
        obs = rng.choice((1.0, 0.5))
        mu0, tau0 = rng.choice((0.0, 1.0)), rng.choice((0.5, 1.0))
        if prior_forms and rng.random() < 0.3:
            mu0 = [round(0.1 * i - rng.choice((0.0, 1.0)), 10) for i in range(40)]
    # At least two interior observations, not on the last grid point.
    span = n * dt
    m_obs = rng.randint(2, max(2, min(8, n // 3)))
    density = int(np.ceil(m_obs / span + 1e-9))
    density = min(density, int(1.0 / dt) // 2)
    density = max(density, int(np.ceil(2.0 / span)))
    return params(m, solver, sys_, theta, n=n, dt=dt, t0=t0, density=density, obs=obs, seed=seed,
                  mu0=mu0, tau0=tau0)


def sibling(rng, p):
    """Parameters that differ from the given ones in one place only."""
    q = copy.deepcopy(p)
    d = {"DW": 1, "OU": 1, "L63": 3, "L96": 40}[p["Model"]]

    def vary(v, factor):
        v = np.array(v, float) * (np.ones(d) if d > 1 and np.ndim(v) < 2 else 1.0)
        if v.ndim == 2:
            return (v * factor).tolist()
        if v.ndim == 0:
            return float(v * factor)
        v[rng.randrange(d)] *= factor
        return v.tolist()
    k = rng.choice(("obs", "obs", "sys", "mu0", "tau0", "theta", "seed", "solver", "t0"))
    f = rng.choice((2.0, 0.5, 1.25))
    if k in ("obs", "sys"):
        q["Noise"][k] = vary(q["Noise"][k], f)
    elif k == "mu0":
        q["Prior"]["mu0"] = (np.array(q["Prior"]["mu0"], float) + f).tolist()
    elif k == "tau0":
        q["Prior"]["tau0"] = q["Prior"]["tau0"] * f
    elif k == "theta":
        t = np.array(q["Drift"]["theta"], float)
        if t.ndim:
            t[rng.randrange(t.size)] *= 1.05
        q["Drift"]["theta"] = (t if t.ndim else t * 1.1).tolist()
    elif k == "seed":
        q["Random-Seed"] = (q["Random-Seed"] or 0) + 1
    elif k == "solver":
        q["Ode-method"] = rng.choice([s for s in SOLVERS if s != q["Ode-method"]])
    else:
        q["Time-window"]["t0"] += 1.0
        q["Time-window"]["tf"] += 1.0
    return q


def shrink_params(p):
    """Simpler variants of one parameter set."""
    out = []

    def alt(**kw):
        q = copy.deepcopy(p)
        for k, v in kw.items():
            a, b = k.split("__")
            q[{"W": "Time-window", "N": "Noise", "O": "Observations", "P": "Prior", "D": "Drift"}[a]][b] = v
        out.append(q)
    if p["Ode-method"] != "euler":
        q = copy.deepcopy(p)
        q["Ode-method"] = "euler"
        out.append(q)
    if p["Model"] not in ("DW",):
        q = copy.deepcopy(p)
        q.update(params("DW", p["Ode-method"], 0.8, 1.0, n=20, dt=0.01, density=15, seed=p["Random-Seed"], name=p["Output_Name"]))
        out.append(q)
    w = p["Time-window"]
    if w["t0"]:
        alt(W__t0=0.0, W__tf=round(w["tf"] - w["t0"], 10))
    if p["Random-Seed"] not in (1, None):
        q = copy.deepcopy(p)
        q["Random-Seed"] = 1
        out.append(q)
    return out


def arrayify(p):
    """The same parameters with NumPy arrays instead of lists (API callers)."""
    q = copy.deepcopy(p)
    q["Drift"]["theta"] = np.array(q["Drift"]["theta"], float)
    if isinstance(q["Noise"]["sys"], list):
        q["Noise"]["sys"] = np.array(q["Noise"]["sys"], float)
    if isinstance(q["Prior"]["mu0"], list):
        q["Prior"]["mu0"] = np.array(q["Prior"]["mu0"], float)
        d = q["Prior"]["mu0"].size
        q["Prior"]["tau0"] = np.eye(d) * q["Prior"]["tau0"] + 0.05 * np.ones((d, d))
    return q


def freeze(x):
    """A comparable, bit-exact image of parameters or results."""
    if isinstance(x, dict):
        return {str(k): freeze(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [type(x).__name__] + [freeze(v) for v in x]
    if isinstance(x, np.ndarray) or isinstance(x, np.generic):
        a = np.asarray(x)
        return ["nd", str(a.dtype), list(a.shape), hashlib.sha256(np.ascontiguousarray(a).tobytes()).hexdigest()[:16]]
    return repr(x)


def image(results):
    """Bit-exact image of a result dictionary, scalars as one-element arrays."""
    out = {}
    for k, v in results.items():
        a = np.atleast_1d(np.asarray(v))
        out[str(k)] = (str(a.dtype), tuple(a.shape), hashlib.sha256(np.ascontiguousarray(a).tobytes()).hexdigest()[:16])
    return out


def diff_image(a, b, na="first", nb="second"):
    """Human-readable difference of two images, or ''."""
    if a == b:
        return ""
    msg = []
    for k in sorted(set(a) | set(b)):
        if k not in a:
            msg.append(f"{k} only in {nb}")
        elif k not in b:
            msg.append(f"{k} only in {na}")
        elif a[k] != b[k]:
            msg.append(f"{k}: {a[k]} != {b[k]}" if a[k][:2] != b[k][:2] else f"{k}: values differ")
    return "; ".join(msg)


class Cap:
    """Caps the optimiser's iteration budget (a tuning knob of the run)."""

    def __init__(self, cap):
        self.cap = cap

    def __enter__(self):
        scg = sut()["SCG"]
        self.orig = orig = scg.__init__
        cap = self.cap

        def init(me, f, df, *args, **kw):
            args = list(args)
            for i, a in enumerate(args):
                if isinstance(a, dict) and "max_it" in a:
                    args[i] = dict(a, max_it=min(a["max_it"], cap))
            for k, a in kw.items():
                if isinstance(a, dict) and "max_it" in a:
                    kw[k] = dict(a, max_it=min(a["max_it"], cap))
            return orig(me, f, df, *args, **kw)
        scg.__init__ = init
        return self

    def __exit__(self, *a):
        sut()["SCG"].__init__ = self.orig


def build(sim):
    """A VarGP evaluator for a set-up simulation (as its run() builds it)."""
    s = sut()
    d = sim.m_data
    one = d["model"].single_dim
    dt = d["time_window"]["dt"]
    fwd = s["FwdOde"](dt, d["ode_solver"], one)
    bwd = s["BwdOde"](dt, d["ode_solver"], one)
    like = s["GaussianLikelihood"](d["obs_y"], d["obs_t"], d["obs_noise"], d["obs_setup"]["operator"], one)
    kl0 = s["PriorKL0"](d["mu0"], d["tau0"], one)
    return s["VarGP"](d["model"], d["m0"], d["s0"], fwd, bwd, like, kl0, d["obs_y"], d["obs_t"])


def full_run(p, name="sim", cap=12, save=True, data=None):
    """set-up, run, save; returns (images, output)."""
    s = sut()
    with quiet(), Cap(cap):
        sim = s["Simulation"](name)
        sim.setup(p, data)
        sim.run()
        if save:
            sim.save()
    return sim


def sim_image(sim):
    """Everything a simulation has produced, bit-exactly."""
    m = sim.m_data["model"]
    out = image(sim.output)
    out.update({"~" + k: v for k, v in image({"path": m.sample_path, "tk": m.time_window,
                                              "obs_t": np.asarray(sim.m_data["obs_t"]),
                                              "obs_y": sim.m_data["obs_y"]}).items()})
    return out


def setup_image(sim):
    m = sim.m_data["model"]
    return {"~" + k: v for k, v in image({"path": m.sample_path, "tk": m.time_window,
                                          "obs_t": np.asarray(sim.m_data["obs_t"]),
                                          "obs_y": sim.m_data["obs_y"]}).items()}


def close(a, b, rtol=1e-9, atol=1e-10):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    with np.errstate(all="ignore"):
        scale = np.nanmax(np.abs(np.where(np.isfinite(b), b, 0.0))) if b.size else 0.0
        ok = (a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= atol + rtol * max(scale, 1e-300))
    return bool(np.all(ok))
