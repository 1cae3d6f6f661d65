"""Direct use of the dynamical models: construction, reference drifts."""
import numpy as np

from . import seams, world


def gen_model(rng, models=("DW", "OU", "L63", "L96"), weights=(4, 4, 5, 1)):
    m = rng.choices(models, weights[:len(models)])[0]
    r = lambda lo, hi: round(rng.uniform(lo, hi), 4)
    if m == "DW":
        return {"model": m, "sigma": r(0.05, 3.0), "theta": r(0.3, 2.0)}
    if m == "OU":
        return {"model": m, "sigma": r(0.05, 3.0), "theta": r(0.2, 4.0)}
    if m == "L63":
        s = rng.choice((1.0, 4.0, 10.0))
        sg = rng.choice((s, [s, r(1, 20), r(1, 20)], world.spd(rng, 3, s), world.spd(rng, 3, s)))
        return {"model": m, "sigma": sg, "theta": [r(8, 11), r(10, 28), r(2, 3)]}
    s = rng.choice((1.0, 4.0))
    sg = rng.choice((s, [r(0.5, 6) for _ in range(40)], world.spd(rng, 40, s)))
    return {"model": m, "sigma": sg, "theta": r(4, 8)}


def as_arg(v):
    return np.array(v, dtype=float) if isinstance(v, list) else v


def make(spec, seed=None):
    cls = world.sut()["models"][spec["model"]]
    with seams.quiet():
        return cls(as_arg(spec["sigma"]), as_arg(spec["theta"]), seed)


def dim(spec):
    return {"DW": 1, "OU": 1, "L63": 3, "L96": 40}[spec["model"]]


def cov_matrix(spec):
    d = dim(spec)
    s = np.asarray(spec["sigma"], float)
    if s.ndim == 0:
        return float(s) * np.eye(d)
    return np.diag(s) if s.ndim == 1 else s


def drift(spec, x, mu=0.0):
    """The model equations, written independently (x: n or n x d)."""
    th = spec["theta"]
    if spec["model"] == "DW":
        return 4.0 * x * (th - x * x)
    if spec["model"] == "OU":
        return th * (mu - x)
    if spec["model"] == "L63":
        s, r, b = th
        a, c, e = x[..., 0], x[..., 1], x[..., 2]
        return np.stack([s * (c - a), a * (r - e) - c, a * c - b * e], axis=-1)
    d = x.shape[-1]
    i = np.arange(d)
    return (x[..., (i + 1) % d] - x[..., (i - 2) % d]) * x[..., (i - 1) % d] - x + th


def params_image(model):
    return world.freeze({"sigma": model.sigma, "theta": model.theta, "inv": model.inverse_sigma})
