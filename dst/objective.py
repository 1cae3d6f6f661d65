"""The simulated objective service the optimiser talks to.

Real code: the optimiser.  Stub: the objective, which misbehaves as the
scenario's fault plan says (wrong values for some calls, noise, gradients that
do not belong to the function) and records every call in order.
"""
import math
import random

import numpy as np

from .core import Violation

KINDS = ("quad", "quart", "logcosh", "rosen", "abs", "cosine", "const", "linear", "step", "wall", "exp", "maxpow")
CONVEX = ("quad", "quart", "logcosh")


class Runaway(BaseException):
    pass


def gen_base(rng, kinds=KINDS, dmax=10, cond=100.0):
    kind = rng.choice(kinds)
    d = rng.choice((1, 1, 2, 2, 3, 5, dmax))
    if kind == "rosen":
        d = max(d, 2)
    return {"kind": kind, "dim": d, "cond": rng.choice((1.0, 4.0, 30.0, cond)), "seed": rng.randrange(10 ** 6),
            "shift": rng.choice((0.0, 0.0, 5.0, -3.0, 1000.0)), "scale": rng.choice((1.0, 1.0, 1.0, 100.0, 1e-3)),
            "x0": [round(rng.uniform(-2, 2) * rng.choice((1, 1, 3)), 3) for _ in range(d)]}


def base(spec):
    """(function, gradient, minimum or None) of a base problem."""
    d, sc, sh = spec["dim"], spec["scale"], spec["shift"]
    r = random.Random(spec["seed"])
    kind = spec["kind"]
    c = np.array([r.uniform(-1, 1) for _ in range(d)])
    lam = np.array([spec["cond"] ** (i / max(1, d - 1)) for i in range(d)])
    q, _ = np.linalg.qr(np.array([[r.gauss(0, 1) for _ in range(d)] for _ in range(d)]) + 1e-3 * np.eye(d))

    if kind == "quad":
        a = q.dot(np.diag(lam)).dot(q.T)
        return (lambda x: sc * 0.5 * (x - c).dot(a).dot(x - c) + sh, lambda x: sc * a.dot(x - c), (c, sh))
    if kind == "quart":
        return (lambda x: sc * np.sum(lam * (0.5 * (x - c) ** 2 + 0.25 * (x - c) ** 4)) + sh,
                lambda x: sc * lam * ((x - c) + (x - c) ** 3), (c, sh))
    if kind == "logcosh":
        return (lambda x: sc * np.sum(lam * (np.logaddexp(x - c, c - x) - math.log(2))) + sh,
                lambda x: sc * lam * np.tanh(x - c), (c, sh))
    if kind == "rosen":
        def f(x):
            return sc * np.sum(10.0 * (x[1:] - x[:-1] ** 2) ** 2 + (1.0 - x[:-1]) ** 2) + sh

        def g(x):
            o = np.zeros_like(x)
            o[:-1] += -40.0 * x[:-1] * (x[1:] - x[:-1] ** 2) - 2.0 * (1.0 - x[:-1])
            o[1:] += 20.0 * (x[1:] - x[:-1] ** 2)
            return sc * o
        return f, g, None
    if kind == "abs":
        return (lambda x: sc * np.sum(lam * np.abs(x - c)) + sh, lambda x: sc * lam * np.sign(x - c), None)
    if kind == "cosine":
        return (lambda x: sc * np.sum(0.05 * x ** 2 - np.cos(3 * x)) + sh, lambda x: sc * (0.1 * x + 3 * np.sin(3 * x)), None)
    if kind == "const":
        return lambda x: sh + 0.0 * x[0], lambda x: np.zeros(d), None
    if kind == "linear":
        return lambda x: sc * c.dot(x) + sh, lambda x: sc * c, None
    if kind == "step":
        return lambda x: sc * float(np.sum(np.floor(x))) + sh, lambda x: sc * np.ones(d), None
    if kind == "wall":      # NaN outside the unit ball around the centre
        return (lambda x: (sc * np.sum((x - c) ** 2) + sh) if np.sum((x - c) ** 2) < 4 * d else float("nan"),
                lambda x: 2 * sc * (x - c), None)
    if kind == "exp":       # overflows easily
        return lambda x: sc * float(np.sum(np.exp(5 * x) + np.exp(-3 * x))) + sh, lambda x: sc * (5 * np.exp(5 * x) - 3 * np.exp(-3 * x)), None
    if kind == "maxpow":
        return lambda x: sc * float(np.max(np.abs(x))) ** 1.5 + sh, lambda x: sc * 1.5 * np.sqrt(np.max(np.abs(x))) * np.sign(x) * (np.abs(x) == np.max(np.abs(x))), None
    raise KeyError(kind)


VALUE_FAULTS = {"nan": lambda v, a: float("nan"), "+inf": lambda v, a: float("inf"), "-inf": lambda v, a: float("-inf"),
                "huge": lambda v, a: 1e300, "spike": lambda v, a: v + abs(a) * (1 + abs(v)), "dip": lambda v, a: v - abs(a) * (1 + abs(v)),
                "overflow": lambda v, a: v * 1e200}
GRAD_FAULTS = {"nan": lambda g, a: g * float("nan"), "nan1": lambda g, a: np.where(np.arange(g.size) == 0, float("nan"), g),
               "inf": lambda g, a: g * float("inf"), "zero": lambda g, a: g * 0.0, "flip": lambda g, a: -g,
               "huge": lambda g, a: g * 1e60, "tiny": lambda g, a: g * 1e-12, "turn": lambda g, a: np.roll(g, 1) * a}


class Service:
    """f / df with the fault plan; the log is the history to be judged."""

    def __init__(self, spec, budget):
        self.f0, self.g0, self.min = base(spec["base"])
        self.spec = spec
        self.noise = spec.get("noise", 0.0)
        self.gmode = spec.get("gmode", "true")
        self.vf = {f["at"]: f for f in spec.get("faults", ()) if f["on"] == "f"}
        self.gf = {f["at"]: f for f in spec.get("faults", ()) if f["on"] == "g"}
        self.rng = random.Random(f"svc:{spec['base']['seed']}")
        self.log = []            # (what, x bytes, value)
        self.nf = self.ng = self.nfg = 0
        self.fired = {}
        self.budget = budget
        self.clock = 0

    def _spend(self):
        self.clock += 1
        if self.clock > self.budget:
            raise Runaway(f"more than {self.budget} evaluations")

    def _value(self, x):
        k = self.nf + self.nfg
        with np.errstate(all="ignore"):
            v = float(self.f0(x))
        if self.noise:
            v += self.noise * self.rng.gauss(0, 1) * (1 + abs(v))
        f = self.vf.get(k)
        if f:
            self.fired["value_" + f["kind"]] = self.fired.get("value_" + f["kind"], 0) + 1
            v = VALUE_FAULTS[f["kind"]](v, f.get("arg", 1.0))
        return v

    def f(self, x, *a):
        self._spend()
        v = self._value(x)
        self.nf += 1
        self.log.append(("f", x.tobytes(), v, x.copy()))
        return v if self.spec.get("ret") != "np" else np.float64(v)

    def df(self, x, eval_fun=False):
        self._spend()
        if eval_fun:
            self._value(x)
            self.nfg += 1
        with np.errstate(all="ignore"):
            g = np.array(self.g0(x), dtype=float)
        m = self.gmode
        if m == "scaled":
            g = 0.3 * g
        elif m == "flipped":
            g = -g
        elif m == "random":
            g = np.array([self.rng.gauss(0, 1) for _ in range(g.size)])
        elif m == "stale":
            g, self.last = getattr(self, "last", g), g
        elif m == "noisy":
            g = g * (1 + 0.2 * self.rng.gauss(0, 1))
        f = self.gf.get(self.ng)
        if f:
            self.fired["gradient_" + f["kind"]] = self.fired.get("gradient_" + f["kind"], 0) + 1
            with np.errstate(all="ignore"):
                g = np.asarray(GRAD_FAULTS[f["kind"]](g, f.get("arg", 1.0)), dtype=float)
        self.ng += 1
        self.log.append(("g+" if eval_fun else "g", x.tobytes(), None, g.copy()))
        return g


def gen_faults(rng, horizon, values=tuple(VALUE_FAULTS), grads=tuple(GRAD_FAULTS), first=0):
    out = []
    style = rng.random()
    if style < 0.25:
        return out
    for _ in range(rng.choice((1, 1, 2, 3, 6))):
        at = first + int(horizon * rng.random() ** 1.5)
        if values and (not grads or rng.random() < 0.65):
            kind = rng.choice(values)
            for j in range(rng.choice((1, 1, 1, 2, 4, 9))):
                out.append({"on": "f", "at": at + j, "kind": kind, "arg": rng.choice((0.1, 1.0, 1e3))})
        else:
            kind = rng.choice(grads)
            for j in range(rng.choice((1, 1, 2))):
                out.append({"on": "g", "at": at + j, "kind": kind, "arg": rng.choice((0.5, 1.0, 2.0))})
    return out


def drive(spec, budget=None):
    """One optimisation of the service; returns what there is to judge."""
    from . import seams, world
    opts = dict(spec["opts"])
    svc = Service(spec, budget or 8 * (opts.get("max_it", 150) + 2) + 40)
    scg = world.sut()["SCG"](svc.f, svc.df, opts)
    x0 = np.array(spec["base"]["x0"], dtype=float)
    if spec.get("shape") == "column":
        x0 = x0.reshape(-1, 1)
    before = x0.copy()
    out = {"svc": svc, "scg": scg, "x0": x0, "before": before}
    with seams.quiet() as text, np.errstate(all="ignore"):
        try:
            out["x"], out["fx"] = scg(x0)
        except Runaway as e:
            out["runaway"] = str(e)
        except Exception as e:
            raise Violation("no_result", f"the optimiser raised {type(e).__name__}: {str(e)[:200]} after {svc.clock} evaluations (none of which failed)")
    out["text"] = text.getvalue()
    return out


def history(log, x0):
    """Replays the call history on the reference model of a descent method.

    The current point is the first one evaluated; a trial is a function
    evaluation elsewhere; it becomes current iff its value is not above the
    current one.  Returns (values current after each trial, final points,
    final value, ambiguous) - ties leave both points possible.
    """
    trace, cur, curf, amb = [], None, None, False
    fresh = False                # the last call moved the current point
    for what, xb, v, x in log:
        if what != "f":
            continue
        if v == v and not np.all(np.isfinite(x)):
            amb = True           # a value at a point that is none
        if cur is None:
            cur, curf = {xb}, v
            continue
        if xb in cur:
            if not fresh:
                amb = True       # a repetition, or a trial that did not move
            cur, fresh = {xb}, False
            continue
        fresh = False
        if v < curf:
            cur, curf, fresh = {xb}, v, True
        elif v == curf and math.isfinite(v):
            cur, fresh = cur | {xb}, True
        trace.append(curf)
    return trace, cur, curf, amb


def shrink_spec(sc):
    fs = sc.get("faults", [])
    for i in range(len(fs)):
        yield dict(sc, faults=fs[:i] + fs[i + 1:])
    if len(fs) > 3:
        yield dict(sc, faults=fs[:len(fs) // 2])
        yield dict(sc, faults=fs[len(fs) // 2:])
    if sc.get("noise"):
        yield dict(sc, noise=0.0)
    if sc.get("gmode", "true") != "true":
        yield dict(sc, gmode="true")
    if sc.get("shape") or sc.get("ret"):
        yield {k: v for k, v in sc.items() if k not in ("shape", "ret")}
    b = sc["base"]
    if b["dim"] > 1 and b["kind"] != "rosen" or b["dim"] > 2:
        yield dict(sc, base=dict(b, dim=b["dim"] - 1, x0=b["x0"][:-1]))
    for k, v in (("kind", "quad"), ("cond", 1.0), ("shift", 0.0), ("scale", 1.0)):
        if b[k] != v:
            yield dict(sc, base=dict(b, **{k: v}))
    o = sc["opts"]
    for m in (1, 2, 5, 20):
        if o.get("max_it", 150) > m:
            yield dict(sc, opts=dict(o, max_it=m))
    if any(x != 1.0 for x in b["x0"]):
        yield dict(sc, base=dict(b, x0=[1.0] * b["dim"]))
