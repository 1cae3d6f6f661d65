"""C08: free energy and gradient depend on the query point, not on history."""
import random

import numpy as np

from .. import seams, world
from ..core import Violation

ID = "C08"
RUNS = {"quick": 600, "thorough": 12000}
RUN_TIMEOUT = 200
CPU_LIMIT = 120
RULE = ("one run = one or two evaluators (of the same or different models) taken through a seeded history of free-energy and gradient requests at "
        "seeded points, in fresh or re-used arrays, with evaluations that fail half-way (exception injected at a statement) or at unusable points, "
        "with short optimisations in between, and with several evaluators of one model interleaved by threads (seeded scheduler); every judged answer is compared with that of an evaluator without history in another process; "
        "non-trivial = at least two answers judged")
STATES = "distinct (model, solver, operation, kind of point, previous operation) signatures"
REAL = ["src/var_bayes/*.py", "src/numerics/*.py", "src/dynamics/*.py energies", "SCG in 'optimise' steps"]
STUB = ["statement failures (tracer)", "thread scheduling (one thread released at a time)"]
ASSUMPTIONS = ["answers may differ by rounding (1e-9 relative to the largest entry)",
               "a gradient requested alone at a point other than the last successfully evaluated one is not judged"]


def warm():
    world.warm(evaluate=True)


def gen(rng, index, tier):
    n = 1 if rng.random() < 0.45 else 2
    ps = [world.gen_params(rng, weights=(4, 4, 4, 0.35), small=True) for _ in range(n)]
    if n == 2 and rng.random() < 0.65:
        ps[1] = world.sibling(rng, ps[0])
    ops = []
    for _ in range(rng.randint(3, 9)):
        ops.append({"who": rng.randrange(n), "op": rng.choices(("fe", "fe_grad", "grad_eval", "grad_alone", "fail", "fail", "failgrad", "wild", "scg", "spoil", "threads"),
                                                               (4, 5, 5, 1, 3, 3, 1, 2, 1, 1, 1.5))[0],
                    "point": rng.choice(("x0", "near", "far", "far", "zero", "last", "again")), "buf": rng.random() < 0.5,
                    "seed": rng.randrange(10 ** 9), "u": round(rng.random(), 6), "v": round(rng.random(), 6),
                    "exc": rng.choice(sorted(seams.EXC))})
    return {"params": ps, "ops": ops}


class Evaluator:
    def __init__(self, p):
        s = world.sut()
        with seams.quiet(), np.errstate(all="ignore"):
            self.sim = s["Simulation"]("sim")
            self.sim.setup(p, None)
            self.v = world.build(self.sim)
            self.x0 = np.array(self.v.initialization(), float)
        self.buf = self.x0.copy()
        self.points = [self.x0.copy()]
        self.sites = None
        self.p = p

    def point(self, op):
        r = np.random.default_rng(op["seed"])
        x = self.x0
        k = op["point"]
        if k == "near":
            y = x + 1e-3 * r.standard_normal(x.size)
        elif k == "far":
            y = x * (1 + 0.2 * r.standard_normal(x.size)) + 0.1 * r.standard_normal(x.size)
        elif k == "zero":
            y = 0.1 * np.ones(x.size)
        elif k == "last":
            y = self.points[-1].copy()
        elif k == "again":
            y = self.points[int(op["u"] * len(self.points))].copy()
        else:
            y = x.copy()
        self.points.append(y.copy())
        if op["buf"]:
            self.buf[...] = y
            return self.buf
        return y

    def guarded(self):
        """What an evaluation must leave alone."""
        d = self.sim.m_data
        return world.freeze({"obs_y": self.v.obs_y, "obs_t": np.asarray(self.v.obs_t), "like_y": self.v.likelihood.values,
                             "m0": np.asarray(self.v.output["m0"]), "s0": np.asarray(self.v.output["s0"]), "dm0": np.asarray(d["m0"]), "ds0": np.asarray(d["s0"]),
                             "path": self.v.model.sample_path, "tk": self.v.model.time_window,
                             "sigma": np.asarray(self.v.model.sigma), "theta": np.asarray(self.v.model.theta)})


def quietly(fn):
    with seams.quiet(), np.errstate(all="ignore"):
        return fn()


def fresh(params, who, x, want):
    """The answer of an evaluator without history (called in another process)."""
    import warnings
    warnings.simplefilter("ignore")
    e = Evaluator(params[who])
    x = np.array(x)
    try:
        f = quietly(lambda: e.v.free_energy(x))
        g = quietly(lambda: e.v.gradient(x)) if want else None
    except Exception as err:
        return ("raise", type(err).__name__, None)
    return ("ok", f, g)


def run(sc, cov):
    # Forked off before anything of this run has happened here.
    with seams.Pristine(lambda who, x, want: fresh(sc["params"], who, x, want)) as elsewhere:
        history(sc, cov, elsewhere)


def history(sc, cov, elsewhere):
    import copy
    import warnings
    warnings.simplefilter("ignore")
    es = []
    for p in sc["params"]:
        try:
            es.append(Evaluator(copy.deepcopy(p)))
        except Exception:
            cov.trivial = True
            cov.hit("unusable_parameters")
            return
    cache = {}

    def ref(who, x, want):
        key = (who, x.tobytes(), want)
        if key not in cache:
            cache[key] = elsewhere(who, x, want)
            cov.hit("reference_evaluations")
        return cache[key]
    judged = 0
    last = "new"
    valid = [None] * len(es)      # the point of the last successful evaluation

    def compare(who, what, kind, fn, idx, x):
        want = ref(who, x, kind == "gradient")
        try:
            got = quietly(fn)
        except Exception as err:
            if want[0] == "ok":
                raise Violation("history_" + kind, f"{what}: raised {type(err).__name__}: {err}; an evaluator without history answers")
            return False
        if want[0] != "ok":
            raise Violation("history_" + kind, f"{what}: answered; an evaluator without history raises {want[1]}")
        w = want[idx]
        if not world.close(np.asarray(got), np.asarray(w), rtol=1e-9, atol=1e-12):
            a, b = np.ravel(got), np.ravel(w)
            i = int(np.nanargmax(np.abs(a - b))) if a.shape == b.shape and np.any(np.isfinite(a - b)) else 0
            raise Violation("history_" + kind, f"{what}: {a[i] if i < a.size else a} instead of {b[i]} (entry {i})")
        return True
    for i, op in enumerate(sc["ops"]):
        who = op["who"]
        e = es[who]
        guard = [q.guarded() for q in es]
        x = e.point(op)
        keep = x.copy()
        k = op["op"]
        what = f"step {i} ({k} at {op['point']}, {sc['params'][who]['Model']}/{sc['params'][who]['Ode-method']}, after {last})"
        if k == "fe":
            if compare(who, what, "free_energy", lambda: e.v.free_energy(x), 1, keep):
                valid[who] = keep
            else:
                valid[who] = None
            judged += 1
        elif k == "fe_grad":
            if compare(who, what, "free_energy", lambda: e.v.free_energy(x), 1, keep):
                valid[who] = keep
                compare(who, what, "gradient", lambda: e.v.gradient(x), 2, keep)
            else:
                valid[who] = None
            judged += 2
        elif k == "grad_eval":
            ok = compare(who, what, "gradient", lambda: e.v.gradient(x, eval_fun=True), 2, keep)
            valid[who] = keep if ok else None
            judged += 1
        elif k == "grad_alone":
            if valid[who] is not None and np.array_equal(valid[who], x):
                compare(who, what, "gradient", lambda: e.v.gradient(x), 2, keep)
                judged += 1
            else:
                try:
                    quietly(lambda: e.v.gradient(x))
                except Exception:
                    pass
        elif k in ("fail", "failgrad"):
            grad = k == "failgrad"
            if e.sites is None:
                other = Evaluator(copy.deepcopy(sc["params"][who]))
                with seams.Tracer() as t:
                    quietly(lambda: other.v.gradient(other.x0.copy(), eval_fun=True))
                e.sites = sorted(t.names())
            if e.sites:
                site = seams.pick_site(e.sites, op["u"], op["v"])
                tr = seams.FastTracer(site, seams.EXC[op["exc"]])
                try:
                    with tr:
                        if grad or op["v"] > 0.5:
                            quietly(lambda: e.v.gradient(x, eval_fun=True))
                        else:
                            quietly(lambda: e.v.free_energy(x))
                    valid[who] = keep
                except seams.INJECTED:
                    valid[who] = None
                except Exception:
                    valid[who] = None
                if tr.fired:
                    cov.fault(f"{op['exc']}_at_statement")
        elif k == "wild":
            r = random.Random(op["seed"])
            y = x.copy()
            y[r.randrange(y.size)] = r.choice((float("nan"), float("inf"), 1e200, -1e160))
            if r.random() < 0.3:
                y[...] = r.choice((float("nan"), 1e200, -1e8))
            if op["buf"]:
                x[...] = y
                y = x
            keep = y.copy()
            x = y
            if r.random() < 0.65:
                compare(who, what, "gradient", lambda: e.v.gradient(y, eval_fun=True), 2, keep)
            else:
                compare(who, what, "free_energy", lambda: e.v.free_energy(y), 1, keep)
            valid[who] = None
            cov.fault("unusable_point")
        elif k == "spoil":
            # The caller is free to overwrite what it was given.
            try:
                g = quietly(lambda: e.v.gradient(x, eval_fun=True))
                g[...] = np.nan
            except Exception:
                pass
            valid[who] = None
        elif k == "scg":
            calls = []

            def f(y, *a):
                return e.v.free_energy(y, *a)

            def df(y, *a, **kw):
                y0 = np.array(y)
                g = e.v.gradient(y, *a, **kw)
                calls.append((y0, np.array(g)))
                return g
            try:
                quietly(lambda: world.sut()["SCG"](f, df, {"max_it": 3, "x_tol": 1e-6, "f_tol": 1e-8, "display": False})(x.copy()))
            except Exception:
                pass
            valid[who] = None
            r = random.Random(op["seed"])
            for n, (y, g) in enumerate(r.sample(calls, min(2, len(calls)))):
                w = ref(who, y, True)
                judged += 1
                if w[0] == "ok" and not world.close(g, w[2], rtol=1e-9, atol=1e-12):
                    raise Violation("history_gradient", f"{what}: during an optimisation the gradient handed out is not the one of its point")
        elif k == "threads":
            # Evaluators of one and the same model (and one of another) at work at the same time.
            many = [world.build(e.sim), world.build(e.sim)] + [q.v for q in es if q is not e]
            whose = [who, who] + [j for j in range(len(es)) if j != who]
            pts = [keep * (1.0 + 0.05 * j) if w == who else es[w].x0.copy() for j, w in enumerate(whose)]

            def work(v, y):
                return lambda: [(v.free_energy(y), v.gradient(y)) for _ in range(2)]
            sched = seams.Scheduler(op["seed"], int(2 + 400 * op["v"] ** 2), op["u"] < 0.2 and sc["params"][who]["Model"] in ("DW", "OU"))
            res = quietly(lambda: sched.run([work(v, y.copy()) for v, y in zip(many, pts)]))
            for j, (st, r) in enumerate(res):
                w = ref(whose[j], pts[j], True)
                m = f"{what}: evaluator {j} of {len(many)} interleaved by threads ({sched.switches} switches)"
                if (st == "ok") != (w[0] == "ok"):
                    raise Violation("history_free_energy", f"{m}: {r!r:.200} instead of {w[:2]!r:.200}")
                for f, g in r if st == "ok" else ():
                    if not world.close(f, w[1]) or not world.close(g, w[2], rtol=1e-9, atol=1e-12):
                        raise Violation("history_free_energy", f"{m}: free energy {f!r} instead of {w[1]!r}, gradient {'equal' if world.close(g, w[2]) else 'different'}")
            for j in set(whose) - {who}:
                valid[j] = None
            judged += len(many)
            cov.fault("thread_switch", sched.switches)
        if not np.array_equal(x, keep, equal_nan=True):
            raise Violation("point_changed", f"{what}: changed the point passed in")
        for q, g in zip(es, guard):
            now = q.guarded()
            if now != g:
                raise Violation("inputs_changed", f"{what}: changed {[a for a in g if g[a] != now[a]]}")
        cov.state(sc["params"][who]["Model"], sc["params"][who]["Ode-method"], k, op["point"], last)
        cov.log(i, k, keep.tobytes())
        cov.steps += 1
        last = k
    cov.hit("answers_judged", judged)
    cov.trivial = judged < 2


def shrink(sc):
    out = []
    for i in range(len(sc["ops"])):
        if len(sc["ops"]) > 1:
            out.append(dict(sc, ops=sc["ops"][:i] + sc["ops"][i + 1:]))
    if len(sc["params"]) == 2 and all(o["who"] == 0 for o in sc["ops"]):
        out.append(dict(sc, params=sc["params"][:1]))
    for i, p in enumerate(sc["params"]):
        for q in world.shrink_params(p):
            out.append(dict(sc, params=sc["params"][:i] + [q] + sc["params"][i + 1:]))
    return out
