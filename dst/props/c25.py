"""C25: the course of an optimisation depends only on objective, start and tolerances."""
import warnings

import numpy as np

from .. import objective as ob
from .. import seams, storage, world
from ..core import Violation

ID = "C25"
RUNS = {"quick": 4000, "thorough": 120000}
RUN_TIMEOUT = 100
RULE = ("one run = the same optimisation carried out several times under seeded circumstances: with other iteration limits, with and without display, by an optimiser "
        "object that was used before (earlier optimisations ended normally, by an exception of the objective at a seeded call, or by a failure at a seeded statement), "
        "after a gradient check, from a start of another shape, and concurrently with other optimisations in threads switched at statements or nested inside an "
        "evaluation; the sequence of all evaluations (points and values, bit for bit), result and statistics must be those of the "
        "undisturbed optimisation, cut off where the limit says; non-trivial = the reference made at least one trial")
STATES = "distinct (family, gradient mode, circumstances, calls made) signatures"
REAL = ["src/numerics/optim_scg.py (SCG)", "src/ (in the runs on real inference problems)"]
STUB = ["objective function and gradient (simulated service with fault plan)", "thread scheduling", "statement failures (tracer)"]
ASSUMPTIONS = ["one optimiser object is used by one thread at a time"]
WAYS = ("limit", "limit", "limit", "display", "reuse", "reuse_raise", "reuse_statement", "check", "shape", "threads", "nested")


def warm():
    world.sut()
    world.warm(models=("DW", "OU"))


def gen(rng, index, tier):
    b = ob.gen_base(rng)
    it = rng.choice((2, 3, 5, 8, 15, 30, 60))
    ways = []
    for _ in range(rng.choice((1, 2, 2, 3))):
        w = {"way": rng.choice(WAYS), "display": rng.random() < 0.5}
        if w["way"] == "limit":
            w["limit"] = rng.randint(1, it + 3)
        elif w["way"].startswith("reuse"):
            w.update(start=[round(rng.uniform(-2, 2), 3) for _ in range(b["dim"])], at=rng.choice((0, 1, 2, 3, 5, 8, 13)), exc=rng.choice(sorted(seams.EXC)),
                     u=round(rng.random(), 6), v=round(rng.random(), 6), times=rng.choice((1, 1, 2)))
        elif w["way"] in ("threads", "nested"):
            w.update(other=ob.gen_base(rng), limit=rng.choice((2, 5, 20)), sched=rng.randrange(10 ** 6), mean=rng.choice((1, 3, 10, 50)), opcodes=rng.random() < 0.2,
                     at=rng.choice((0, 1, 2, 4, 7)))
        elif w["way"] == "shape":
            w["shape"] = rng.choice(("column", "row", "fortran", "strided", "readonly"))
        ways.append(w)
    sc = {"base": b, "opts": {"max_it": it, "x_tol": rng.choice((1e-6, 1e-6, 1e-3, 1e-12)), "f_tol": rng.choice((1e-8, 1e-8, 1e-3, 1e-12))},
          "gmode": rng.choice(("true",) * 6 + ("scaled", "flipped", "stale", "noisy")),
          "noise": rng.choice((0.0,) * 5 + (1e-9, 1e-3)), "faults": ob.gen_faults(rng, min(3 * it + 1, 60)), "ways": ways}
    if rng.random() < 0.15:
        sc["real"] = world.gen_params(rng, models=("DW", "OU"), weights=(1, 1), small=True)
        sc["opts"]["max_it"] = min(it, 8)
        for w in ways:
            if w["way"] == "shape":
                w["shape"] = "column"
    return sc


class Real:
    """A real inference problem, with the interface of the service."""

    def __init__(self, p):
        with seams.quiet():
            sim = world.sut()["Simulation"]("sim")
            sim.setup(p, None)
            self.v = world.build(sim)
        self.x0 = self.v.initialization()
        self.log = []
        self.fired = {}

    def f(self, x, *a):
        v = self.v.free_energy(x)
        self.log.append(("f", x.tobytes(), v, None))
        return v

    def df(self, x, eval_fun=False):
        g = self.v.gradient(x, eval_fun)
        self.log.append(("g+" if eval_fun else "g", x.tobytes(), None, None))
        return g


def service(sc):
    if sc.get("real"):
        return Real(sc["real"])
    return ob.Service(sc, 10 * 10 * (sc["opts"]["max_it"] + 10) + 400)


def start_of(sc, svc):
    return svc.x0.copy() if sc.get("real") else np.array(sc["base"]["x0"], dtype=float)


def shaped(x, how):
    if how == "column":
        return x.reshape(-1, 1)
    if how == "row":
        return x.reshape(1, -1)
    if how == "fortran":
        return np.asfortranarray(x.reshape(-1, 1))
    if how == "strided":
        return np.repeat(x, 2)[::2]
    if how == "readonly":
        y = x.copy()
        y.flags.writeable = False
        return y
    return x


class Swap:
    """The objective an optimiser object holds; what is behind it can be replaced."""

    def __init__(self, svc):
        self.svc = svc
        self.raise_at = self.exc = None
        self.hook_at = self.hook = None
        self.n = 0

    def _call(self):
        self.n += 1
        if self.raise_at is not None and self.n > self.raise_at:
            raise self.exc("objective failed")
        if self.hook and self.n == self.hook_at + 1:
            h, self.hook = self.hook, None
            h()

    def f(self, x, *a):
        self._call()
        return self.svc.f(x, *a)

    def df(self, x, eval_fun=False):
        self._call()
        return self.svc.df(x, eval_fun)


def optimise(scg, x0, quiet=True):
    with np.errstate(all="ignore"):
        x, fx = scg(x0)
    s = scg.statistics
    return {"x": np.asarray(x, float).tobytes(), "fx": repr(float(fx)), "xs": np.shape(x)}, {
        "n": int(s["MaxIt"]), "fx": [repr(float(v)) for v in np.asarray(s["fx"])], "counts": (int(s["f_eval"]), int(s["df_eval"]))}


def calls(log):
    return [(w, xb, repr(v)) for w, xb, v, _ in log]


def make(sc, swap, limit=None, display=False):
    o = dict(sc["opts"], display=display)
    if limit is not None:
        o["max_it"] = limit
    return world.sut()["SCG"](swap.f, swap.df, o)


def first_difference(a, b):
    for i, (p, q) in enumerate(zip(a, b)):
        if p != q:
            return f"call {i}: {p[0]} at another point" if p[0] == q[0] and p[1] != q[1] else f"call {i}: {p[0]} instead of {q[0]}" if p[0] != q[0] else f"call {i}: another value"
    return f"{len(a)} calls instead of {len(b)}"


def reference(sc, limit=None):
    swap = Swap(service(sc))
    scg = make(sc, swap, limit)
    with seams.quiet() as text:
        res, stats = optimise(scg, start_of(sc, swap.svc))
    return calls(swap.svc.log), res, stats, "aximum" in text.getvalue(), swap.svc


def run(sc, cov):
    warnings.simplefilter("ignore")
    ref, want, wstats, said, svc = reference(sc)
    for k, c in svc.fired.items():
        cov.fault(k, c)
    cov.trivial = len(ref) < 5
    cov.log(ref[-1] if ref else None, want["fx"], wstats["n"])
    for w in sc["ways"]:
        one(sc, w, ref, want, wstats, said, cov)
        cov.state(sc["base"]["kind"] if not sc.get("real") else sc["real"]["Model"], sc["gmode"], w["way"], w["display"], len(ref), w.get("limit"), w.get("at"))
        cov.hit("judged_" + w["way"])
        cov.steps += len(ref)


def one(sc, w, ref, want, wstats, said, cov):
    way = w["way"]
    swap = Swap(service(sc))
    x0 = start_of(sc, swap.svc)
    limit = w["limit"] if way == "limit" else None
    scg = make(sc, swap, limit, w["display"])
    what = way
    if way.startswith("reuse"):
        fresh = swap.svc
        for _ in range(w["times"]):
            # Earlier optimisations by the same object.
            swap.svc = service(sc)
            swap.n = 0
            tr = None
            start = x0 * 0.9 if sc.get("real") else np.array(w["start"], float)
            if way == "reuse_raise":
                swap.raise_at, swap.exc = w["at"], seams.EXC[w["exc"]]
            if way == "reuse_statement":
                s2 = Swap(service(sc))
                with seams.Tracer() as t, seams.quiet():
                    optimise(make(sc, s2, None, w["display"]), start)
                names = sorted(t.names())
                tr = seams.FastTracer(seams.pick_site(names, w["u"], w["v"]), seams.EXC[w["exc"]])
            try:
                with seams.quiet():
                    if tr:
                        with tr:
                            optimise(scg, start)
                    else:
                        optimise(scg, start)
            except seams.INJECTED:
                cov.fault("objective_raises" if way == "reuse_raise" else "statement_failure")
            swap.raise_at = None
        swap.svc, swap.n = fresh, 0
        what = f"an optimiser object that was used before ({way}{' at call ' + str(w['at']) if way == 'reuse_raise' else ''})"
    elif way == "check":
        fresh = swap.svc
        swap.svc = service(sc)
        try:
            with seams.quiet(), np.errstate(all="ignore"):
                scg.check_gradient_function(x0.copy())
        except Exception:
            pass        # e.g. not-a-number from the service
        swap.svc = fresh
        what = "after a gradient check"
    elif way == "shape":
        x0 = shaped(x0, w["shape"])
        what = f"start given as {w['shape']} array"
    elif way == "display":
        scg = make(sc, swap, None, True)
        what = "with display"
    before = x0.copy()
    if way == "threads":
        other = {"base": w["other"], "opts": dict(sc["opts"], max_it=w["limit"])}
        so = Swap(ob.Service(other, 100 * (w["limit"] + 10)))
        go = make(other, so, None, w["display"])
        xo = np.array(w["other"]["x0"], float)
        sched = seams.Scheduler(w["sched"], w["mean"], w["opcodes"])
        with seams.quiet() as text:
            rs = sched.run([lambda: optimise(scg, x0), lambda: optimise(go, xo)])
        for st, e in rs:
            if st != "ok":
                raise Violation("disturbed", f"two optimisations in threads: one failed: {type(e).__name__}: {str(e)[:200]}")
        got, stats = rs[0][1]
        cov.fault("thread_switch", sched.switches)
        what = f"with another optimisation in another thread ({sched.switches} switches)"
        ro, wo, wso, _, _ = reference(other)
        if calls(so.svc.log) != ro or rs[1][1][0] != wo:
            raise Violation("disturbed", f"{what}: the other one took another course: {first_difference(calls(so.svc.log), ro)}")
    else:
        if way == "nested":
            other = {"base": w["other"], "opts": dict(sc["opts"], max_it=w["limit"])}
            so = Swap(ob.Service(other, 100 * (w["limit"] + 10)))
            swap.hook_at = w["at"]
            swap.hook = lambda: optimise(make(other, so, None, w["display"]), np.array(w["other"]["x0"], float))
            what = f"with another optimisation inside evaluation {w['at']}"
        with seams.quiet() as text:
            try:
                got, stats = optimise(scg, x0)
            except ob.Runaway as e:
                raise Violation("disturbed", f"{what}: {e}")
            except Exception as e:
                raise Violation("disturbed", f"{what}: failed, undisturbed it does not: {type(e).__name__}: {str(e)[:200]}")
        if way == "nested" and swap.hook is None:
            cov.fault("nested_optimisation")
    if x0.tobytes() != before.tobytes():
        raise Violation("start_changed", f"{what}: the start was changed")
    log = calls(swap.svc.log)
    cov.log(way, len(log), got["fx"])
    now_said = "aximum" in text.getvalue()
    if way != "limit" or limit == sc["opts"]["max_it"]:
        if log != ref:
            raise Violation("other_course", f"{what}: {first_difference(log, ref)}")
        if got != want:
            raise Violation("other_result", f"{what}: returned {got['fx']} instead of {want['fx']} (same evaluations)")
        if stats != wstats:
            k = next(k for k in stats if stats[k] != wstats[k])
            raise Violation("other_statistics", f"{what}: statistics {k!r} differ from those of the undisturbed optimisation")
        return
    # Another limit: the longer course starts with the shorter one.
    a, b = (log, ref) if limit < sc["opts"]["max_it"] else (ref, log)
    (ga, sa, da), (gb, sb) = ((got, stats, now_said), (want, wstats)) if a is log else ((want, wstats, said), (got, stats))
    lo, hi = sorted((limit, sc["opts"]["max_it"]))
    what = f"iteration limits {lo} and {hi}"
    if b[:len(a)] != a:
        raise Violation("limit_matters", f"{what}: the shorter optimisation is not the beginning of the longer one: {first_difference(a, b[:len(a)])}")
    n = min(sa["n"], lo)
    if sa["fx"][:n - 1] != sb["fx"][:n - 1]:
        raise Violation("limit_matters", f"{what}: different objective values in the statistics")
    if not da and (a != b or ga != gb or sa["n"] != sb["n"]):
        raise Violation("limit_matters", f"{what}: the shorter one ended by itself, the longer one went on or returned another point")
    if da and sb["n"] >= lo and ga["fx"] != sb["fx"][lo - 1]:
        raise Violation("limit_matters", f"{what}: stopped by its limit it returns {ga['fx']}; the longer one had {sb['fx'][lo - 1]} at that iteration")
    cov.fault("iteration_limit")


def shrink(sc):
    for i in range(len(sc["ways"])):
        if len(sc["ways"]) > 1:
            yield dict(sc, ways=sc["ways"][:i] + sc["ways"][i + 1:])
    for i, w in enumerate(sc["ways"]):
        for k, v in (("display", False), ("opcodes", False), ("times", 1)):
            if w.get(k) not in (None, v):
                yield dict(sc, ways=sc["ways"][:i] + [dict(w, **{k: v})] + sc["ways"][i + 1:])
    for c in ob.shrink_spec(sc):
        d = c["base"]["dim"]
        c["ways"] = [dict(w, start=(w["start"] + [1.0] * d)[:d]) if "start" in w else w for w in c["ways"]]
        yield c
