"""C24: inference uses exactly the observations it was given, whatever was set up before."""
import copy
import random
import warnings

import numpy as np

from .. import seams, storage, world
from ..core import Violation

ID = "C24"
RUNS = {"quick": 400, "thorough": 16000}
RUN_TIMEOUT = 240
CPU_LIMIT = 120
RULE = ("one run = one simulation object taken through a seeded history of set-ups with its own or with supplied observations (several parameter sets and "
        "data sets, in several forms), runs, and attempts that fail at a seeded statement; after every run with supplied observations everything is "
        "compared bit for bit with a new object in another process, and the supplied data with what they were; at the end the "
        "observations a simulation collected itself are fed back and must give the same free energy and gradient; non-trivial = something had been set up or had failed before")
STATES = "distinct (model, form of the data, what happened before) signatures"
REAL = ["src/ (everything but save and load)"]
STUB = ["statement failures (tracer)", "supplied observations (seeded)", "optimiser iteration limit (tuning knob)"]
ASSUMPTIONS = ["observation times are indices of the time grid, as collect_obs() returns them", "compiled (numba) kernels are atomic"]
FORMS = ("tuple", "list", "plain", "dict")


def warm():
    world.warm(evaluate=True)


def grid(p):
    w = p["Time-window"]
    return int(round((w["tf"] - w["t0"]) / w["dt"]))


def gen_data(rng, p):
    n = grid(p)
    m = rng.randint(2, min(5, n - 2))
    idx = sorted(rng.sample(range(1, n - 1), m))
    d = {"DW": 1, "OU": 1, "L63": 3, "L96": 40}[p["Model"]]
    return {"idx": idx, "dim": d, "seed": rng.randrange(10 ** 6)}


def make_data(spec, form):
    t, y = np.array(spec["idx"]), spec["values"].copy()
    if form == "plain":
        return [list(spec["idx"]), y.tolist()]
    if form == "dict":
        return {0: t, 1: y}
    return (t, y) if form == "tuple" else [list(spec["idx"]), y]


def values(p, specs):
    """Observations of another path of the same model."""
    def go():
        with seams.quiet(), np.errstate(all="ignore"):
            sim = world.sut()["Simulation"]("other")
            sim.setup(dict(copy.deepcopy(p), **{"Random-Seed": 1000 + specs[0]["seed"]}), None)
        path = np.asarray(sim.m_data["model"].sample_path)
        out = []
        for s in specs:
            y = path[s["idx"]]
            out.append(y + 0.1 * np.random.default_rng(s["seed"]).standard_normal(y.shape))
        return out
    return storage.in_process(go, 200)


def gen(rng, index, tier):
    ps = [world.gen_params(rng, weights=(6, 5, 3, 0.08), small=True)]
    while len(ps) < 3 and rng.random() < 0.6:
        q = copy.deepcopy(ps[0])
        q["Noise"]["obs"] = rng.choice((0.02, 0.2, 0.7, 1.7))
        if q["Model"] == "L63" and rng.random() < 0.6:
            q["Noise"]["obs"] = [rng.choice((1.0, 2.0)), rng.choice((2.0, 0.5)), rng.choice((1.5, 0.7))]
        if rng.random() < 0.5:
            q["Random-Seed"] = rng.randrange(10 ** 6)
        if rng.random() < 0.3:
            q = world.gen_params(rng, weights=(5, 4, 3, 0), small=True)
        ps.append(q)
    data = [[gen_data(rng, p) for _ in range(rng.choice((1, 2)))] for p in ps]
    steps = []
    for _ in range(rng.choice((1, 2, 2, 3, 4))):
        i = rng.randrange(len(ps))
        s = {"p": i, "d": rng.randrange(len(data[i])) if rng.random() < 0.6 else None, "form": rng.choice(FORMS), "run": rng.random() < 0.6, "fail": None, "scribble": rng.random() < 0.3}
        if rng.random() < 0.35:
            s["fail"] = {"u": round(rng.random(), 6), "v": round(rng.random(), 6), "exc": rng.choice(sorted(seams.EXC)), "in": rng.choice(("setup", "setup", "run"))}
        steps.append(s)
    i = rng.randrange(len(ps))
    steps.append({"p": i, "d": rng.randrange(len(data[i])), "form": rng.choice(FORMS), "run": True, "fail": None, "scribble": rng.random() < 0.3})
    return {"params": ps, "data": data, "steps": steps, "cap": rng.choice((1, 2, 3)), "back": rng.randrange(len(ps)), "bits": rng.randrange(10 ** 6)}


def scribble(r, p, given):
    """The caller goes on using its own dictionary and arrays."""
    p["Time-window"]["dt"] *= 2
    p["Time-window"]["tf"] += 1
    p["Noise"]["obs"] = 7.0
    p["Observations"]["operator"] = [True, False, True]
    p["Prior"]["mu0"] = p["Prior"]["tau0"] = 3.0
    for k in (0, 1) if given is not None else ():
        v = given[k]
        if isinstance(v, np.ndarray):
            v[...] = v[::-1].copy() if r.random() < 0.5 else v + 1
        else:
            v[:] = [v[0]] * len(v)


def outcome(sim):
    return world.sim_image(sim)


def alone(p, spec, cap):
    """A new object, and the statements its steps execute (called in another process)."""
    def go():
        warnings.simplefilter("ignore")
        sites = {}
        with seams.quiet(), np.errstate(all="ignore"), world.Cap(cap):
            sim = world.sut()["Simulation"]("sim")
            data = None if spec is None else make_data(spec, "tuple")
            with seams.Tracer() as t:
                sim.setup(copy.deepcopy(p), data)
            sites["setup"] = sorted(t.names())
            with seams.Tracer() as t:
                sim.run()
            sites["run"] = sorted(t.names())
        return outcome(sim), sites
    try:
        return "ok", go()
    except Exception as e:
        return "raise", f"{type(e).__name__}: {str(e)[:300]}"


def run(sc, cov):
    # Forked off before any simulation of this run.
    with seams.Pristine(lambda i, spec: alone(sc["params"][i], spec, sc["cap"])) as elsewhere:
        history(sc, cov, elsewhere)


def history(sc, cov, elsewhere):
    warnings.simplefilter("ignore")
    cov.trivial = True
    refs = {}
    data = [[dict(spec) for spec in specs] for specs in sc["data"]]

    def ref(i, d):
        if (i, d) not in refs:
            refs[(i, d)] = elsewhere(i, None if d is None else data[i][d])
        return refs[(i, d)]
    # Parameters that cannot be used at all are not judged.
    for i in range(len(sc["params"])):
        st, ys = values(sc["params"][i], sc["data"][i])
        if st != "ok" or ref(i, None)[0] != "ok":
            cov.hit("unusable_parameters")
            return
        for spec, y in zip(data[i], ys):
            spec["values"] = y
    sim = world.sut()["Simulation"]("sim")
    past = []
    with np.errstate(all="ignore"), world.Cap(sc["cap"]):
        for k, s in enumerate(sc["steps"]):
            p = copy.deepcopy(sc["params"][s["p"]])
            spec = None if s["d"] is None else data[s["p"]][s["d"]]
            given = None if spec is None else make_data(spec, s["form"])
            before = world.freeze(given)
            what = (f"step {k} ({p['Model']}/{p['Ode-method']}, " + ("own observations" if spec is None else f"supplied observations as {s['form']}")
                    + f", after {past or 'nothing'})")
            st, r = ref(s["p"], s["d"])
            if st != "ok" and any(e in str(r) for e in ("LinAlgError", "FloatingPoint", "Overflow", "ZeroDivision")):
                cov.hit("numerically_unusable")
                return
            if st != "ok":
                raise Violation("refused", f"{what}: a new simulation with these observations fails: {r}")
            want, sites = r
            steps = ["setup"] + (["run"] if s["run"] else [])
            tr = None
            if s["fail"] and s["fail"]["in"] in steps:
                f = s["fail"]
                tr = seams.FastTracer(seams.pick_site(sites[f["in"]], f["u"], f["v"]), seams.EXC[f["exc"]])
            err = None
            try:
                with seams.quiet():
                    for name in steps:
                        go = (lambda: sim.setup(p, given)) if name == "setup" else sim.run
                        if tr and s["fail"]["in"] == name:
                            with tr:
                                go()
                        else:
                            go()
                        if name == "setup" and s.get("scribble"):
                            if world.freeze(given) != before:
                                raise Violation("data_changed", f"{what}: the supplied observations were changed")
                            scribble(random.Random(sc["bits"] + k), p, given)
                            before = world.freeze(given)
                            cov.fault("caller_data_reused")
            except Violation:
                raise
            except seams.INJECTED as e:
                err = type(e).__name__
            except Exception as e:
                err = f"{type(e).__name__}: {str(e)[:200]}"
            if world.freeze(given) != before:
                raise Violation("data_changed", f"{what}: the supplied observations were changed")
            fired = tr and tr.fired
            if fired:
                cov.fault(f"{s['fail']['exc']}_at_statement")
            if err and not fired:
                raise Violation("failed", f"{what}: failed, a new simulation does not: {err}")
            if not err and s["run"]:
                d = world.diff_image(outcome(sim), want, "with this history", "new")
                if d:
                    raise Violation("other_observations", f"{what}: {d}")
                cov.hit("runs_judged" if spec is None else "runs_with_supplied_observations_judged")
                if past:
                    cov.trivial = False
            cov.state(p["Model"], s["form"] if spec else None, past[-2:], err is None)
            cov.log(k, err, outcome(sim) if not err and s["run"] else None)
            past.append(("own" if spec is None else "supplied") + (" failed" if err else (" run" if s["run"] else "")))
            cov.steps += 1
        feed_back(sc, cov, data)


def data_term(y, t, var, mt, st):
    """Expected negative Gaussian log-likelihood of readings y at the grid indices t."""
    y, t = np.asarray(y, float), np.asarray(t)
    y = y.reshape(len(t), -1)
    m = mt[t].reshape(len(t), -1)
    v = st[t].reshape(len(t), -1) if y.shape[1] == 1 else np.stack([np.diagonal(s) for s in st[t]])
    r = np.broadcast_to(np.asarray(var, float), y.shape[1:])
    return 0.5 * float(np.sum(((y - m) ** 2 + v) / r) + len(t) * np.sum(np.log(2.0 * np.pi * r)))


def jump(y, t, var, mt, at):
    """What the readings add to the multiplier of the mean at one grid index."""
    out = np.zeros(mt[at].shape)
    for i, tn in enumerate(t):
        if tn == at:
            out = out - (np.asarray(y[i], float).reshape(out.shape) - mt[at]) / np.asarray(var, float)
    return out


def feed_back(sc, cov, data):
    """A simulation's own observations, supplied to another one, pose the same problem."""
    p = sc["params"][sc["back"]]
    Sim = world.sut()["Simulation"]
    with seams.quiet():
        a, b = Sim("a"), Sim("b")
        a.setup(copy.deepcopy(p), None)
        b.setup(copy.deepcopy(p), (a.m_data["obs_t"], a.m_data["obs_y"]))
        b.m_data["m0"] = a.m_data["m0"]
        va, vb = world.build(a), world.build(b)
        x = va.initialization()
        r = random.Random(sc["bits"])
        x = x + 0.05 * np.array([r.gauss(0, 1) for _ in range(8)])[np.arange(x.size) % 8]
        fa, fb = va.free_energy(x), vb.free_energy(x)
        ga, gb = va.gradient(x), vb.gradient(x)
    if not (world.close(fa, fb) and world.close(ga, gb)):
        raise Violation("fed_back", f"{p['Model']}/{p['Ode-method']}: the observations a simulation collected, supplied to another one, give free energy {fb!r} instead of {fa!r}"
                                    f" (gradient {'equal' if world.close(ga, gb) else 'different'})")
    cov.hit("fed_back")
    # Other readings (and another noise) at the same point: the free energy
    # differs by the data terms alone, the multipliers from the last reading on
    # by its jump.
    with seams.quiet(), np.errstate(all="ignore"):
        sets = [("own", a.m_data["obs_t"], a.m_data["obs_y"], p)]
        for spec in data[sc["back"]]:
            q = copy.deepcopy(p)
            q["Noise"]["obs"] = r.choice((1.0, 1.0, 0.25, 3.0)) * np.asarray(q["Noise"]["obs"])
            if np.ndim(q["Noise"]["obs"]) == 0:
                q["Noise"]["obs"] = float(q["Noise"]["obs"])
            sets.append(("supplied", np.array(spec["idx"]), spec["values"], q))
            # Readings of special values, as good as any other.
            y = np.array(spec["values"], float)
            y.reshape(-1)[r.randrange(y.size)] = r.choice((-99.0, -999.0, -9999.0, 0.0, 99.0, 1e4, -1.0))
            if r.random() < 0.5:
                y.reshape(len(y), -1)[r.randrange(len(y))] = r.choice((-99.0, -999.0, 0.0, 9999.0, 1.0))
            if r.random() < 0.3:
                y = np.round(y).astype(int)
            sets.append(("special", np.array(spec["idx"]), y, q))
        seen = []
        for name, ot, oy, q in sets:
            c = Sim("c")
            c.setup(copy.deepcopy(q), (ot.copy(), oy.copy()))
            c.m_data["m0"] = a.m_data["m0"]
            vc = world.build(c)
            f = vc.free_energy(x)
            o = vc.arg_out
            mt, st, lam = (np.array(o[k]) for k in ("mt", "st", "lamt"))
            seen.append((name, list(ot), oy, q["Noise"]["obs"], f, mt, lam, data_term(oy, ot, q["Noise"]["obs"], mt, st)))
    n0, t0, y0, r0, f0, m0, l0, e0 = seen[0]
    if not np.isfinite(f0):
        return
    for n1, t1, y1, r1, f1, m1, l1, e1 in seen[1:]:
        if abs((f1 - e1) - (f0 - e0)) > 1e-8 * max(abs(f0), abs(e0), abs(f1), abs(e1), 1.0):
            raise Violation("data_term", f"{p['Model']}/{p['Ode-method']}: with observations at {t1} instead of {t0} the free energy differs by {f1 - f0!r}, their expected log-likelihoods by {e1 - e0!r}")
        last = max(max(t0), max(t1))
        scale = 1e-8 * max(1.0, float(np.max(np.abs(l0))), float(np.max(np.abs(l1))))
        want = jump(y1, t1, r1, m1, last) - jump(y0, t0, r0, m0, last)
        if not (np.all(np.abs(l1[last + 1:] - l0[last + 1:]) <= scale) and np.all(np.abs(l1[last] - l0[last] - want) <= scale)):
            raise Violation("multipliers", f"{p['Model']}/{p['Ode-method']}: observations up to {max(t1)} instead of {max(t0)} change the multipliers otherwise than by the jump at {last}")
        cov.hit("data_terms_compared")
    # A reading that is missing (or unusable) cannot be used as it was given.
    if r.random() < 0.4:
        spec = data[sc["back"]][0]
        y = np.array(spec["values"], float)
        y.reshape(-1)[r.randrange(y.size)] = bad = r.choice((np.nan, np.nan, np.inf, -np.inf))
        c = Sim("c")
        cov.fault("unusable_reading")
        try:
            with seams.quiet(), np.errstate(all="ignore"), world.Cap(1):
                c.setup(copy.deepcopy(p), (np.array(spec["idx"]), y))
                c.run()
            fx = float(np.ravel(c.output["fx"])[0])
        except Exception:
            fx = np.nan
        if np.isfinite(fx):
            raise Violation("invented_reading", f"{p['Model']}/{p['Ode-method']}: one of the readings is {bad}, and inference reports the free energy {fx!r}")
    cov.log(repr(fa))


def shrink(sc):
    out = []
    for i in range(len(sc["steps"])):
        if len(sc["steps"]) > 1:
            out.append(dict(sc, steps=sc["steps"][:i] + sc["steps"][i + 1:]))
    for i, s in enumerate(sc["steps"]):
        for k, v in (("fail", None), ("form", "tuple")):
            if s[k] != v:
                out.append(dict(sc, steps=sc["steps"][:i] + [dict(s, **{k: v})] + sc["steps"][i + 1:]))
    for i, p in enumerate(sc["params"]):
        for q in world.shrink_params(p):
            if q["Model"] == p["Model"] and grid(q) >= grid(p):
                out.append(dict(sc, params=sc["params"][:i] + [q] + sc["params"][i + 1:]))
    if sc["cap"] > 1:
        out.append(dict(sc, cap=1))
    return out
