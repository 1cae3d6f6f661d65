"""C15: a model always reflects its last accepted parameters."""
import copy
import os
import random

import numpy as np

from .. import models, seams, world
from ..core import Violation

ID = "C15"
RUNS = {"quick": 1200, "thorough": 40000}
RUN_TIMEOUT = 120
RULE = ("one run = a seeded model and a history of updates of noise and drift: valid ones, invalid ones (zero, negative, not-a-number, "
        "indefinite, non-symmetric, wrong shape), nearly singular ones, ones that fail half-way (numerical failure or memory exhaustion "
        "injected inside the matrix inversion), in-place changes of the caller's own array, interleaved with paths and energies; after "
        "every step the model is compared bit for bit with one newly built from the last accepted values; non-trivial = at least one update judged")
STATES = "distinct (model, operation kind, outcome, previous operation kind) signatures"
REAL = ["src/dynamics/*.py (constructors, setters, make_trajectory, energy)", "src/numerics/utilities.py"]
STUB = ["random generator (recorded draws from a seed chosen by the simulator)"]
ASSUMPTIONS = ["a matrix whose smallest eigenvalue is within 1e-9 of zero relative to the largest may be accepted or refused",
               "drift parameters of the Lorenz models and of the double well are not validated by the code and not by this check (OU: positive)"]

BAD = ("zero", "negative", "nan", "negdef", "indefinite", "rotated_indefinite", "asymmetric", "shape", "one_nan", "even_negative", "block_indefinite", "small_asymmetric", "scaled")
EDGE = ("nearsingular", "tiny", "huge")


def warm():
    world.warm(evaluate=True)


def gen(rng, index, tier):
    spec = models.gen_model(rng, weights=(3, 4, 6, 1))
    big = spec["model"] == "L96"
    d = models.dim(spec)
    ops = []
    for _ in range(rng.randint(2, 5 if big else 9)):
        k = rng.choices(("valid", "bad", "edge", "fail", "theta", "badtheta", "alias", "inplace", "path", "construct", "near", "again", "change_in_place", "form", "refused_again", "twin", "zero_d"),
                        (5, 6, 1, 4, 3, 2 if spec["model"] == "OU" else 0, 2, 1, 2, 2, 2, 1, 2, 2, 1, 2 if d > 1 else 0, 1.5 if d == 1 else 0))[0]
        ops.append({"op": k, "seed": rng.randrange(10 ** 9), "how": rng.choice(BAD if k != "edge" else EDGE),
                    "exc": rng.choice(sorted(seams.EXC) + ["linalg", "linalg", "linalg"]), "u": round(rng.random(), 6), "v": round(rng.random(), 6)})
    return {"spec": spec, "ops": ops, "pristine": [len(ops) - 1, rng.randrange(len(ops))]}


def valid_sigma(model, r):
    d = {"DW": 1, "OU": 1, "L63": 3, "L96": 40}[model]
    if d == 1:
        return round(r.uniform(0.02, 4.0), 5)
    if r.random() < 0.4:
        return np.diag([round(r.uniform(0.3, 9.0), 4) for _ in range(d)])
    return np.array(world.spd(r, d, r.choice((0.5, 2.0, 9.0))))


def twin(cur, r):
    """Another valid matrix that agrees with the given one in trace, determinant and spectrum."""
    d = len(cur)
    how = r.randrange(4)
    if how == 0:
        s = np.array([r.choice((-1.0, 1.0)) for _ in range(d)])
        return cur * s[:, None] * s
    if how == 1:
        p = list(range(d))
        r.shuffle(p)
        return cur[np.ix_(p, p)]
    if how == 2:                        # same diagonal, smaller off-diagonal part
        return np.diag(np.diag(cur)) + r.choice((0.0, 0.3, 0.9, -0.2 / d)) * (cur - np.diag(np.diag(cur)))
    i, j = r.sample(range(d), 2)        # a diagonal one, two entries exchanged
    e = np.diag(cur).copy()
    e[i], e[j] = e[j], e[i]
    return np.diag(e)


def form(model, r):
    """A valid noise value of another type or layout."""
    d = {"DW": 1, "OU": 1, "L63": 3, "L96": 40}[model]
    if d == 1:
        return r.choice((lambda: r.randint(1, 5), lambda: np.int64(r.randint(2, 5)), lambda: np.float64(r.uniform(0.1, 4)), lambda: np.int32(3)))()
    v = np.array(valid_sigma(model, r))
    big = np.zeros((2 * d, 2 * d))
    big[::2, ::2] = v
    ro = v.copy()
    ro.flags.writeable = False
    return r.choice((v.tolist(), np.asfortranarray(v), big[::2, ::2], ro, np.diag([r.randint(1, 6) for _ in range(d)]), v.T, tuple(map(tuple, v.tolist()))))


def rotation(d, r):
    return np.linalg.qr(np.array([[r.gauss(0, 1) for _ in range(d)] for _ in range(d)]))[0]


def bad_sigma(model, how, r):
    """An invalid noise value: refused without exception by every model."""
    d = {"DW": 1, "OU": 1, "L63": 3, "L96": 40}[model]
    if d == 1:
        return {"zero": 0.0, "nan": float("nan"), "one_nan": float("nan"), "negdef": -1e-9, "indefinite": -1e-300,
                "shape": float("-inf")}.get(how, -round(r.uniform(0.001, 5), 4))
    good = np.array(valid_sigma(model, r))
    ev = np.array([r.uniform(0.5, 5.0) for _ in range(d)])
    if how == "zero":
        return np.zeros((d, d))
    if how in ("negative", "indefinite"):
        good = np.diag(ev)
        k = r.randrange(d)
        good[k, k] = -ev[k] * r.choice((1.0, 1e-3, 10.0))
        return good
    if how == "even_negative":          # positive determinant
        ev[r.randrange(d)] *= -1
        k = r.choice([i for i in range(d) if ev[i] > 0])
        ev[k] *= -1
        return np.diag(ev)
    if how == "rotated_indefinite":     # positive diagonal, indefinite
        ev = np.ones(d)
        ev[r.randrange(d)] = -0.05
        for _ in range(50):
            q = rotation(d, r)
            m = (q * ev).dot(q.T)
            if np.all(np.diag(m) > 0):
                break
        return 0.5 * (m + m.T)
    if how == "block_indefinite":
        m = np.diag(ev)
        i, j = r.sample(range(d), 2)
        m[i, j] = m[j, i] = 1.3 * np.sqrt(ev[i] * ev[j])
        return m
    if how == "negdef":
        return -good
    if how == "nan":
        return np.full((d, d), np.nan)
    if how == "one_nan":
        i = r.randrange(d)
        good[i, i] = np.nan
        return good
    if how == "scaled":                 # invalid at any scale
        return bad_sigma(model, r.choice([b for b in BAD if b not in ("shape", "scaled", "zero", "nan")]), r) * r.choice((1e-12, 1e-9, 1e-6, 1e4, 1e9))
    if how in ("asymmetric", "small_asymmetric"):
        good = np.diag(ev)
        i, j = sorted(r.sample(range(d), 2))
        if r.random() < 0.5:
            i, j = j, i
        good[i, j] = 0.2 * np.sqrt(ev[i] * ev[j])
        if how == "small_asymmetric":
            good *= r.choice((1e-7, 1e-9, 1e-20, 1e-200))
        return good
    return r.choice((np.eye(d + 1), np.eye(d - 1), np.ones((d, d + 1)), np.ones((d - 1, d)), np.eye(d).ravel(), np.ones((1, d, d)), np.eye(d)[None] * 1.0))


def edge_sigma(model, how, r):
    d = {"DW": 1, "OU": 1, "L63": 3, "L96": 40}[model]
    if d == 1:
        return {"nearsingular": 1e-12, "tiny": 1e-200, "huge": 1e150}[how]
    if how == "nearsingular":
        q = rotation(d, r)
        ev = np.ones(d)
        ev[0] = r.choice((1e-13, 1e-15, 1e-16, 0.0, -1e-16))
        m = (q * ev).dot(q.T)
        return 0.5 * (m + m.T)
    return np.array(valid_sigma(model, r)) * {"tiny": 1e-100, "huge": 1e100}[how]


def ctor_forms(model, r, good):
    """Constructor inputs: (argument, must_be_accepted)."""
    d = {"DW": 1, "OU": 1, "L63": 3, "L96": 40}[model]
    if good:
        if d == 1:
            return valid_sigma(model, r)
        return r.choice((lambda: round(r.uniform(0.1, 5), 4), lambda: np.array([round(r.uniform(0.1, 5), 4) for _ in range(d)]),
                         lambda: valid_sigma(model, r), lambda: np.array(round(r.uniform(0.1, 5), 4))))()
    if d > 1 and r.random() < 0.4:
        v = np.array([round(r.uniform(0.1, 5), 4) for _ in range(d)])
        k = r.randrange(5)
        if k == 0:
            v[r.randrange(d)] *= -1
            return v
        if k == 1:
            v[r.randrange(d)] = 0.0
            return v
        if k == 2:
            return v[:-1]
        return -1.0 if k == 3 else 0.0
    return bad_sigma(model, r.choice(BAD), r)


def full(model, sigma):
    if model in ("DW", "OU"):
        return sigma
    s = np.asarray(sigma, float)
    d = 3 if model == "L63" else 40
    return s * np.eye(d) if s.ndim == 0 else np.diag(s) if s.ndim == 1 else s.copy()


def make(model, sigma, theta):
    cls = world.sut()["models"][model]
    with seams.quiet():
        return cls(copy.deepcopy(sigma), copy.deepcopy(theta), 1)


def theta_value(model, r):
    if model == "L63":
        t = [round(r.uniform(8, 11), 3), round(r.uniform(10, 28), 3), round(r.uniform(2, 3), 3)]
        return np.array(t)
    return round(r.uniform(0.3, 3.0) if model != "L96" else r.uniform(4, 8), 4)


def behave(model, m, seed, want_path=True):
    """Everything a caller can see of the parameters in force."""
    d = {"DW": 1, "OU": 1, "L63": 3, "L96": 40}[model]
    out = {}
    for name, get in (("sigma", lambda: m.sigma), ("inverse", lambda: m.inverse_sigma), ("theta", lambda: m.theta)):
        out[name] = np.array(get(), float)
    if want_path:
        with seams.quiet(), np.errstate(all="ignore"):
            t = seams.tap(m, seed, fresh=True)
            if t is None:
                raise RuntimeError("entropy seam lost: the model holds no NumPy Generator")
            n = 4
            m.make_trajectory(0.0, 0.005 * n, 0.005)
            out["path"] = np.array(m.sample_path, float)
            r = np.random.default_rng(seed)
            nt = m.time_window.size
            if d == 1:
                a, b = r.normal(size=nt), r.normal(size=nt)
                mt, st = r.normal(size=nt), 0.3 + r.random(nt)
            else:
                a, b = r.normal(size=(nt, d, d)), r.normal(size=(nt, d))
                mt = r.normal(size=(nt, d))
                st = np.array([np.eye(d) * (0.3 + r.random()) for _ in range(nt)])
            e = m.energy(a, b, mt, st, [nt // 2])
            flat = [np.ravel(np.asarray(q, float)) for q in ([e[0]] + [y for x in e[1:] for y in x])]
            out["energy"] = np.concatenate(flat)
    return out


def judge(model, m, acc, seed, what, cov, path=True, elsewhere=None):
    if elsewhere:
        # The new model lives in a process that has never seen another one.
        ref = elsewhere(acc["sigma"], acc["theta"], seed, path)
        cov.hit("compared_with_another_process")
    else:
        ref = behave(model, make(model, acc["sigma"], acc["theta"]), seed, path)
    got = behave(model, m, seed, path)
    for k in ref:
        exact = world.freeze(ref[k]) == world.freeze(got[k])
        if not exact and not world.close(got[k], ref[k], rtol=1e-11, atol=0.0):
            raise Violation(f"stale_{k}", f"{what}: {k} differs from a model newly built with the last accepted values "
                                          f"(sigma {np.ravel(full(model, acc['sigma']))[:9]}, theta {np.ravel(acc['theta'])[:3]}): "
                                          f"{np.ravel(got[k])[:9]} instead of {np.ravel(ref[k])[:9]}")
    # The covariance and its inverse belong together.
    if model in ("DW", "OU"):
        resid = abs(float(got["sigma"]) * float(got["inverse"]) - 1.0)
    else:
        d = got["sigma"].shape[0]
        cond = np.linalg.cond(got["sigma"])
        resid = np.max(np.abs(got["sigma"].dot(got["inverse"]) - np.eye(d))) / max(1.0, cond * 1e-6)
    if not resid < 1e-6:
        raise Violation("inverse", f"{what}: noise covariance and inverse do not belong together (residual {resid:.3g})")
    cov.hit("judged")


def attempt(fn):
    try:
        with seams.quiet(), np.errstate(all="ignore"):
            fn()
        return None
    except Exception as e:
        return e


class Failing:
    """Makes the matrix inversion (any statement of it, or LAPACK itself) fail."""

    def __init__(self, op, probe):
        self.op = op
        self.fired = None
        self.tr = None
        self.probe = probe

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def call(self, fn):
        op = self.op
        e = np.linalg.LinAlgError if op["exc"] == "linalg" else seams.EXC[op["exc"]]
        util = os.path.join("src", "numerics", "utilities.py")
        with seams.Tracer() as t:
            err = attempt(self.probe)
        names = [(n, c) for n, c in t.names() if n.startswith(util + ":")]
        if err is not None or not names:
            return False, None
        site = seams.pick_site(names, op["u"], op["v"])

        class X(e):
            pass
        tr = seams.FastTracer(site, X)
        with tr:
            try:
                with seams.quiet(), np.errstate(all="ignore"):
                    fn()
                err = None
            except X as x:
                err = x
            except Exception as x:
                err = x
        self.fired = tr.fired
        return True, err


def run(sc, cov):
    spec = sc["spec"]
    model = spec["model"]
    with seams.Pristine(lambda sigma, theta, seed, path: behave(model, make(model, sigma, theta), seed, path)) as elsewhere:
        go(sc, cov, spec, model, elsewhere)


def go(sc, cov, spec, model, elsewhere):
    sig0, th0 = models.as_arg(spec["sigma"]), models.as_arg(spec["theta"])
    mine = [copy.deepcopy(sig0), copy.deepcopy(th0)]
    err = []

    def build():
        cls = world.sut()["models"][model]
        err.append(cls(mine[0], mine[1], 1))
    e = attempt(build)
    if e is not None:
        raise Violation("valid_refused", f"{model}: valid noise {np.ravel(sig0)[:9]} and drift refused by the constructor: {e!r}")
    m = err[0]
    acc = {"sigma": copy.deepcopy(sig0), "theta": copy.deepcopy(th0)}
    if isinstance(mine[1], np.ndarray) and mine[1].ndim and sc["ops"] and sc["ops"][0]["u"] < 0.4:
        mine[1][...] += 1.5             # the caller's own business
        cov.fault("caller_array_reused")
    judge(model, m, acc, 1, "after construction", cov)
    last = "new"
    buf = mine[0] if isinstance(mine[0], np.ndarray) and mine[0].ndim == 2 else None
    for i, op in enumerate(sc["ops"]):
        r = random.Random(f"{op['seed']}")
        k = op["op"]
        what = f"step {i} ({k})"
        outcome = "ok"
        if k == "valid":
            v = valid_sigma(model, r)
            keep = copy.deepcopy(v)
            e = attempt(lambda: setattr(m, "sigma", v))
            if e is not None:
                raise Violation("valid_refused", f"{model} {what}: valid noise {np.ravel(keep)[:9]} refused: {e!r}")
            acc["sigma"] = keep
            buf = v if isinstance(v, np.ndarray) else buf
        elif k == "bad":
            v = bad_sigma(model, op["how"], r)
            what = f"step {i} (invalid noise: {op['how']})"
            e = attempt(lambda: setattr(m, "sigma", v))
            if e is None:
                raise Violation("invalid_accepted", f"{model} {what}: noise of shape {np.shape(v)} {np.ravel(v)[:9]} was accepted")
            cov.fault("rejected_update")
            outcome = op["how"]
        elif k == "edge":
            v = edge_sigma(model, op["how"], r)
            what = f"step {i} (extreme noise: {op['how']})"
            keep = copy.deepcopy(v)
            e = attempt(lambda: setattr(m, "sigma", v))
            if e is None:
                acc["sigma"] = keep
            elif op["how"] != "nearsingular" and model in ("DW", "OU"):
                raise Violation("valid_refused", f"{model} {what}: {v!r} refused: {e!r}")
            else:
                cov.fault("failed_update")
            outcome = f"{op['how']}:{e is None}"
            # Ill-conditioned values: behaviour is still that of a new model, but is judged on the parameters only.
            probe = make(model, acc["sigma"], acc["theta"]) if e is None and attempt(lambda: make(model, acc["sigma"], acc["theta"])) is None else None
            if e is None and probe is None:
                raise Violation("invalid_accepted", f"{model} {what}: the setter accepted what the constructor refuses")
            if e is None:
                a, b = behave(model, m, 1, False), behave(model, probe, 1, False)
                if any(world.freeze(a[q]) != world.freeze(b[q]) and not world.close(a[q], b[q], rtol=1e-11, atol=0.0) for q in a):
                    raise Violation("stale_params", f"{model} {what}: parameters differ from those of a new model")
                back = valid_sigma(model, r)
                e = attempt(lambda: setattr(m, "sigma", back))
                if e is not None:
                    raise Violation("valid_refused", f"{model} {what}: valid noise refused afterwards: {e!r}")
                acc["sigma"] = copy.deepcopy(back)
        elif k == "fail":
            v = valid_sigma(model, r)
            keep = copy.deepcopy(v)
            probe = make(model, acc["sigma"], acc["theta"])
            f = Failing(op, lambda: setattr(probe, "sigma", copy.deepcopy(v)))
            done, e = f.call(lambda: setattr(m, "sigma", v))
            if not done:
                outcome = "no_site"
            elif e is None:
                acc["sigma"] = keep          # the failure was handled: the update counts
                outcome = "survived"
            else:
                outcome = "failed"
            if f.fired:
                cov.fault(f"inversion_{op['exc']}")
        elif k in ("near", "again", "change_in_place", "form", "twin"):
            # Valid values of unusual kind: almost or exactly the current one, the same object with new contents, integers, lists, other layouts.
            cur = np.array(full(model, acc["sigma"]), float)
            if k == "near":
                v = cur * (1.0 + r.choice((1e-4, -1e-4, 1e-6, 1e-8, -1e-9)))
                v = float(v) if v.ndim == 0 else v
            elif k == "twin":
                v = twin(cur, r)
            elif k == "again":
                v = copy.deepcopy(acc["sigma"]) if model in ("DW", "OU") else cur
            elif k == "change_in_place":
                if buf is None:
                    v = float(cur * 1.5) if cur.ndim == 0 else cur * 1.5
                else:
                    buf[...] = np.array(valid_sigma(model, r))
                    v = buf
            else:
                v = form(model, r)
            keep = copy.deepcopy(v)
            e = attempt(lambda: setattr(m, "sigma", v))
            if e is not None:
                raise Violation("valid_refused", f"{model} {what}: valid noise {np.ravel(keep)[:9]} ({type(keep).__name__}) refused: {e!r}")
            acc["sigma"] = np.array(keep, float) if cur.ndim else float(keep) if k != "form" else keep
            buf = v if isinstance(v, np.ndarray) and v.ndim == 2 and v.flags.writeable and v.dtype == float else None
        elif k == "refused_again":
            # The same invalid object, offered repeatedly, then mended by its owner.
            v = bad_sigma(model, "indefinite", r)
            for _ in range(3):
                if attempt(lambda: setattr(m, "sigma", v)) is None:
                    raise Violation("invalid_accepted", f"{model} {what}: noise {np.ravel(v)[:9]} was accepted on a repeated attempt")
                cov.fault("rejected_update")
            if isinstance(v, np.ndarray):
                v[...] = np.array(valid_sigma(model, r))
            else:
                v = valid_sigma(model, r)
            keep = copy.deepcopy(v)
            e = attempt(lambda: setattr(m, "sigma", v))
            if e is not None:
                raise Violation("valid_refused", f"{model} {what}: valid noise {np.ravel(keep)[:9]} refused after invalid ones: {e!r}")
            acc["sigma"] = keep
            buf = v if isinstance(v, np.ndarray) else None
        elif k == "theta":
            v = theta_value(model, r)
            if r.random() < 0.3:        # almost the current value, or an integer one
                v = r.choice((lambda: np.asarray(acc["theta"], float) * (1 + r.choice((1e-9, -1e-7, 1e-5))), lambda: np.round(np.asarray(v, float))))()
                v = float(max(v, 1.0)) if np.ndim(v) == 0 else v
            keep = copy.deepcopy(v)
            e = attempt(lambda: setattr(m, "theta", v))
            if e is not None:
                raise Violation("valid_refused", f"{model} {what}: valid drift {np.ravel(v)} refused: {e!r}")
            acc["theta"] = keep
            if isinstance(v, np.ndarray) and v.ndim and v.flags.writeable:
                v[r.randrange(v.size)] = r.choice((0.0, -3.0, 99.0))       # the caller's own business
                cov.fault("caller_array_reused")
        elif k == "badtheta":
            v = r.choice((0.0, -0.5, float("nan"), -1e-12))
            e = attempt(lambda: setattr(m, "theta", v))
            if e is None:
                raise Violation("invalid_accepted", f"{model} {what}: drift {v} was accepted")
            cov.fault("rejected_update")
        elif k == "alias":
            # The caller goes on using its own array; then the changed array is refused.
            if buf is None:
                outcome = "none"
            else:
                buf[r.randrange(buf.shape[0]), r.randrange(buf.shape[1])] += r.choice((-50.0, 0.01, 7.0))
                buf[0, 0] = -abs(buf[0, 0]) - 1.0
                e = attempt(lambda: setattr(m, "sigma", buf))
                if e is None:
                    raise Violation("invalid_accepted", f"{model} {what}: indefinite noise {np.ravel(buf)[:9]} was accepted")
                cov.fault("caller_array_reused")
                buf = None
        elif k == "inplace":
            f = -1.0
            def upd():
                m.sigma *= f
            e = attempt(upd)
            if e is None:
                raise Violation("invalid_accepted", f"{model} {what}: noise multiplied by -1 was accepted")
            cov.fault("rejected_update")
        elif k == "zero_d":
            # Scalars of one-dimensional models as zero-dimensional arrays, which the caller goes on using.
            if model not in ("DW", "OU"):
                outcome = "none"
            else:
                which = r.choice(("sigma", "theta", "new"))
                v, u = np.array(valid_sigma(model, r), float), np.array(theta_value(model, r), float)
                keep = float(v), float(u)

                def update():
                    if which == "new":
                        with seams.quiet():
                            return world.sut()["models"][model](v, u, 1)
                    setattr(m, which, v if which == "sigma" else u)
                n = []
                e = attempt(lambda: n.append(update()))
                if e is not None:
                    raise Violation("valid_refused", f"{model} {what}: valid {which} {v} / {u} as array refused: {e!r}")
                v[...] = u[...] = r.choice((9.0, -1.0, 0.0, float("nan")))
                cov.fault("caller_array_reused")
                if which == "new":
                    judge(model, n[0], {"sigma": keep[0], "theta": keep[1]}, 7, what + " (new model)", cov)
                else:
                    acc[which] = keep[0] if which == "sigma" else keep[1]

                    def upd():
                        if which == "sigma":
                            m.sigma *= -1.0
                        else:
                            m.theta *= -1.0
                    if which == "sigma" or model == "OU":
                        if attempt(upd) is None:
                            raise Violation("invalid_accepted", f"{model} {what}: {which} multiplied by -1 was accepted")
                        cov.fault("rejected_update")
                outcome = which
        elif k == "construct":
            good = r.random() < 0.5
            v = ctor_forms(model, r, good)
            keep = copy.deepcopy(v)
            e = attempt(lambda: make(model, v, acc["theta"]))
            if good and e is not None:
                raise Violation("valid_refused", f"{model} {what}: valid noise of shape {np.shape(keep)} {np.ravel(keep)[:9]} refused by the constructor: {e!r}")
            if not good and e is None:
                raise Violation("invalid_accepted", f"{model} {what}: noise of shape {np.shape(keep)} {np.ravel(keep)[:9]} accepted by the constructor")
            if model == "OU" and attempt(lambda: make(model, 1.0, -0.3)) is None:
                raise Violation("invalid_accepted", f"OU {what}: negative drift accepted by the constructor")
            if good:
                n = make(model, keep, acc["theta"])
                if not world.close(np.asarray(n.sigma, float), np.asarray(full(model, keep), float), rtol=1e-12, atol=0):
                    raise Violation("stale_sigma", f"{model} {what}: a model built with {np.ravel(keep)[:9]} reports noise {np.ravel(n.sigma)[:9]}")
            else:
                cov.fault("rejected_construction")
            outcome = f"{good}:{np.ndim(keep)}"
        judge(model, m, acc, op["seed"] % 1000 + 1, what, cov, path=(model != "L96" or i + 1 == len(sc["ops"]) or k in ("path", "twin") or sc["ops"][i + 1]["op"] == "twin"),
              elsewhere=i in sc["pristine"] and elsewhere)
        cov.state(model, k, outcome, last)
        cov.log(i, k, outcome)
        cov.steps += 1
        last = k
    if not sc["ops"]:
        cov.trivial = True


def shrink(sc):
    out = []
    for i in range(len(sc["ops"])):
        out.append(dict(sc, ops=sc["ops"][:i] + sc["ops"][i + 1:]))
    if sc["spec"]["model"] in ("L63", "L96") and sc["spec"]["sigma"] != 1.0:
        out.append(dict(sc, spec=dict(sc["spec"], sigma=1.0)))
    return out
