"""C04: a result that could not be stored is never reported as stored."""
import os

from .. import seams, storage
from ..core import Violation

ID = "C04"
RUNS = {"quick": 2000, "thorough": 60000}
RUN_TIMEOUT = 120
RULE = ("one run = a history of one to four saves by one or two simulations in one process (new name or over earlier, perhaps almost equal results; "
        "repeated after a failure; with changed results), each on a disk with its own fault plan: an error on any single system call, on two, on "
        "all from some point on, a full disk at any byte, short transfers; whenever save() returns, the file is kept as it is at that instant and "
        "judged by a reader that does not use the code under test: it must hold the complete set; non-trivial = a fault fired")
STATES = "distinct (results, system call class and file, errno, position in the history, kind of earlier file, outcome) signatures"
REAL = ["src/var_bayes/simulation.py save()", "h5py, HDF5, zlib"]
STUB = ["system calls on the scratch directory (shim: errors, short transfers, full disk, event log)"]
ASSUMPTIONS = ["data accepted by the operating system counts as having reached the file (no power loss)"]
KINDS = ("error", "error", "error", "two_errors", "persistent", "full", "full", "short", "short_error")


def warm():
    storage.warm()


def gen(rng, index, tier):
    out = storage.gen_output(rng)
    old = rng.choice((None, None, None, "new", "twist"))
    sc = {"name": rng.choice(("run", "two words", "v1.2")), "other": rng.choice(("next", "run2")),
          "old": {None: None, "new": storage.gen_output(rng, big=False), "twist": storage.gen_twist(rng, out)}[old], "ops": []}
    n = 1 if out["kind"] == "40d" else rng.choice((1, 1, 2, 2, 3, 4))
    cur = out
    for i in range(n):
        how = "new" if i == 0 else rng.choice(("same", "same", "same", "twist", "twist_in_place", "new"))
        if how.startswith("twist"):
            cur = storage.gen_twist(rng, cur)
        elif how == "new" and i:
            cur = storage.gen_output(rng, big=False)
        sc["ops"].append({"out": cur, "how": how, "sim": 0 if i == 0 or rng.random() < 0.8 else 1,
                          "fault": storage.gen_fault(rng, KINDS if rng.random() < 0.7 else ("none",))})
    if all(o["fault"]["kind"] == "none" for o in sc["ops"]):
        sc["ops"][0]["fault"] = storage.gen_fault(rng, KINDS)
    return sc


def give(sim, out, how):
    """Hands results to a simulation: as a new set, or within the arrays it holds."""
    if how == "twist_in_place" and set(sim.output) == set(out):
        for k, v in out.items():
            a = sim.output[k]
            if getattr(a, "shape", None) == getattr(v, "shape", ()) and a.flags.writeable and a.dtype == v.dtype:
                a[...] = v
            else:
                sim.output[k] = v
    elif how != "same":
        sim.output.clear()
        sim.output.update(out)


def run(sc, cov):
    with seams.scratch():
        first = storage.file_of(sc["name"])
        if sc["old"]:
            r = storage.in_process(lambda: storage.save_once(sc["name"], storage.make_output(sc["old"])))
            if r[0] != "ok" or r[1][0]:
                raise Violation("failed", f"undisturbed save failed: {r}")
        names, plans, want = [sc["name"], sc["other"]], [], []
        for i, op in enumerate(sc["ops"]):
            out = storage.make_output(op["out"])
            want.append(storage.image(out))
            size = sum(v.nbytes if hasattr(v, "nbytes") else 8 for v in out.values()) + 9000
            if op["fault"]["kind"] == "none":
                plans.append("")
                continue
            n, log, sites = storage.dry_save(sc["name"], out)
            if n is None:
                raise Violation("failed", "undisturbed save did not finish")
            there = sum(os.path.getsize(x) for x in os.listdir(".") if os.path.isfile(x))
            plans.append(storage.resolve(op["fault"], n, log, sites, size + there)[0])
        cov.resolved["plans"] = [p[:200] for p in plans]

        def attempt():
            import shutil
            os.mkdir("snap")
            sims, res = {}, []
            for i, op in enumerate(sc["ops"]):
                name = names[op["sim"]]
                out = storage.make_output(op["out"])
                if name not in sims:
                    sims[name] = storage.simulation(name, out)
                else:
                    give(sims[name], out, op["how"])
                # What this simulation holds is what has to be stored.
                img = storage.image(sims[name].output)
                err, fired, events, log = storage.save_once(name, None, plans[i], sim=sims[name])
                f = storage.file_of(name)
                if err is None and os.path.exists(f):
                    # At this very moment, before anything else is flushed or closed.
                    shutil.copyfile(f, f"snap/{i}.h5")
                hit = next((e for e in log if e[5] not in ("-",)), None)
                res.append((err, fired, events, hit[1:3] if hit else None, img))
            return res
        st, res = storage.in_process(attempt, 100)
        if st == "died" and res < 0:
            raise Violation("process_died", f"a disk fault killed the process (signal {-res}) instead of surfacing as an error (disks: {plans})"[:300])
        if st == "died":
            raise Violation("process_died", f"a disk fault ended the process (status {res}) instead of surfacing as an error (disks: {plans})"[:300])
        if st == "raise":
            raise RuntimeError(f"harness: {res}")
        cov.trivial = True
        history = "old" if sc["old"] else "none"
        for i, (op, (err, fired, events, hit, img)) in enumerate(zip(sc["ops"], res)):
            what = f"save {i} of {len(res)} ({names[op['sim']]!r}, {op['how']} results, disk: {plans[i][:60] or 'sound'}, {fired})"
            for k, c in fired.items():
                cov.fault(k, c)
            cov.trivial = cov.trivial and not fired
            cov.steps += events
            if err is None:
                st, got = storage.in_process(lambda: storage.read_reference(f"snap/{i}.h5"))
                if st != "ok":
                    raise Violation("lost_error", f"{what}: save() returned without an error, but the file cannot be read: {got}")
                diff = storage.differs(got, img, "file after save() returned without an error")
                if diff:
                    raise Violation("lost_error", f"{what}: {diff}")
                cov.hit("returned_and_complete")
            else:
                cov.hit("raised")
                if not fired:
                    raise Violation("failed", f"{what}: save() failed on a sound disk: {err}")
            cov.state(op["out"]["kind"], op["fault"]["kind"], op["fault"]["errno"], hit, i, history, op["how"], err is None)
            cov.log(plans[i], err is None, events)
            history = "stored" if err is None else "failed"


def shrink(sc):
    out = []
    small = {"kind": "tiny", "n": 2, "seed": 1, "special": False, "model": "DW"}
    ops = sc["ops"]
    for i in range(len(ops)):
        if len(ops) > 1:
            out.append(dict(sc, ops=ops[:i] + ops[i + 1:]))
    if sc["old"]:
        out.append(dict(sc, old=None))
    if any(o["out"] != small for o in ops) and not any("twist" in o["out"] for o in ops) and not (sc["old"] or {}).get("twist"):
        out.append(dict(sc, ops=[dict(o, out=small) for o in ops]))
    if sc["name"] != "run":
        out.append(dict(sc, name="run"))
    for i, o in enumerate(ops):
        if o["fault"]["kind"] not in ("error", "full", "none"):
            out.append(dict(sc, ops=ops[:i] + [dict(o, fault=dict(o["fault"], kind="error"))] + ops[i + 1:]))
        if o["fault"]["kind"] != "none" and len(ops) > 1:
            out.append(dict(sc, ops=ops[:i] + [dict(o, fault=dict(o["fault"], kind="none"))] + ops[i + 1:]))
    return out
