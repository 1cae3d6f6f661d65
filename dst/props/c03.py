"""C03: saved results read back exactly."""
import os
import random

from .. import seams, storage, world
from ..core import Violation

ID = "C03"
RUNS = {"quick": 1200, "thorough": 40000}
RUN_TIMEOUT = 120
RULE = ("one run = a seeded history of saves, overwrites and loads of several simulations (results produced by real runs and synthetic ones "
        "with special values), in one process or across process restarts, on a disk that transfers data in short pieces or interrupts calls; "
        "every load is compared bit for bit with a model of the stored results; non-trivial = at least one load judged")
STATES = "distinct (operation, kind of results, overwritten or new, same or other process, disk regime) signatures"
REAL = ["src/var_bayes/simulation.py save(), load()", "h5py, HDF5, zlib", "simulations run to produce some result sets"]
STUB = ["system calls on the scratch directory (shim: short transfers, EINTR, event log)"]
ASSUMPTIONS = ["a scalar result may become a one-element array in memory when it is saved"]
NAMES = ("run", "ID_7", "two words", " padded ", "v1.2", "a", "sub/inner", "dash-ed_x", "Größe", "RUN")


def warm():
    storage.warm()


def gen(rng, index, tier):
    names = rng.sample(NAMES, rng.randint(1, 3))
    sims = [{"name": rng.choice(names), "out": storage.gen_output(rng)} for _ in range(rng.randint(1, 4))]
    if index % 60 == 17:                # as big as a long run of the 40-dimensional model
        sims[0]["out"] = {"kind": "big", "n": rng.choice((164, 205, 401, 700)), "seed": rng.randrange(10 ** 9), "special": False, "model": "DW"}
    ops = []
    for _ in range(rng.randint(2, 9)):
        ops.append({"op": rng.choices(("save", "load", "results"), (5, 5, 1))[0], "sim": rng.randrange(len(sims)), "child": rng.random() < 0.35,
                    "plan": rng.choice(("none", "short", "short", "dense", "eintr")), "seed": rng.randrange(10 ** 9),
                    "path": rng.choice(("str", "Path", "abs")), "out": storage.gen_output(rng, big=False)})
    ops[-1]["op"] = "load"
    return {"sims": sims, "ops": ops}


def plan_of(op, safe):
    if op["plan"] == "short":
        return storage.short_plan(op["seed"], 0.15)
    if op["plan"] == "dense":
        return storage.short_plan(op["seed"], 0.8)
    if op["plan"] == "eintr":
        r = random.Random(f"eintr:{op['seed']}")
        return ";".join(f"{i}:E:4" for i in safe if r.random() < 0.3)
    return ""


def run(sc, cov):
    with seams.scratch():
        os.mkdir("sub")
        sims = []
        for s in sc["sims"]:
            out = storage.make_output(s["out"])
            sims.append([s["name"], storage.simulation(s["name"], out), storage.image(out), s["out"]["kind"]])
        stored = {}
        judged = 0
        for i, op in enumerate(sc["ops"]):
            name, sim, img, kind = sims[op["sim"]]
            f = storage.file_of(name)
            what = f"step {i} {op['op']} of {name!r} ({kind}, disk: {op['plan']}{', other process' if op['child'] else ''})"
            if op["op"] == "results":
                out = storage.make_output(op["out"])
                sim.output.clear()
                sim.output.update(out)
                sims[op["sim"]][2:] = [storage.image(out), op["out"]["kind"]]
                continue
            if op["op"] == "load" and f not in stored:
                continue
            others = {o: storage.digest_file(o) for o in stored if o != f}
            mem = [storage.image(s[1].output) for s in sims]

            def work():
                return do(op, sim, f, plan_of(op, safe), what)
            # Which events may be interrupted (reads and writes): found by a dry run on a copy of the directory state.
            safe = dry(op, sim, f) if op["plan"] == "eintr" else []
            if op["child"]:
                res = storage.in_process(work)
                if res[0] != "ok":
                    raise Violation("failed", f"{what}: {res}")
                got, fired, log = res[1]
            else:
                got, fired, log = work()
            for k, n in fired.items():
                cov.fault("interrupted_call" if k == "io_error" else k, n)
            if op["op"] == "save":
                over = f in stored
                stored[f] = img
            else:
                over = True
                d = storage.differs(got, stored[f], what)
                if d:
                    raise Violation("read_back", d)
                judged += 1
                cov.hit("loads_judged")
            for o, h in others.items():
                if storage.digest_file(o) != h:
                    raise Violation("other_file", f"{what}: changed the file of another simulation, {o}")
            for s, m in zip(sims, mem):
                d = world.diff_image(storage.image(s[1].output), m, "now", "before")
                if d:
                    raise Violation("memory", f"{what}: changed the results in memory: {d}")
            cov.state(op["op"], kind, over, op["child"], op["plan"], op["path"])
            cov.log(i, op["op"], name, sorted(fired.items()), got)
            cov.steps += len(log)
        # At the end everything stored is still there.
        for f, img in stored.items():
            try:
                got = storage.check_loaded(world.sut()["load"](f))
            except Violation:
                raise
            except Exception as e:
                raise Violation("read_back", f"final load of {f}: {type(e).__name__}: {e}")
            d = storage.differs(got, img, f"final load of {f}")
            if d:
                raise Violation("read_back", d)
            judged += 1
        cov.trivial = not judged


def dry(op, sim, f):
    """Events of the operation that are plain reads or writes (EINTR there is retried by HDF5)."""
    def go():
        disk = seams.Disk()
        disk.arm(os.getcwd(), "")
        with seams.quiet():
            if op["op"] == "save":
                import shutil
                # Only the numbering of events is of interest: use a scratch copy of the directory.
                old = os.getcwd()
                new = old + "-dry"
                shutil.copytree(old, new)
                os.chdir(new)
                disk.disarm()
                disk.arm(new, "")
                try:
                    sim.save()
                finally:
                    n = disk.disarm()
                    os.chdir(old)
                    shutil.rmtree(new)
            else:
                world.sut()["load"](f)
                disk.disarm()
        return [e[0] for e in disk.log() if e[1] in "rw"]
    r = storage.in_process(go)
    return r[1] if r[0] == "ok" else []


def do(op, sim, f, plan, what):
    disk = seams.Disk()
    got = None
    arg = f
    if op["path"] == "Path":
        import pathlib
        arg = pathlib.Path(f)
    elif op["path"] == "abs":
        arg = os.path.abspath(f)
    disk.arm(os.getcwd(), plan)
    err = None
    try:
        with seams.quiet():
            if op["op"] == "save":
                sim.save()
            else:
                got = world.sut()["load"](arg)
    except Exception as e:
        err = f"{type(e).__name__}: {str(e)[:200]}"
    disk.disarm()
    if err:
        raise Violation("failed", f"{what}: {err}")
    if op["op"] == "save" and not os.path.exists(f):
        raise Violation("failed", f"{what}: no file {f} afterwards (directory: {sorted(os.listdir('.'))})")
    return (storage.check_loaded(got) if op["op"] == "load" else None), disk.fired(), disk.log()


def shrink(sc):
    out = []
    for i in range(len(sc["ops"])):
        out.append(dict(sc, ops=sc["ops"][:i] + sc["ops"][i + 1:]))
    for i, o in enumerate(sc["ops"]):
        if o["plan"] != "none":
            out.append(dict(sc, ops=sc["ops"][:i] + [dict(o, plan="none")] + sc["ops"][i + 1:]))
        if o["child"]:
            out.append(dict(sc, ops=sc["ops"][:i] + [dict(o, child=False)] + sc["ops"][i + 1:]))
    for i, s in enumerate(sc["sims"]):
        small = {"kind": "tiny", "n": 2, "seed": s["out"]["seed"], "special": False, "model": "DW"}
        if s["out"] != small:
            out.append(dict(sc, sims=sc["sims"][:i] + [dict(s, out=small)] + sc["sims"][i + 1:]))
    return [o for o in out if o["ops"]]
