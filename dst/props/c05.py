"""C05: an interrupted or failed save never leaves wrong results."""
import os

from .. import seams, storage, world
from ..core import Violation

ID = "C05"
RUNS = {"quick": 1500, "thorough": 50000}
RUN_TIMEOUT = 120
RULE = ("one run = a history of up to three disturbed saves under one name (with or without complete earlier results), each in its own process "
        "that is killed at a system call (before it, or after a torn part of the write), killed or interrupted at a statement, or meets disk "
        "errors or a full disk; after each the file is loaded by a fresh process, and at the end an undisturbed save must succeed; "
        "non-trivial = at least one fault fired")
STATES = "distinct (fault kind, system call class or statement, earlier results, outcome) signatures"
REAL = ["src/var_bayes/simulation.py save(), load()", "h5py, HDF5, zlib", "process death (_exit at the chosen instant)"]
STUB = ["system calls on the scratch directory (shim: crash points, torn writes, errors, full disk)"]
ASSUMPTIONS = ["a killed process loses nothing the operating system had accepted (process crash, not power loss)"]
KINDS = ("crash_before", "crash_before", "crash_torn", "crash_torn", "crash_torn", "statement", "statement", "statement", "error", "persistent", "full")


def warm():
    storage.warm()


def gen(rng, index, tier):
    return {"name": rng.choice(("run", "run", "v1.2")), "old": storage.gen_output(rng, big=False) if rng.random() < 0.6 else None,
            "attempts": [{"out": storage.gen_output(rng, big=False if i else None), "fault": storage.gen_fault(rng, KINDS)}
                         for i in range(rng.choice((1, 1, 2, 3)))],
            "final": storage.gen_output(rng, big=False)}


def undisturbed(name, out, what):
    st, r = storage.in_process(lambda: storage.save_once(name, out))
    if st != "ok" or r[0]:
        raise Violation("no_recovery", f"{what}: {r if st != 'ok' else r[0]}")
    got = storage.in_process(lambda: storage.load_once(name))
    if got[0] != "ok" or got[1][0][0] != "ok":
        raise Violation("no_recovery", f"{what}: the file does not load: {got[1]}")
    d = storage.differs(got[1][0][1], storage.image(out), what)
    if d:
        raise Violation("no_recovery", d)


def run(sc, cov):
    f = storage.file_of(sc["name"])
    with seams.scratch():
        stored = None
        other = storage.make_output({"kind": "1d", "n": 5, "seed": 5, "special": False, "model": "DW"})
        undisturbed("other", other, "an undisturbed save of another simulation")
        other_digest = storage.digest_file("other.h5")
        if sc["old"]:
            out = storage.make_output(sc["old"])
            undisturbed(sc["name"], out, "an undisturbed first save")
            stored = storage.image(out)
        cov.trivial = True
        for i, a in enumerate(sc["attempts"]):
            out = storage.make_output(a["out"])
            new = storage.image(out)
            n, log, names = storage.dry_save(sc["name"], out)
            if n is None:
                raise Violation("no_recovery", f"attempt {i}: an undisturbed save at this point did not finish")
            size = os.path.getsize(f) if os.path.exists(f) else 0
            size += sum(v.nbytes if hasattr(v, "nbytes") else 8 for v in out.values()) + 9000 + os.path.getsize("other.h5")
            plan, trace = storage.resolve(a["fault"], n, log, names, size)
            site = trace.target if trace else None
            cov.resolved[f"attempt{i}"] = plan[:100] or (list(site) if site else "")
            st, r = storage.in_process(lambda: storage.save_once(sc["name"], out, plan, trace) + ((trace.fired,) if trace else (None,)))
            outcome = "died" if st == "died" else "raised" if r[0] else "returned"
            if st == "died" or r[1] or r[4]:
                cov.fault(storage.fault_name(a["fault"]))
                cov.trivial = False
            what = f"attempt {i} ({storage.fault_name(a['fault'])} {plan[:60] or site or ''}, save {outcome})"
            # Under its name: loads completely, or does not load.
            got = storage.in_process(lambda: storage.load_once(sc["name"])[0])
            loaded = got[1][1] if got[0] == "ok" and got[1][0] == "ok" else None
            if loaded is not None and loaded != new and loaded != stored:
                close = new if set(loaded) <= set(new) else stored or new
                raise Violation("partial", f"{what}: the file loads, but is neither the new nor the earlier set: {storage.differs(loaded, close, 'loaded')}")
            if loaded is None and stored is not None:
                raise Violation("lost_earlier", f"{what}: the results stored before are gone ({got[1]})")
            if outcome == "returned" and loaded != new:
                raise Violation("partial", f"{what}: save() returned but the new results are not there")
            stored = loaded
            if storage.digest_file("other.h5") != other_digest:
                raise Violation("other_file", f"{what}: changed the file of another simulation")
            for absent in ("never", sc["name"] + "2", "z"):
                got = storage.in_process(lambda: storage.load_once(absent)[0])
                if got[0] == "ok" and got[1][0] == "ok":
                    raise Violation("results_of_another", f"{what}: loading {absent!r}, which was never saved, returns results")
            call = next((e[1:3] for e in log if plan and plan[0].isdigit() and e[0] == int(plan.split(":")[0])), None)
            cov.state(a["fault"]["kind"], call or (site and site[0]) or "", i > 0 or bool(sc["old"]), outcome, loaded is None, loaded == new)
            cov.log(i, outcome, plan, site, loaded)
            cov.steps += n
        undisturbed(sc["name"], storage.make_output(sc["final"]), "saving again after the restart")
        got = storage.in_process(lambda: storage.load_once("other")[0])
        if got[0] != "ok" or got[1][0] != "ok" or got[1][1] != storage.image(other):
            raise Violation("other_file", f"the results of another simulation did not survive: {str(got)[:200]}")


def shrink(sc):
    out = []
    small = {"kind": "tiny", "n": 2, "seed": 1, "special": False, "model": "DW"}
    for i in range(len(sc["attempts"])):
        if len(sc["attempts"]) > 1:
            out.append(dict(sc, attempts=sc["attempts"][:i] + sc["attempts"][i + 1:]))
    if sc["old"]:
        out.append(dict(sc, old=None))
        if sc["old"] != small:
            out.append(dict(sc, old=small))
    if sc["final"] != small:
        out.append(dict(sc, final=small))
    for i, a in enumerate(sc["attempts"]):
        for o in (small, dict(small, kind="1d", n=21, seed=2)):
            if a["out"] != o:
                out.append(dict(sc, attempts=sc["attempts"][:i] + [dict(a, out=o)] + sc["attempts"][i + 1:]))
    return out
