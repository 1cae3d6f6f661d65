"""C23: concurrent saves and loads of a result file behave as if done one after another."""
import os

from .. import cluster, seams, storage, world
from ..core import Violation

ID = "C23"
RUNS = {"quick": 1000, "thorough": 40000}
RUN_TIMEOUT = 200
RULE = ("one run = two to four processes on one simulated disk (stopped before every system call, the seed decides which goes on; or threads of one "
        "process switched at statements), each saving and loading results under one or two names, some of them killed or hit by disk errors and "
        "short transfers; the recorded history of every name must be that of an atomic register of complete result sets (linearizability), "
        "contention alone must make nothing fail, and afterwards a save and a load must succeed; non-trivial = at least one switch while an operation was under way")
STATES = "distinct (kind of processes, operations, outcome, faults, interleaving of calls) signatures"
REAL = ["src/var_bayes/simulation.py save(), load()", "h5py, HDF5, zlib", "operating-system processes, file system, locks"]
STUB = ["order of the system calls on the shared directory (shim and coordinator)", "thread scheduling", "sleeping and waiting for locks (hands over control)"]
ASSUMPTIONS = ["one machine: the operating system's file operations are atomic one by one", "inside a process, threads switch between Python statements of the repository"]
NAMES = ("run", "two words")
WHERE = [""]            # the directory of this run's names


def warm():
    storage.warm()


def gen(rng, index, tier):
    mode = rng.choice(("processes", "processes", "processes", "threads"))
    n = rng.choice((2, 2, 2, 3, 3, 4))
    one = rng.random() < 0.7
    procs = []
    for i in range(n):
        ops = []
        for _ in range(rng.choice((1, 1, 2, 3))):
            k = rng.choices(("save", "load"), (3, 2) if i else (4, 1))[0]
            out = storage.gen_output(rng, big=False)
            ops.append({"op": k, "name": 0 if one else rng.randrange(2), "out": out if k == "save" else None})
        f = {"kind": "none", "u": 0.0, "v": 0.0, "errno": "EIO"}
        if mode == "processes" and rng.random() < 0.3:
            f = storage.gen_fault(rng, ("error", "error", "crash_before", "crash_torn", "short", "short_error"))
        procs.append({"ops": ops, "fault": f})
    return {"mode": mode, "procs": procs, "old": [storage.gen_output(rng, big=False) if rng.random() < 0.5 else None for _ in NAMES],
            "where": rng.choice(("here", "here", "here", "sub", "new")), "sched": rng.randrange(10 ** 6), "mean": rng.choice((1, 2, 4, 12, 40)), "opcodes": rng.random() < 0.15}


def name_of(j):
    return WHERE[0] + NAMES[j]


def key(img):
    return repr(sorted(img.items()))


def act(op):
    """One operation of one simulated process: a picklable outcome."""
    name = name_of(op["name"])
    try:
        with seams.quiet():
            if op["op"] == "save":
                storage.simulation(name, storage.make_output(op["out"])).save()
                return "ok", None
            return "ok", key(storage.check_loaded(world.sut()["load"](storage.file_of(name))))
    except Violation as e:
        return "violation", (e.klass, e.msg)
    except FileNotFoundError as e:
        return "missing", str(e)[:150]
    except Exception as e:
        return "raise", f"{type(e).__name__}: {str(e)[:200]}"


def in_processes(sc, cov):
    n = len(sc["procs"])

    def proc(p):
        def go(ctx):
            for k, op in enumerate(p["ops"]):
                ctx.op(k, lambda: act(op))
        return go
    procs = [proc(p) for p in sc["procs"]]
    plans = []
    if any(p["fault"]["kind"] != "none" for p in sc["procs"]):
        # Where faults can strike: an undisturbed sequential execution on a copy.
        import shutil
        here = os.getcwd()
        shutil.copytree(here, here + "-dry")
        try:
            os.chdir(here + "-dry")
            dry = cluster.Cluster(0, sequential=True).run(procs, os.getcwd(), [""] * n)
        finally:
            os.chdir(here)
            shutil.rmtree(here + "-dry")
        for p, (code, info) in zip(sc["procs"], dry):
            plans.append(storage.resolve(p["fault"], info[0], info[2], [], 0)[0] if info else "")
    else:
        plans = [""] * n
    cov.resolved["plans"] = [p[:100] for p in plans]
    c = cluster.Cluster(sc["sched"], sc["mean"])
    res = c.run(procs, os.getcwd(), plans)
    cov.fault("process_switch", c.switches)
    if c.waits:
        cov.hit("waited_for_lock", c.waits)
    faulty = []
    for i, (code, info) in enumerate(res):
        if code not in (0, 137):
            raise Violation("process_died", f"process {i} of {n} died (status {code}; disk: {plans[i][:80] or 'sound'})")
        if code == 137:
            cov.fault("crash")
        for k, v in (info[1] if info else {}).items():
            cov.fault(k, v)
        faulty.append(code == 137 or bool(set(info[1]) - {"short_transfer"}))
    cov.steps += c.events
    cov.log(c.trail, [(h[1], h[2], h[3]) for h in c.history])
    return c.history, faulty, c.switches, c.trail


def in_threads(sc, cov):
    def go():
        hist = []
        s = seams.Scheduler(sc["sched"], sc["mean"], sc["opcodes"])

        def work(i):
            def f():
                for k, op in enumerate(sc["procs"][i]["ops"]):
                    hist.append((len(hist), i, "inv", k, None))
                    r = act_quiet(op)
                    hist.append((len(hist), i, "ret", k, r))
            return f
        with seams.quiet():
            res = s.run([work(i) for i in range(len(sc["procs"]))])
        for i, (st, e) in enumerate(res):
            if st != "ok":
                raise RuntimeError(f"thread {i}: {e!r}")
        return hist, s.switches, s.trail[:60], s.points
    st, r = storage.in_process(go, 100)
    if st != "ok":
        if st == "died":
            raise Violation("process_died", f"threads of one process: the process died ({r})")
        raise RuntimeError(f"harness: {r}")
    hist, switches, trail, points = r
    cov.fault("thread_switch", switches)
    cov.steps += points
    cov.log(switches, trail, [(h[1], h[2], h[3]) for h in hist])
    return hist, [False] * len(sc["procs"]), switches, trail


def act_quiet(op):
    """As act, without redirecting the output of the whole process."""
    name = name_of(op["name"])
    try:
        if op["op"] == "save":
            storage.simulation(name, storage.make_output(op["out"])).save()
            return "ok", None
        return "ok", key(storage.check_loaded(world.sut()["load"](storage.file_of(name))))
    except Violation as e:
        return "violation", (e.klass, e.msg)
    except FileNotFoundError as e:
        return "missing", str(e)[:150]
    except Exception as e:
        return "raise", f"{type(e).__name__}: {str(e)[:200]}"


def run(sc, cov):
    WHERE[0] = ""
    if sc.get("where") == "new":
        # A directory that does not exist: only if saving there works at all.
        with seams.scratch():
            st, r = storage.in_process(lambda: storage.save_once("new/run", {"fx": 1.0}))
            WHERE[0] = "new/" if st == "ok" and not r[0] and os.path.exists(storage.file_of("new/run")) else ""
    with seams.scratch():
        if sc.get("where") == "sub":
            os.mkdir("sub")
            WHERE[0] = "sub/"
        vals = [None, None]
        for j, spec in enumerate(sc["old"]):
            if spec and WHERE[0] != "new/":
                out = storage.make_output(spec)
                vals[j] = key(storage.image(out))
                st, r = storage.in_process(lambda: storage.save_once(name_of(j), out))
                if st != "ok" or r[0]:
                    raise Violation("failed", f"undisturbed save failed: {r}")
        hist, faulty, switches, trail = (in_processes if sc["mode"] == "processes" else in_threads)(sc, cov)
        # The history of each name.
        ops, overlap, open_ops, ended = {}, False, set(), {}
        for t, (_, i, what, k, val) in enumerate(hist):
            if what == "inv":
                overlap = overlap or bool(open_ops - {i})
                open_ops.add(i)
                ops[(i, k)] = [t, None, None]
            elif what == "ret":
                open_ops.discard(i)
                ops[(i, k)][1:] = [t, val]
            else:
                open_ops.discard(i)
                ended[i] = t
        cov.trivial = not overlap
        known = {}
        for p in sc["procs"]:
            for op in p["ops"]:
                if op["op"] == "save":
                    known[id(op)] = key(storage.image(storage.make_output(op["out"])))
        reg = {j: [] for j in range(len(NAMES))}
        text = {j: [] for j in range(len(NAMES))}
        for j, v in enumerate(vals):
            if v is not None:
                reg[j].append((-2, -1, "save", v, True))
                text[j].append("stored before")
        for (i, k), (t0, t1, r) in sorted(ops.items(), key=lambda x: x[1][0]):
            op = sc["procs"][i]["ops"][k]
            st = r[0] if r else "died"
            who = f"{sc['mode'][:-2] if sc['mode'] == 'processes' else 'thread'} {i}: {op['op']} of {NAMES[op['name']]!r}"
            if st == "violation":
                raise Violation(*r[1])
            j = op["name"]
            if st in ("raise", "missing") and not faulty[i]:
                if not (st == "missing" and op["op"] == "load"):
                    raise Violation("failed", f"{who} failed for no other reason than others working at the same time: {r[1]} ({switches} switches)")
            if op["op"] == "save":
                reg[j].append((t0, t1 if t1 is not None else ended[i], "save", known[id(op)], st == "ok"))
                text[j].append(f"{who} [{t0}, {t1 if t1 is not None else 'died'}] {st}")
            elif st == "ok" or (st == "missing" and not faulty[i]):
                v = r[1] if st == "ok" else None
                if v is not None and v not in vals and v not in known.values():
                    raise Violation("torn", f"{who} [{t0}, {t1}] returned results nobody stored ({switches} switches; {sc['mode']})")
                reg[j].append((t0, t1, "load", v, True))
                text[j].append(f"{who} [{t0}, {t1}] -> " + ("no file" if v is None else f"results of save {text_of(sc, known, v)}"))
            cov.hit(f"{op['op']}_{st}")
        end = len(hist) + 1
        for j in range(len(NAMES)):
            f = storage.file_of(name_of(j))
            v = None
            if os.path.exists(f):
                st, got = storage.in_process(lambda: storage.read_reference(f))
                if st != "ok":
                    raise Violation("torn", f"after everything ended, {f} cannot be read: {got} ({'; '.join(text[j])})")
                v = key(got)
                if v not in vals and v not in known.values():
                    raise Violation("torn", f"after everything ended, {f} holds results nobody stored ({'; '.join(text[j])})")
            reg[j].append((end, end + 1, "load", v, True))
            text[j].append("finally " + ("no file" if v is None else f"results of save {text_of(sc, known, v)}"))
            if cluster.linearizable(reg[j]) is None:
                raise Violation("not_atomic", f"no order of the operations explains what they returned: {'; '.join(text[j])}")
        # Progress: with nobody else around, saving and loading work.
        last = storage.make_output({"kind": "tiny", "n": 2, "seed": sc["sched"], "special": False, "model": "DW"})
        want = storage.image(last)
        for name in [name_of(0)]:
            st, r = storage.in_process(lambda: (storage.save_once(name, last)[0], storage.load_once(name)[0]))
            if st != "ok" or r[0] or r[1][0] != "ok":
                raise Violation("no_progress", f"saving and loading afterwards: {r}")
            d = storage.differs(r[1][1], want, "loaded afterwards")
            if d:
                raise Violation("no_progress", d)
        cov.hit("histories_judged", len(NAMES))
        cov.state(sc["mode"], [[o["op"] for o in p["ops"]] for p in sc["procs"]], [p["fault"]["kind"] for p in sc["procs"]], trail[:30])


def text_of(sc, known, v):
    for i, p in enumerate(sc["procs"]):
        for k, op in enumerate(p["ops"]):
            if op["op"] == "save" and known[id(op)] == v:
                return f"{k} of {i}"
    return "before"


def shrink(sc):
    out = []
    ps = sc["procs"]
    for i in range(len(ps)):
        if len(ps) > 1:
            out.append(dict(sc, procs=ps[:i] + ps[i + 1:]))
    for i, p in enumerate(ps):
        for k in range(len(p["ops"])):
            if len(p["ops"]) > 1:
                out.append(dict(sc, procs=ps[:i] + [dict(p, ops=p["ops"][:k] + p["ops"][k + 1:])] + ps[i + 1:]))
        if p["fault"]["kind"] != "none":
            out.append(dict(sc, procs=ps[:i] + [dict(p, fault=dict(p["fault"], kind="none"))] + ps[i + 1:]))
    for j in range(len(NAMES)):
        if sc["old"][j]:
            out.append(dict(sc, old=[None if q == j else o for q, o in enumerate(sc["old"])]))
    for i, p in enumerate(ps):
        for k, op in enumerate(p["ops"]):
            if op["out"] and op["out"]["kind"] != "tiny":
                small = {"kind": "tiny", "n": 2, "seed": op["out"]["seed"], "special": False, "model": "DW"}
                out.append(dict(sc, procs=ps[:i] + [dict(p, ops=p["ops"][:k] + [dict(op, out=small)] + p["ops"][k + 1:])] + ps[i + 1:]))
    if sc.get("where") != "here":
        out.append(dict(sc, where="here"))
    if sc["mode"] == "threads" and sc["opcodes"]:
        out.append(dict(sc, opcodes=False))
    return out
