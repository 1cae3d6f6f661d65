"""C16: loading returns the stored results or fails, whatever the disk does."""
import os
import random

from .. import seams, storage, world
from ..core import Violation

ID = "C16"
RUNS = {"quick": 2000, "thorough": 60000}
RUN_TIMEOUT = 120
RULE = ("one run = a saved result set and a history of loads, each on a disk with one disturbance: a read error at any call, on all calls from some "
        "point on, short or interrupted reads, a bit flipped in flight or on disk inside stored array data, an overwritten stretch of array data, a file "
        "truncated at any byte; every load must return the exact set or raise, must leave the file as it is, and an undisturbed load "
        "in the same process must succeed afterwards; non-trivial = at least one disturbance took effect")
STATES = "distinct (disturbance, system call class or dataset, results, outcome) signatures"
REAL = ["src/var_bayes/simulation.py load() (save() for producing the file)", "h5py, HDF5, zlib"]
STUB = ["system calls on the scratch directory (shim: read errors, short reads, bit flips)", "damage to the file applied by the simulator"]
ASSUMPTIONS = ["HDF5 metadata carries no checksum in this format, so damage is limited to stored array data and truncation"]
KINDS = ("error", "error", "persistent", "short", "short_error", "eintr", "flight", "flip", "flip", "smear", "zero", "truncate", "truncate", "missing", "none")


def warm():
    storage.warm()


def gen(rng, index, tier):
    loads = []
    for _ in range(rng.choice((1, 2, 3, 5))):
        f = storage.gen_fault(rng, ("error",))
        f["kind"] = rng.choice(KINDS)
        loads.append(f)
    return {"out": storage.gen_output(rng), "loads": loads, "other": rng.random() < 0.3}


def chunks(path):
    import h5py
    out = []
    with h5py.File(path, "r") as f:
        for k in f:
            ds = f[k].id
            try:
                for i in range(ds.get_num_chunks()):
                    c = ds.get_chunk_info(i)
                    out.append((k, c.byte_offset, c.size, tuple(ds.shape)))
            except Exception:
                # Not chunked: contiguous data.
                if ds.get_offset() is not None:
                    out.append((k, ds.get_offset(), ds.get_storage_size(), tuple(ds.shape)))
    return out


def run(sc, cov):
    out = storage.make_output(sc["out"])
    want = storage.image(out)
    name, f = "run", "run.h5"
    with seams.scratch():
        st, r = storage.in_process(lambda: storage.save_once(name, out))
        if st != "ok" or r[0]:
            raise Violation("failed", f"undisturbed save failed: {r}")
        good = open(f, "rb").read()
        st, where = storage.in_process(lambda: chunks(f))
        where = [w for w in where if w[2] > 0] if st == "ok" else []
        (st, r) = storage.in_process(lambda: storage.load_once(name))
        if st != "ok" or r[0][0] != "ok":
            raise Violation("failed", f"undisturbed load failed: {r}")
        n, log = r[2], r[3]
        cov.trivial = True

        def history():
            c = []
            for i, l in enumerate(sc["loads"]):
                c.append(one(i, l))
            return c

        def one(i, l):
            plan, target, data = "", "", good
            kind = l["kind"]
            u, v = l["u"], l["v"]
            if kind in ("error", "persistent", "short", "short_error"):
                plan, _ = storage.resolve(l, n, log, [], 0)
                if kind in ("error", "persistent", "short_error") and plan and plan[0].isdigit():
                    target = log[min(int(u * n), n - 1)][1]
            elif kind == "eintr":
                reads = [e[0] for e in log if e[1] == "r"]
                plan = ";".join(f"{k}:E:4" for k in reads if random.Random(f"{v}:{k}").random() < 0.5)
            elif kind == "flight":
                reads = [e for e in log if e[1] == "r" and any(o <= e[3] and e[3] + e[4] <= o + s for _, o, s, _ in where)]
                if reads:
                    e = reads[int(u * len(reads))]
                    plan, target = f"{e[0]}:Z:{int(v * e[4] * 8)}", "payload"
            elif kind in ("flip", "smear", "zero") and where:
                k, o, s, shape = where[int(u * len(where))]
                b = bytearray(data)
                if kind == "flip":
                    bit = int(v * s * 8)
                    b[o + bit // 8] ^= 1 << (bit % 8)
                else:
                    a = int(v * s)
                    z = min(s, a + max(1, int((l["u"] * 7919 % 1.0) * 600)))
                    rr = random.Random(f"smear:{v}")
                    b[o + a:o + z] = bytes(rr.randrange(256) if kind == "smear" else 0 for _ in range(z - a))
                data, target = bytes(b), k
            elif kind == "truncate":
                data, target = data[:int(u * len(data)) if v < 0.8 else max(0, len(data) - 1 - int(u * 64))], "file"
            elif kind == "missing":
                data = None
            if data is None:
                os.unlink(f)
            elif data != good:
                with open(f, "wb") as h:
                    h.write(data)
            res, fired, _, _ = storage.load_once(name, plan)
            now = open(f, "rb").read() if os.path.exists(f) else None
            if now != data:
                raise Violation("file_changed", f"load {i} ({kind}): the file was altered by loading")
            what = f"load {i} ({kind} {target} {plan[:40]})"
            if res[0] == "ok":
                d = storage.differs(res[1], want, what)
                if d:
                    raise Violation("wrong_results", f"{what} returned without an error: {d}")
            elif not fired and data == good:
                raise Violation("failed", f"{what}: failed on a sound disk: {res[1]}")
            elif kind in ("short", "eintr"):
                raise Violation("failed", f"{what}: short or interrupted reads made it fail: {res[1]}")
            if data != good:
                with open(f, "wb") as h:
                    h.write(good)
            # The disk has recovered.
            again, _, _, _ = storage.load_once(name)
            if again[0] != "ok" or again[1] != want:
                raise Violation("no_recovery", f"after {what}: loading again on a sound disk: {again if again[0] != 'ok' else storage.differs(again[1], want, 'loaded')}")
            return kind, target, res[0], fired, data is not good and data != good
        st, r = storage.in_process(history)
        if st == "died":
            raise Violation("process_died", f"loading on a faulty disk killed the process ({r}) instead of raising an error")
        if st == "raise":
            raise RuntimeError(f"harness: {r}")
        for kind, target, res, fired, damaged in r:
            for k, c in fired.items():
                cov.fault("interrupted_call" if kind == "eintr" else k, c)
            if damaged:
                cov.fault({"flip": "bit_flip_on_disk", "smear": "overwritten_data", "zero": "zeroed_data", "truncate": "truncated_file", "missing": "missing_file"}.get(kind, kind))
            if fired or damaged:
                cov.trivial = False
            cov.hit(f"load_{res}")
            cov.state(kind, target, sc["out"]["kind"], res)
            cov.log(kind, target, res, sorted(fired.items()))
            cov.steps += n


def shrink(sc):
    out = []
    small = {"kind": "tiny", "n": 2, "seed": 1, "special": False, "model": "DW"}
    for i in range(len(sc["loads"])):
        if len(sc["loads"]) > 1:
            out.append(dict(sc, loads=sc["loads"][:i] + sc["loads"][i + 1:]))
    for o in (small, dict(small, kind="1d", n=21)):
        if sc["out"] != o:
            out.append(dict(sc, out=o))
    return out
