"""Several processes on one simulated disk, interleaved system call by system call.

Every process is a real forked process running the real code.  Before each
system call on the shared directory it hands control to the simulator (shim,
sd_sched) and stays stopped until it is told to go on, so that exactly one
process runs at any time and the seed decides the order of all calls.
"""
import os
import pickle
import random
import select
import signal
import struct
import time

from . import seams
from .core import REAL_TIME, Violation


class Ctx:
    """What a simulated process uses to talk to the simulator."""

    def __init__(self, out, inp):
        self.out, self.inp = out, inp

    def op(self, k, fn):
        os.write(self.out, b"i" + bytes([k]))
        r = pickle.dumps(fn())
        os.write(self.out, b"r" + bytes([k]) + struct.pack("<I", len(r)) + r)
        return r

    def wait(self, what=b"s"):
        os.write(self.out, what)
        if os.read(self.inp, 1) != b"g":
            os._exit(98)


class Cluster:
    def __init__(self, seed, mean=3, sequential=False):
        self.rng = random.Random(f"cluster:{seed}")
        self.mean = mean
        self.sequential = sequential
        self.history = []         # (step, process, "inv"|"ret"|"end", op, result)
        self.trail = []           # (process, number of calls it was allowed)
        self.switches = self.events = self.waits = 0

    def _slice(self):
        if self.sequential:
            return 1 << 60
        r = self.rng.random()
        return 1 if r < 0.3 else 1 + int(self.rng.expovariate(1.0 / (self.mean if r < 0.93 else 40 * self.mean)))

    def run(self, procs, directory, plans, timeout=60):
        """procs: functions of a Ctx.  Returns for each process its exit code, events, fired faults and event log."""
        kids = []
        try:
            for i, (fn, plan) in enumerate(zip(procs, plans)):
                kids.append(self._spawn(i, fn, directory, plan, kids))
            self._loop(kids, timeout)
        finally:
            for k in kids:
                if k["pid"]:
                    try:
                        os.kill(k["pid"], signal.SIGKILL)
                        os.waitpid(k["pid"], 0)
                    except OSError:
                        pass
                for f in (k["rd"], k["wr"]):
                    os.close(f)
        return [(k["code"], k["info"]) for k in kids]

    def _spawn(self, i, fn, directory, plan, before):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 99
            try:
                os.close(r1)
                os.close(w2)
                for k in before:
                    os.close(k["rd"])
                    os.close(k["wr"])
                ctx = Ctx(w1, r2)
                ctx.wait()
                time.sleep = lambda s: ctx.wait(b"b")
                disk = seams.Disk()
                disk.arm(directory, plan)
                disk.sched(w1, r2)
                fn(ctx)
                n = disk.disarm()
                disk.sched(-1, -1)
                r = pickle.dumps((n, disk.fired(), disk.log()))
                os.write(w1, b"d\0" + struct.pack("<I", len(r)) + r)
                code = 0
            except BaseException:
                if os.environ.get("VERIF_DEBUG"):
                    import traceback
                    traceback.print_exc()
            finally:
                os._exit(code)
        os.close(w1)
        os.close(r2)
        return {"pid": pid, "rd": r1, "wr": w2, "code": None, "info": None, "i": i}

    def _read(self, k, n, end):
        buf = b""
        while len(buf) < n:
            rd, _, _ = select.select([k["rd"]], [], [], max(0.0, end - REAL_TIME()))
            if not rd:
                raise TimeoutError(f"process {k['i']} neither goes on nor hands over control")
            c = os.read(k["rd"], n - len(buf))
            if not c:
                return None
            buf += c
        return buf

    def _until_stop(self, k, end):
        """Lets a process run until its next call: 's', 'e', 'b', or '' when it has ended."""
        while True:
            t = self._read(k, 1, end)
            if t is None:
                _, st = os.waitpid(k["pid"], 0)
                k["pid"] = 0
                k["code"] = os.waitstatus_to_exitcode(st)
                self.history.append((self.events, k["i"], "end", None, k["code"]))
                return ""
            t = t.decode()
            if t in "seb":
                return t
            op = self._read(k, 1, end)
            if t == "i":
                self.history.append((self.events, k["i"], "inv", op[0], None))
                continue
            n = struct.unpack("<I", self._read(k, 4, end))[0]
            val = pickle.loads(self._read(k, n, end))
            if t == "r":
                self.history.append((self.events, k["i"], "ret", op[0], val))
            else:
                k["info"] = val

    def _loop(self, kids, timeout):
        end = REAL_TIME() + timeout
        for k in kids:
            if self._until_stop(k, end) != "s":
                raise RuntimeError("a process ended before it started")
        alive = list(kids)
        cur, left, given, stuck = alive[0] if self.sequential else self.rng.choice(alive), self._slice(), 0, 0
        while alive:
            os.write(cur["wr"], b"g")
            t = self._until_stop(cur, end)
            self.events += 1
            given += 1
            left -= 1
            stuck = stuck + 1 if t == "b" else 0
            self.waits += t == "b"
            if stuck > 20000:
                raise Violation("deadlock", "the processes wait for one another for ever")
            if t == "":
                alive.remove(cur)
            if t == "" or t == "b" or left <= 0:
                others = [k for k in alive if k is not cur] or alive
                if not others:
                    break
                nxt = others[0] if self.sequential else self.rng.choice(others)
                if nxt is not cur:
                    self.switches += bool(t)
                    self.trail.append((cur["i"], given))
                    given = 0
                cur, left = nxt, self._slice()


def linearizable(ops):
    """Whether operations on one file are explained by doing them one after another.

    ops: (invocation time, time it ended, "save"|"load", value, must)
    A save that need not have happened (failed, process died) has must False.
    Returns an order of indices, or None.
    """
    ops = list(ops)
    inf = float("inf")
    n = len(ops)
    seen = set()

    def go(done, val):
        if all(done >> i & 1 or not ops[i][4] for i in range(n)):
            return []
        if (done, val) in seen:
            return None
        seen.add((done, val))
        limit = min((inf if ops[i][1] is None else ops[i][1]) for i in range(n) if not done >> i & 1 and ops[i][4])
        # An operation that returned before another one was invoked comes first.
        for i in range(n):
            if done >> i & 1 or ops[i][0] > limit:
                continue
            _, _, kind, v, must = ops[i]
            if kind == "load" and v != val:
                continue
            if not must and ops[i][1] is not None and any(done >> j & 1 and ops[j][0] > ops[i][1] for j in range(n)):
                continue        # it can have had its effect only while it was going on
            r = go(done | 1 << i, v if kind == "save" else val)
            if r is not None:
                return [i] + r
        return None
    return go(0, None)
