"""The simulator's driver: seeded scenarios, one forked process per run,
minimisation, replay files and evidence.

Everything a run does is a pure function of its scenario (a small JSON object)
and of the code in /repo; every scenario is a pure function of VERIF_SEED, the
property and the run's index.
"""
import gc
import hashlib
import importlib
import json
import os
import random
import resource
import select
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
REAL_TIME = time.time          # real clock, for budgets of the driver only
REAL_PERF = time.perf_counter
CPU_LIMIT = 60                 # seconds of processor time after which a run counts as never ending


class Violation(Exception):
    """The property does not hold.  klass identifies the kind of violation."""

    def __init__(self, klass, msg):
        super().__init__(msg)
        self.klass, self.msg = klass, msg


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:16]


class Cov:
    """What one run covered: counters, probes and state signatures."""

    def __init__(self):
        self.counts = {}
        self.faults = {}
        self.states = set()
        self.sim_time = 0.0
        self.steps = 0
        self.events = []       # the run's event log, digested for the determinism proof
        self.trivial = False
        self.resolved = {}     # what seeded choices resolved to (goes into the replay file)

    def hit(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def fault(self, name, n=1):
        if n:
            self.faults[name] = self.faults.get(name, 0) + int(n)

    def state(self, *sig):
        self.states.add(digest(*sig))

    def log(self, *ev):
        self.events.append(repr(ev))

    def pack(self):
        return {"counts": self.counts, "faults": self.faults, "states": sorted(self.states),
                "sim_time": self.sim_time, "steps": self.steps, "trivial": self.trivial,
                "log": digest(*self.events), "resolved": self.resolved}


def raised_in(e):
    """The function of the code under test that raised e by itself, if it did."""
    from . import seams
    if not isinstance(e, Exception) or isinstance(e, (seams.INJECTED, MemoryError, RecursionError)):
        return None
    where = None
    for frame, line in traceback.walk_tb(e.__traceback__):
        name = os.path.realpath(frame.f_code.co_filename)
        if name.startswith(seams.SRC) or name == seams.MAIN:
            where = f"{os.path.relpath(name, seams.ROOT)}:{frame.f_code.co_name}"
        elif name.startswith(os.path.join(VERIF, "dst") + os.sep):
            where = None
    return where


def execute(prop, sc):
    """Runs one scenario in this process."""
    cov = Cov()
    try:
        prop.run(sc, cov)
        out = {"status": "ok"}
    except Violation as v:
        out = {"status": "violation", "klass": v.klass, "msg": v.msg[:2000]}
    except BaseException as e:
        out = {"status": "error", "msg": traceback.format_exc()[-4000:]}
        where = raised_in(e)
        if where:
            out.update(status="violation", klass="raised", msg=f"{where} raised {type(e).__name__}: {str(e)[:300]} where it has to answer")
    out["cov"] = cov.pack()
    return out


def _spawn(prop, sc):
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.setpgid(0, 0)
            os.close(r)
            lim = int(getattr(prop, "CPU_LIMIT", CPU_LIMIT))
            resource.setrlimit(resource.RLIMIT_CPU, (lim, lim + 10))
            null = os.open(os.devnull, os.O_RDWR)
            os.dup2(null, 0)
            os.dup2(null, 1)
            if not os.environ.get("VERIF_DEBUG"):
                os.dup2(null, 2)
            out = execute(prop, sc)
            data = json.dumps(out).encode()
            while data:
                data = data[os.write(w, data):]
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    return pid, r


def _kill(pid):
    for k in (lambda: os.killpg(pid, signal.SIGKILL), lambda: os.kill(pid, signal.SIGKILL)):
        try:
            k()
        except OSError:
            pass


def run_many(prop, jobs, workers=None, timeout=None, on_result=None, stop=None):
    """Runs (key, scenario) jobs in forked children; yields through on_result."""
    workers = workers or int(os.environ.get("VERIF_WORKERS", "8"))
    timeout = timeout or getattr(prop, "RUN_TIMEOUT", 120)
    jobs = iter(jobs)
    live = {}
    results = {}
    gc.collect()
    gc.freeze()
    done = False
    while True:
        while not done and len(live) < workers and not (stop and stop()):
            try:
                key, sc = next(jobs)
            except StopIteration:
                done = True
                break
            pid, r = _spawn(prop, sc)
            live[r] = [pid, key, sc, b"", REAL_TIME() + timeout]
        if not live:
            break
        ready, _, _ = select.select(list(live), [], [], 0.5)
        now = REAL_TIME()
        for r in list(live):
            pid, key, sc, buf, dead = live[r]
            if r in ready:
                chunk = os.read(r, 1 << 20)
                if chunk:
                    live[r][3] = buf + chunk
                    continue
                os.close(r)
                _, st, used = os.wait4(pid, 0)
                _kill(pid)
                del live[r]
                try:
                    out = json.loads(buf)
                except ValueError:
                    out = {"status": "error", "msg": f"run died with wait status {st}", "cov": Cov().pack()}
                    if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGXCPU:
                        out.update(status="violation", klass="never_ended",
                                   msg=f"an operation neither returned nor failed (stopped after {int(used.ru_utime + used.ru_stime)} s of processor time; such runs take at most a few seconds)")
                    elif getattr(prop, "DEATH", None) and os.WIFSIGNALED(st) and os.WTERMSIG(st) in (4, 6, 7, 8, 11):
                        # A native crash of the code under test, not a kill.
                        out.update(status="violation", klass="process_died",
                                   msg=f"{prop.DEATH} (signal {os.WTERMSIG(st)})")
                out["cpu"] = used.ru_utime + used.ru_stime
            elif now > dead:
                _kill(pid)
                os.close(r)
                os.waitpid(pid, 0)
                del live[r]
                out = {"status": "timeout", "msg": f"no result within {timeout}s", "cov": Cov().pack()}
            else:
                continue
            results[key] = out
            if on_result:
                on_result(key, sc, out)
    gc.unfreeze()
    return results


def run_one(prop, sc, timeout=None):
    return run_many(prop, [(0, sc)], workers=1, timeout=timeout)[0]


def scenario(prop, seed, index, tier):
    rng = random.Random(f"{prop.ID}:{seed}:{index}")
    sc = prop.gen(rng, index, tier)
    sc["_"] = {"seed": seed, "index": index}
    return json.loads(json.dumps(sc))


def minimise(prop, sc, klass, budget):
    """Greedy shrinking: keep any simpler scenario failing in the same way."""
    shrink = getattr(prop, "shrink", None)
    tried = 0
    end = REAL_TIME() + budget
    best = sc
    if not shrink or klass == "never_ended":
        return best, tried
    progress = True
    while progress and REAL_TIME() < end:
        progress = False
        cands = [json.loads(json.dumps(c)) for c in shrink(json.loads(json.dumps(best)))]
        cands = [c for c in cands if c != best][:64]
        for lo in range(0, len(cands), 8):
            if REAL_TIME() > end:
                break
            batch = cands[lo:lo + 8]
            res = run_many(prop, list(enumerate(batch)), timeout=min(60, getattr(prop, "RUN_TIMEOUT", 120)))
            tried += len(batch)
            good = [i for i in sorted(res) if res[i]["status"] == "violation" and res[i]["klass"] == klass]
            if good:
                best = batch[good[0]]
                progress = True
                break
    return best, tried


class Inherited:
    """The process state a replay starts from: as this process found it, not as
    the code under test may have left it."""

    def __init__(self):
        self.env = {k: v for k, v in os.environ.items() if k != "VERIF_CHILD"}
        self.cwd = os.getcwd()
        self.umask = os.umask(0o022)
        os.umask(self.umask)
        self.cpus = os.sched_getaffinity(0)
        self.mask = signal.pthread_sigmask(signal.SIG_BLOCK, [])
        self.limits = {r: resource.getrlimit(r) for r in {v for k, v in vars(resource).items() if k.startswith("RLIMIT_")}}
        self.handlers = {n: signal.getsignal(n) for n in signal.valid_signals()}

    def restore(self):
        """Called in the child before it executes the replay."""
        for act in ([lambda: os.sched_setaffinity(0, self.cpus), lambda: os.umask(self.umask), lambda: signal.pthread_sigmask(signal.SIG_SETMASK, self.mask)]
                    + [lambda r=r, v=v: resource.setrlimit(r, v) for r, v in self.limits.items()]
                    + [lambda n=n, h=h: signal.signal(n, h) for n, h in self.handlers.items() if h in (signal.SIG_IGN, signal.SIG_DFL)]):
            try:
                act()
            except (OSError, ValueError):
                pass

    def run(self, args, timeout):
        return subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=self.env, cwd=self.cwd, preexec_fn=self.restore, timeout=timeout)


def check(pid, tier, seed):
    prop = importlib.import_module(f"dst.props.{pid.lower()}")
    t0 = REAL_TIME()
    inherited = Inherited()
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(evdir, "replays"), exist_ok=True)
    evfile = os.path.join(evdir, f"{pid}.json")
    if os.path.exists(evfile):
        os.unlink(evfile)
    prop.warm()
    t_warm = REAL_TIME() - t0
    n = prop.RUNS[tier]
    budget = prop.BUDGET[tier] if hasattr(prop, "BUDGET") else {"quick": 420, "thorough": 3600}[tier]
    bad, errors = [], []
    tot = {"counts": {}, "faults": {}, "sim_time": 0.0, "steps": 0, "trivial": 0, "done": 0, "cpu": 0.0}
    states, samples, logs = set(), [], {}
    state_growth = []

    def on_result(key, sc, out):
        cov = out["cov"]
        tot["done"] += 1
        tot["cpu"] = max(tot["cpu"], out.get("cpu", 0.0))
        for k in ("counts", "faults"):
            for a, b in cov[k].items():
                tot[k][a] = tot[k].get(a, 0) + b
        tot["sim_time"] += cov["sim_time"]
        tot["steps"] += cov["steps"]
        tot["trivial"] += bool(cov["trivial"])
        states.update(cov["states"])
        if tot["done"] % max(1, n // 10) == 0:
            state_growth.append(len(states))
        logs[key] = (out["status"], cov["log"])
        if len(samples) < 3 and out["status"] == "ok" and not cov["trivial"]:
            samples.append({"scenario": sc, "resolved": cov["resolved"], "log_digest": cov["log"]})
        if out["status"] == "violation":
            bad.append((key, sc, out))
        elif out["status"] != "ok":
            errors.append((key, sc, out))

    def stop():
        return bool(bad) or REAL_TIME() - t0 > budget or len(errors) > 20

    run_many(prop, ((i, scenario(prop, seed, i, tier)) for i in range(n)), on_result=on_result, stop=stop)

    # Determinism: a sample of the runs again, at another worker count.
    again = {}
    if not bad and not errors:
        keys = sorted(logs)
        sample = random.Random(seed).sample(keys, min(len(keys), prop.RECHECK if hasattr(prop, "RECHECK") else max(4, len(keys) // 25)))
        again = run_many(prop, [(k, scenario(prop, seed, k, tier)) for k in sample], workers=5)
        for k, out in again.items():
            if out["status"] == "violation":
                bad.append((k, scenario(prop, seed, k, tier), out))
            elif (out["status"], out["cov"]["log"]) != logs[k]:
                errors.append((k, {}, {"status": "error", "msg": f"run {k} is not repeatable: {logs[k]} then {(out['status'], out['cov']['log'])}"}))

    violations = []
    errors_hard = errors
    if bad:
        bad.sort(key=lambda b: b[0])
        seen = set()
        for key, sc, out in bad:
            if out["klass"] in seen:
                continue
            seen.add(out["klass"])
            small, tried = minimise(prop, sc, out["klass"], 45 if len(seen) == 1 else 10)
            final = run_one(prop, small)
            if final["status"] != "violation":
                small, final = sc, run_one(prop, sc)
            path = os.path.join(evdir, "replays", f"{pid}-seed{seed}-run{key}.json")
            with open(path, "w") as f:
                json.dump({"property": pid, "seed": seed, "run": key, "klass": out["klass"],
                           "message": final.get("msg", out["msg"]), "scenario": small,
                           "resolved": final["cov"]["resolved"], "log_digest": final["cov"]["log"],
                           "original_scenario": sc, "shrink_attempts": tried}, f, indent=1)
            # The replay file must reproduce the violation in a fresh process.
            # (Code under test that has become nondeterministic in a way no seam controls,
            # e.g. by process numbers, violates again and again but never identically.)
            codes = []
            for _ in range(3):
                p = inherited.run([sys.executable, os.path.join(VERIF, "check.py"), pid, "--replay", path], 400)
                codes.append(p.returncode)
                if p.returncode != 3:
                    break
            if codes[-1] == 1 or codes == [3, 3, 3]:
                note = "" if codes[-1] == 1 else " [violated in every replay, but with different details: the code under test is not deterministic]"
                violations.append((path, out["klass"], final.get("msg", out["msg"]) + note))
            else:
                errors_hard.append((key, sc, {"status": "error", "msg": f"violation {out['klass']} ({out['msg'][:500]}) did not replay in a fresh process: {p.stdout.decode()[-1500:]}"}))
            if len(violations) >= 3:
                break

    wall = REAL_TIME() - t0
    nontrivial = tot["done"] - tot["trivial"]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {
              "evaluations": tot["done"],
              "distinct_nontrivial": min(nontrivial, len({l for _, l in logs.values()})),
              "rule": prop.RULE,
              "samples": samples or [{"scenario": bad[0][1]}] if (samples or bad) else ["none completed"],
              "simulated_runs": tot["done"],
              "runs_per_hour": round(3600 * tot["done"] / max(wall - t_warm, 1e-3)),
              "seeds": f"VERIF_SEED={seed}, run seeds {pid}:{seed}:0..{max(logs, default=0)}",
              "simulated_time_covered_s": round(tot["sim_time"], 3),
              "simulated_steps": tot["steps"],
              "faults_fired": dict(sorted(tot["faults"].items())),
              "probes": dict(sorted(tot["counts"].items())),
              "distinct_states": len(states),
              "distinct_states_measure": prop.STATES,
              "distinct_states_growth_by_tenth": state_growth,
              "determinism_rechecked_runs": len(again),
              "real_components": prop.REAL,
              "stub_components": prop.STUB,
              "longest_run_cpu_s": round(tot["cpu"], 2),
              "planned_runs": n, "warm_up_s": round(t_warm, 1),
          },
          "assumptions": prop.ASSUMPTIONS, "wall_s": round(wall, 1), "violations": len(violations)}
    with open(evfile, "w") as f:
        json.dump(ev, f, indent=1)
    for path, klass, msg in violations:
        print(f"  {klass}: {msg[:600]}")
        print(f"VIOLATION property={pid} replay={path}")
    if violations:
        return 1
    if errors_hard:
        for key, sc, out in errors_hard[:3]:
            print(f"HARNESS ERROR in run {key}: {out['status']}: {out['msg']}\n scenario: {json.dumps(sc)[:1500]}", file=sys.stderr)
        return 2
    if tot["done"] < n * 0.5:
        print(f"HARNESS ERROR: only {tot['done']} of {n} runs fitted in the {budget}s budget", file=sys.stderr)
        return 2
    print(f"OK property={pid} runs={tot['done']} nontrivial={nontrivial} states={len(states)} wall={wall:.1f}s")
    return 0


def replay(pid, path):
    prop = importlib.import_module(f"dst.props.{pid.lower()}")
    with open(path) as f:
        rec = json.load(f)
    prop.warm()
    out = run_one(prop, rec["scenario"])
    if out["status"] == "violation":
        same = out["klass"] == rec.get("klass") and out["cov"]["log"] == rec.get("log_digest")
        print(f"  {out['klass']}: {out['msg'][:1500]}")
        print(f"  log digest {out['cov']['log']} ({'identical to' if same else 'differs from'} the recorded run)")
        print(f"VIOLATION property={pid} replay={path}")
        return 1 if same else 3
    print(f"replay: {out['status']} {out.get('msg', '')}")
    return 0 if out["status"] == "ok" else 2
