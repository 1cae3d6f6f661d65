"""Writes MANIFEST.json from one table (run after adding a check)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation: "
CHECKS = {
 "C01": ("seeded environments (clock, global random state, hash seed, name, directory, memory) around one seeded simulation, results compared bit for bit",
         "Sampled environments; bit-identity of everything produced. One machine and one set of libraries; numerical library threads fixed to one."),
 "C02": ("seeded thread schedules (one thread released at a time, switching at statements or bytecodes) and sequential histories, compared with runs alone",
         "Sampled interleavings of the real code at statement/bytecode granularity; switches inside C code are not explored."),
 "C03": ("histories of saves, overwrites and loads on a simulated disk with short transfers and interrupted calls, against a model store",
         "Sampled histories; comparison is bit-exact. Real h5py/HDF5 under a system-call shim."),
 "C04": ("fault injection on every system call of a save (error, full disk, torn transfer), file judged by an independent reader at the instant save returns",
         "Sampled fault positions cover every system call of small saves many times over; no power loss modelled."),
 "C05": ("crash points, torn writes, statement kills and disk errors during seeded histories of saves; recovery judged by fresh processes",
         "Process death only (what the operating system accepted survives); sampled crash points."),
 "C06": ("the real command line run under seeded faults at statements, system calls and parameter files, outcome compared with exit status, message and file",
         "Sampled fault points over the whole program; interpreter start-up itself is not disturbed."),
 "C07": ("failures injected at seeded statements and system calls of set-up, run and save, then retried and compared with an undisturbed run",
         "Sampled statements of the repository's Python code (compiled numba kernels are atomic)."),
 "C08": ("seeded histories of evaluations, failing evaluations and gradient requests on one evaluator, against evaluators with no history",
         "Sampled histories and points; comparison to rounding."),
 "C09": ("inference driven to every kind of ending by simulated evaluation faults and iteration limits; reported parameters evaluated afresh",
         "Sampled faults; comparison to rounding against a fresh evaluator of the same code."),
 "C10": ("real optimiser against a simulated objective service (noise, lies, overflow, NaN, bursts), judged on the recorded history",
         "Sampled objectives and faults."),
 "C11": ("real optimiser against a simulated objective service; statistics compared with the recorded history; evaluation and statement budgets",
         "Sampled objectives and faults; termination is judged by a step budget."),
 "C12": ("bursts of unusable values injected, then bounded-time liveness checked on smooth objectives and on inference",
         "Progress bounds are calibrated, generous constants."),
 "C13": ("simulated entropy source (recorded, zero, impulse, extreme draws) behind the models; path residuals compared with the draws",
         "Sampled models, windows and draws."),
 "C14": ("simulated entropy source and histories of collecting; readings compared with path and draws",
         "Sampled windows, densities, masks and histories."),
 "C15": ("histories of valid, invalid and failing parameter updates, model compared with a newly built one after every step",
         "Sampled histories; failures injected inside the matrix inversion."),
 "C16": ("loads on a simulated disk with read errors, short reads, flipped bits, damaged array data and truncation; recovery in the same process",
         "Sampled damage; HDF5 metadata damage is outside the property."),
 "C23": ("real processes stopped before every system call on a shared simulated disk (or threads switched at statements), with crashes and disk errors; histories checked for linearizability",
         "Sampled interleavings at system-call granularity on one machine; process death only."),
 "C24": ("seeded histories of set-ups, runs and failing operations of one simulation object before observations are supplied, compared with fresh objects and an independent data term",
         "Sampled histories, placements and containers."),
 "C25": ("real optimiser under seeded histories, thread schedules, nesting, limits and interruptions; its recorded course compared with an undisturbed one",
         "Sampled objectives, histories and interleavings; comparison is bit-exact."),
 "C26": ("seeded histories of operations with failures at statements and system calls, repeated with few descriptors; process and directory compared before and after each",
         "Sampled operations, faults and repetitions; settings compared are those listed in DESIGN.md."),
 "C27": ("seeded histories of unseeded set-ups over threads, forks, stopped clocks and failures; realisations compared pairwise and traced to the entropy drawn",
         "Sampled histories and schedules; independence is judged by differing draws and small correlation."),
}
NA = {
 "C17": "pure function of its input (gradient against finite differences of the free energy): no schedule, time, I/O or fault can change it, so simulation has nothing to decide",
 "C18": "pure function of its input (numerical order of deterministic solvers): no schedule, time, I/O or fault to simulate",
 "C19": "pure function of its input (closed-form expectations): no schedule, time, I/O or fault to simulate",
 "C20": "pure function of its input (closed-form moments, likelihood and divergence): no schedule, time, I/O or fault to simulate",
 "C21": "pure function of its input (numerical helpers): no schedule, time, I/O or fault to simulate",
 "C22": "pure validation of constructor arguments, without history or fault (the noise part, which has a history, is in C15; the command-line part in C06)",
}
have = [c for c in CHECKS if os.path.exists(os.path.join(HERE, "dst", "props", c.lower() + ".py"))]
m = {"version": 1, "setup_cmd": "python3 check.py --build",
     "checks": [{"property": c, "quick_cmd": f"python3 check.py {c}", "thorough_cmd": f"python3 check.py {c} --thorough",
                 "evidence_file": f"evidence/{c}.json", "technique": T + CHECKS[c][0], "level": "exploration", "level_note": CHECKS[c][1]} for c in have],
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()] +
                       [{"property": c, "reason": "check not built yet"} for c in CHECKS if c not in have],
     "notes": "No hooks in /repo: all seams are existing ones (generators held by the models, the objective handed to the optimiser, "
              "Python tracing, the C library under h5py). fix: commits are listed in known_findings.txt."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
