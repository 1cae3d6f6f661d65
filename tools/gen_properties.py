#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the file stays valid)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": observe, "hook_needed": hook}})

SIM, VAR, SCG = "src/var_bayes/simulation.py", "src/var_bayes/variational.py", "src/numerics/optim_scg.py"
SP, DW, OU = "src/dynamics/stochastic_process.py", "src/dynamics/double_well.py", "src/dynamics/ornstein_uhlenbeck.py"
L63, L96 = "src/dynamics/lorenz_63.py", "src/dynamics/lorenz_96.py"
NOTEST = "No existing test reaches this code: the stable tests cover Gaussian moments and a few numerical helpers only. "

prop("C01", "A seeded simulation is exactly repeatable",
     "Two simulations set up from the same parameters and the same given random seed (any integer, zero included) produce bit-identical sample path, observations, variational solution and stored results. Nothing else about the environment may influence them: not the clock, the state of global random generators, hash randomisation, the working directory, the simulation's name or earlier memory use. A different seed selects a different realisation.",
     ["configurations", "schedules", "histories"], "all models, solvers, seeds and parameter sets; all clock behaviours, entropy states and interpreter environments",
     NOTEST + "Repeatability quantifies over every seed and every environment; a test runs one seed in one environment.",
     [SIM, SP, DW, OU, L63, L96, SCG], [("seeded generator owned by the model", SP + ":StochasticProcess.__init__"), ("all draws taken from that generator", SIM + ":Simulation.setup")],
     ["model.sample_path", "Simulation.output", "the .h5 result file"], [("rand_g", "generator all randomness is drawn from", SP)])
prop("C02", "Simulations sharing a process do not influence one another",
     "When several simulations are used in one process, one after another or interleaved in any order by concurrent threads, each produces exactly the sample path, observations, solution and stored results it produces when run alone. The parameter dictionaries handed in by the caller are not changed, and one dictionary can serve many simulations, also when the caller refills it for the next before the others have run.",
     ["schedules", "histories", "configurations"], "every interleaving of the statements of concurrently running simulations and every sequence of earlier simulations in the process",
     NOTEST + "Isolation must hold for every interleaving and history; tests run single-threaded on fresh objects.",
     [SIM, VAR, SP, SCG, "src/numerics/ode_solver.py", "src/var_bayes/likelihood.py"], [("all state kept per instance", SIM + ":Simulation.__init__"), ("per-run solver, likelihood and optimiser objects", SIM + ":Simulation.run")],
     ["Simulation.output", "model.sample_path", "the .h5 result file"])
prop("C03", "Saved results read back exactly",
     "Loading the file a successful save produced returns every result array of that simulation under its own name with the same shape, type and bit-exact values (scalars as one-element arrays), and nothing else. This holds for any sequence of saves, overwrites and loads of several simulations, and on disks that transfer data in short pieces or interrupt calls. Saving and loading change neither the results held in memory nor files of other simulations.",
     ["histories", "inputs", "fault_sequences"], "every history of save / re-save / load over several names, every array content (including NaN, infinities, signed zero), every pattern of short transfers and interrupted calls",
     NOTEST + "save and load are never called by a test, and the guarantee ranges over histories and disk behaviours.",
     [SIM], [("one compressed dataset per result", SIM + ":Simulation.save"), ("load of every dataset", SIM + ":load")], ["load(file)", "Simulation.output"])
prop("C04", "A result that could not be stored is never reported as stored",
     "If saving returns without an error, the result file holds the complete, correct results. Any disk error that keeps data from reaching the file (full disk, I/O error on any write, truncation, rename or close, once or persistently) surfaces to the caller as an error.",
     ["fault_sequences", "crash_points"], "every position and kind of disk fault during a save, for small and multi-chunk results",
     NOTEST + "Which of the many system calls of one save fails, and how, cannot be enumerated by example tests, and no test saves at all.",
     [SIM], [("writes forced and checked before the file is closed", SIM + ":Simulation.save")], ["return / exception of save()", "load(file)"])
prop("C05", "An interrupted or failed save never leaves wrong results",
     "Whatever instant a save is killed or fails at, the file under the simulation's name either does not load or loads as one complete result set: the new one, or the one stored there before. Complete results stored earlier, under this or any other name, survive. Saving again after a restart succeeds.",
     ["crash_points", "fault_sequences", "histories"], "every crash instant (between and inside writes) and every failing system call of a save, with and without earlier results",
     NOTEST + "Quantifies over crash points; a test cannot kill the process inside each write.",
     [SIM], [("results written aside and moved into place when complete", SIM + ":Simulation.save")], ["load(file) after the crash", "directory contents"])
prop("C06", "The command line reports success only for a stored, complete run",
     "The program exits with status zero and announces completion only if it ran the given parameters to the end and the named result file holds that run's complete results. Missing, unreadable, truncated or invalid parameters, and any failure at any point of set-up, inference or saving (numerical error, exhausted memory, disk fault, interrupt), end in a non-zero status without the completion message.",
     ["fault_sequences", "configurations", "crash_points"], "every parameter file, every failing statement of the pipeline and every disk fault",
     NOTEST + "No test runs the program; the failure may strike at any statement of the pipeline.",
     ["vgpa_main.py", SIM], [("failures turned into exit status 1", "vgpa_main.py:main"), ("parameter file validation", "vgpa_main.py:validate_input_parameters_file")], ["exit status", "standard output", "the .h5 result file"])
prop("C07", "A failed attempt leaves nothing behind: a retry equals a fresh run",
     "If setting up, running or saving a simulation fails at any point, repeating the failed step, or the whole set-up / run / save sequence, on the same object with the same parameters gives exactly the results of an undisturbed run. Repeating a step that succeeded also changes nothing.",
     ["fault_sequences", "histories"], "every failing statement in set-up, run or save, any number of failed attempts before the successful one",
     NOTEST + "Quantifies over the failure point and the history of attempts.",
     [SIM, VAR, SCG, SP], [("state assigned afresh by each step", SIM + ":Simulation.setup"), ("evaluation stores its results only when complete", VAR + ":VarGP.free_energy")], ["Simulation.output", "the .h5 result file"])
prop("C08", "Free energy and gradient depend on the query point, not on history",
     "The free energy at a point is the same whatever was evaluated before, including evaluations that failed half-way. The gradient requested together with a fresh evaluation, or directly after evaluating the free energy at the same point, is the gradient belonging to that point and never to an earlier one. Evaluation does not alter the point passed in, the observations or the initial moments.",
     ["histories", "fault_sequences"], "every sequence of free-energy and gradient requests, including caller reuse of the same array, evaluations of several problems in turn, evaluators of one model or of different ones working at the same time in interleaved threads, and failures at any statement",
     NOTEST + "The evaluator keeps state between calls; its correctness ranges over call histories, none of which is tested.",
     [VAR, "src/var_bayes/fwd_ode.py", "src/var_bayes/bwd_ode.py", "src/var_bayes/gaussian_like.py"], [("moments and multipliers stored by the evaluation, read by the gradient", VAR + ":VarGP.gradient")], ["free energy", "gradient"],
     [("output", "moments, multipliers and expectations of the last evaluated point", VAR)])
prop("C09", "The results of a run all describe one and the same solution",
     "When a run ends, for whatever reason (convergence, vanishing gradient, iteration limit after an accepted or a rejected step, numerical failure at trial points), the variational parameters, marginal moments, multipliers, expectations and free energy it reports all belong to the same point: evaluating the reported parameters afresh reproduces every other reported quantity. The reported free energy is not above that of the starting point.",
     ["histories", "fault_sequences", "configurations"], "every way the optimisation can end and every sequence of accepted, rejected and failed trial evaluations",
     NOTEST + "Which evaluation came last depends on the optimisation history; tests never run an inference.",
     [SIM, VAR, SCG], [("outputs merged after the optimisation", SIM + ":Simulation.run")], ["Simulation.output"])
prop("C10", "The optimiser returns the best accepted point, even if the objective misbehaves",
     "For every objective, including ones that are noisy, non-smooth, inconsistent with their gradient, or that overflow or return NaN at some points or for some time, the optimiser returns a point it actually evaluated together with the value obtained there, never above the value at the starting point (when that is a number). Accepted values never increase, the caller's starting vector is not modified, and what was returned does not change later.",
     ["inputs", "fault_sequences", "histories"], "every objective and every sequence of misbehaving evaluations",
     "The optimiser's own tests fail on this tree (they call it with an incompatible gradient) and cover two clean functions; misbehaving evaluations are never tried.",
     [SCG], [("comparison ratio decides acceptance", SCG + ":SCG.__call__")], ["returned point and value", "statistics"])
prop("C11", "The optimiser stays within its iteration budget and keeps honest statistics",
     "Whatever the objective does, an optimisation performs at most the configured number of iterations, a bounded number of evaluations per iteration, and then returns; when the limit ended it, it says so. The reported statistics agree with what happened: evaluation counts equal the evaluations actually made, and the per-iteration trace holds the objective value current after each iteration. A later optimisation with the same object starts its statistics afresh.",
     ["inputs", "fault_sequences", "configurations"], "every objective, fault sequence and option setting",
     "No passing test runs the optimiser at all.",
     [SCG], [("bounded main loop", SCG + ":SCG.__call__"), ("statistics dictionary", SCG + ":SCG.statistics")], ["number of evaluations", "statistics", "standard output"])
prop("C12", "The optimiser makes progress once faults stop",
     "After a burst of spurious, unusable function values at trial points ends (not-a-number for any length of time, overflowing values for up to a dozen evaluations), the optimiser recovers by itself: on smooth objectives with a single minimum it reaches that minimum within a bounded number of further iterations, and a simulation's inference still lowers the free energy.",
     ["fault_sequences", "inputs", "histories"], "every convex problem of bounded conditioning and every finite burst of bad evaluations",
     "Recovery after faults is never exercised; no passing test runs the optimiser.",
     [SCG], [("scale parameter adapted after rejected steps", SCG + ":SCG.__call__")], ["returned point and value"])
prop("C13", "Sample paths are the model's equation driven by exactly the drawn noise",
     "A generated path lives on a uniform time grid covering the requested window, and each step is the model's drift at the previous state times the time step plus one fresh Gaussian increment with the configured covariance per unit time, independent across steps and components. This holds for every sequence of random draws, extreme ones included, and regenerating a path replaces it without touching the model's parameters.",
     ["histories", "configurations"], "every stream of random draws, every model and noise setting (scalar, vector, full matrix), every window",
     NOTEST + "Quantifies over all realisations of the noise; statistical tests on samples cannot pin each increment.",
     [DW, OU, L63, L96, SP], [("Euler-Maruyama recursion on pre-drawn increments", L63 + ":Lorenz63.make_trajectory")], ["model.sample_path", "model.time_window"])
prop("C14", "Observations are fresh noisy readings of the path at regular interior times",
     "Collecting observations returns the requested density of readings at strictly increasing, evenly spread sample times inside the window; each is the path's value there (restricted to the observed components) plus an independent, freshly drawn Gaussian error of the configured variance. However often and in whatever order it is done, collecting leaves path, time grid and parameters untouched, and asking for more readings than there are samples is refused.",
     ["histories", "configurations"], "every stream of random draws, density, noise form, mask and sequence of collections and path regenerations",
     NOTEST + "Quantifies over all noise realisations and histories of collections.",
     [SP], [("noise drawn per collection and added to a copy", SP + ":StochasticProcess.collect_obs")], ["returned times, values, noise", "model.sample_path"])
prop("C15", "A model always reflects its last accepted parameters",
     "After any sequence of parameter updates, accepted, rejected as invalid, or failed, a model behaves exactly like one newly built with the last accepted values: the noise covariance and its inverse always belong together, and a rejected or failed update changes nothing. Noise that is not positive (positive-definite) or has wrong dimensions is always refused.",
     ["histories", "fault_sequences"], "every sequence of valid, invalid and internally failing updates of noise and drift",
     NOTEST + "Quantifies over update histories and failure points; setters are never tested.",
     [DW, OU, L63, L96], [("validation and cached inverse in the setters", L63 + ":Lorenz63.sigma")], ["sigma", "inverse_sigma", "theta", "energy()"],
     [("sig_inv", "cached inverse of the noise covariance", L63)])
prop("C16", "Loading returns the stored results or fails, whatever the disk does",
     "Loading a result file returns exactly the complete stored results or raises an error: read errors, short or interrupted reads, a truncated file and damaged stored array data never lead to missing, shortened or altered results. A failed load does not alter the file, and loading again once the disk recovers succeeds.",
     ["fault_sequences", "crash_points"], "every position and kind of read fault, truncation point and flipped bit in stored array data",
     NOTEST + "No test loads a result; the fault positions cannot be enumerated by example.",
     [SIM], [("load of every dataset", SIM + ":load"), ("checksummed compression of stored arrays", SIM + ":Simulation.save")], ["load(file)"])
prop("C23", "Concurrent saves and loads of a result file behave as if done one after another",
     "When several processes, or threads of one process, save and load results under the same or different names at the same time, everything happens as if the operations had been done one after another: each load returns one complete result set, the one whose save took effect last (or finds no file if there was none), a save that returned is in effect for everyone, and a save that failed or whose process died took effect entirely or not at all. Working at the same time is by itself no reason for a save or a load to fail, and nothing left behind by a process that died or failed prevents others from saving and loading.",
     ["schedules", "crash_points", "fault_sequences", "histories"], "every interleaving of the system calls (statements) of concurrent savers and readers, every crash point and disk error of any of them",
     NOTEST + "The outcome depends on the order of system calls of different processes, which no test controls.",
     [SIM], [("complete temporary file renamed into place", SIM + ":Simulation.save"), ("one open of the file per load", SIM + ":load")], ["load(file)", "return / exception of save()", "the .h5 file"])
prop("C24", "Inference uses exactly the observations it was given",
     "A simulation set up with supplied observations (times as positions on the time grid, and values; in tuples, lists, arrays or a dictionary) infers from exactly these values at these times with the observation noise of its own parameters, whatever was set up, run or had failed before with the same object. Feeding a simulation's own observations back to a new one gives the same free energy and gradient at the same variational parameters, and the supplied data are never changed; what the caller does with its own arrays and parameters after set-up makes no difference.",
     ["histories", "fault_sequences", "configurations"], "every history of earlier set-ups, runs and failures, every container, count and placement of supplied observations",
     NOTEST + "The path with supplied observations is never exercised, and the outcome depends on what the object did before.",
     [SIM, VAR, "src/var_bayes/gaussian_like.py"], [("supplied or generated observations", SIM + ":Simulation.setup"), ("data term of the free energy", "src/var_bayes/gaussian_like.py:GaussianLikelihood.__call__")], ["free energy", "gradient", "saved obs_t, obs_y, obs_noise"])
prop("C25", "The course of an optimisation depends only on objective, start, tolerances",
     "Two optimisations of the same deterministic objective from the same start with the same tolerances ask for the same function and gradient values in the same order and return the same result. A smaller iteration limit only cuts this course off; progress display, gradient checks, the shape in which the start is given, earlier optimisations with the same object (failed or interrupted ones included) and other optimisations at the same time, in threads or nested inside the objective, change nothing.",
     ["histories", "schedules", "fault_sequences"], "every history of optimisations with an object, every interleaving of several, every iteration limit",
     "No passing test runs the optimiser at all; independence of history and schedule quantifies over all of them.",
     [SCG], [("all working state made new in each call", SCG + ":SCG.__call__")], ["sequence of evaluations", "returned point and value", "statistics"])
prop("C26", "Every operation leaves process and directory as it found them",
     "Whether it succeeds or fails, an operation (set-up, run, save, load, optimisation, path generation, collecting observations) leaves nothing behind but its result: no open file, lock, temporary file, thread or child process, no changed setting of the process (random state, floating-point error handling, working directory, environment, signal handlers, warning filters, standard streams, limits), and no other file changed. Failures repeated any number of times use nothing up: saving and loading still work.",
     ["histories", "fault_sequences", "crash_points"], "every operation, point of failure and number of repetitions",
     NOTEST + "Leaks show only after failures at particular points or after many repetitions, which no test produces.",
     [SIM, SCG, SP], [("temporary file removed when saving fails", SIM + ":Simulation.save"), ("file closed by the with-block", SIM + ":load")], ["open files", "the directory", "settings of the process"])
prop("C27", "Simulations without a seed are independent realisations",
     "A simulation set up without a seed takes its randomness from the operating system's entropy and from nothing else: any two of them have different, unrelated paths and observation errors, whether set up at the same instant, one after another, with the same object again, in interleaved threads or forked processes, after failed set-ups, after global generators were seeded, or between seeded simulations.",
     ["histories", "schedules", "configurations"], "every sequence and interleaving of unseeded and seeded set-ups, in threads and forked processes, at any reading of the clock",
     NOTEST + "Tests set nothing up without a seed twice; correlated realisations show only under particular clocks, forks or histories.",
     [SIM, SP], [("default generator created without a seed", SP + ":StochasticProcess.__init__"), ("seed handed to the generator", SIM + ":Simulation.setup")], ["model.sample_path", "observations"])
# ---- pure functions of their input: listed, not claimed --------------------
NA = "Quantifies over all real inputs; the tests sample a handful of random ones, and not in this part of the code."
prop("C17", "The gradient is the gradient of the free energy",
     "For every model, solver and variational parameters the reported gradient agrees with the derivative of the reported free energy up to the discretisation error of the time step.",
     ["inputs", "configurations"], "all models, solvers and variational parameters", NA, [VAR, "src/var_bayes/bwd_ode.py"], [("adjoint (Lagrange multiplier) sweep", VAR + ":VarGP.gradient")], ["free energy", "gradient"])
prop("C18", "Forward and backward solvers reach their stated order",
     "Each integration method reproduces the solution of the linear moment and multiplier equations with an error that shrinks at the method's order, and keeps covariances symmetric.",
     ["inputs", "configurations"], "all linear and offset parameters, noise and step sizes", NA, ["src/numerics/euler.py", "src/numerics/heun.py", "src/numerics/runge_kutta2.py", "src/numerics/runge_kutta4.py"], [("one-step formulas", "src/numerics/runge_kutta4.py:RungeKutta4.solve_fwd")], ["mt, st, lam, psi"])
prop("C19", "Path energies are the exact Gaussian expectations and their derivatives",
     "The energy of each model equals the Gaussian expectation of the squared distance between drift and linear approximation (to the accuracy of the unscented transform for the 40-dimensional model), and its reported derivatives are derivatives of that expectation.",
     ["inputs"], "all moments, parameters and models", NA, [DW, OU, L63, L96], [("closed-form expectations", L63 + ":Lorenz63.energy_dm_ds")], ["energy()"])
prop("C20", "Gaussian moments, likelihood and initial divergence match their closed forms",
     "Gaussian moments up to order eight and their derivatives, the expected Gaussian log-likelihood of the observations and the divergence of the initial state from its prior equal their textbook closed forms.",
     ["inputs"], "all means, covariances, observations", "Tests check orders 0 to 2 of the moments only; likelihood and prior are untested.", ["src/var_bayes/gaussian_moments.py", "src/var_bayes/gaussian_like.py", "src/var_bayes/prior_kl0.py"], [("closed forms", "src/var_bayes/gaussian_moments.py:GaussianMoments.__call__")], ["return values"])
prop("C21", "Numerical helpers compute what they name",
     "Piecewise trapezoidal integration equals the plain rule for any break points, the Cholesky-based inverse and log-determinant match their definitions on positive-definite input, safe logarithm clamps, and the unscented transform is exact for linear maps.",
     ["inputs"], "all admissible inputs", "Tests use a few random inputs.", ["src/numerics/utilities.py"], [("helper functions", "src/numerics/utilities.py:my_trapz")], ["return values"])
prop("C22", "Invalid model configuration is refused with an error",
     "Unknown models or integration methods, non-positive steps, non-positive-definite noise and mismatched dimensions are refused when the object is built.",
     ["configurations"], "all configurations", NOTEST, [SIM, "src/var_bayes/fwd_ode.py", "src/var_bayes/bwd_ode.py", DW, OU, L63, L96], [("constructor checks", "src/var_bayes/fwd_ode.py:FwdOde.__init__")], ["exceptions"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
