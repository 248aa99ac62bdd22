#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that lines stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=hook)))
IF = "src/frds/algorithms/isolation_forest/"
IFS = [IF + "IsolationForest.cpp", IF + "IsolationForest.hpp", IF + "iforest_module.cpp", IF + "__init__.py"]
G = "src/frds/algorithms/_garch.py"; MG = "src/frds/algorithms/_mgarch.py"
UT = ["src/frds/algorithms/utils/utils_module.cpp", "src/frds/algorithms/utils/garch.hpp", "src/frds/algorithms/utils/mgarch.hpp"]
ME = ["src/frds/measures/measures_module.cpp", "src/frds/measures/lrmes.hpp"]
LR = "src/frds/measures/_long_run_mes.py"; SR = "src/frds/measures/_srisk.py"
PIN = "src/frds/measures/_probability_of_informed_trading.py"; DIP = "src/frds/measures/_distress_insurance_premium.py"
MM = "src/frds/measures/modified_merton/"

p("C01", "Anomaly scores do not depend on threads, timing or history",
  "For the same table, number of trees, tree size and random seed, the isolation forest gives every row exactly the same score, bit for bit. This holds on any number of processors, under any interleaving of its worker threads, whatever the process computed before, and whatever other threads compute at the same time.",
  ["schedules", "configurations", "histories", "inputs"],
  "every interleaving of the worker threads (down to single memory accesses), every worker count from 1 up (and an unknown processor count), every earlier or concurrent call, every content of fresh heap memory, for generated tables and parameters",
  "No test calls the isolation forest at all; a test would see one interleaving on one machine's processor count, and a race that shifts the last bit of a score shows once in many runs.",
  IFS, [("each tree has its own random engine, sample and slot", IF + "IsolationForest.cpp: grow"),
        ("each row is scored by one worker", IF + "IsolationForest.cpp: calAnomalyScores"),
        ("the seed of a tree follows from its position, the number of rows and the random seed", IF + "IsolationForest.cpp: grow")],
  [("trees", "the forest under construction, shared by the workers", IF + "IsolationForest.hpp"),
   ("anomalyScores", "scores, each written by one worker", IF + "IsolationForest.hpp")],
  ["frds.algorithms.isolation_forest.anomaly_scores"])

p("C02", "Every tree counts once and scores each row along the path it was grown",
  "A forest of k trees of size m is exactly k trees, each grown on its own random sample of min(m, rows) distinct rows to a height of at most ceil(log2 m), and growing more trees from the same seed keeps the earlier ones. Every row is scored once, over all trees, along the path on which the tree was grown: smaller values to the left, a missing value being the smallest, and texts ordered by length and then alphabetically. The score is 2^-(mean path length / expected path length of a tree of size m), in (0, 1], under the row's own index label, and excluded columns and columns that are neither numbers nor texts have no influence.",
  ["inputs", "configurations", "schedules"],
  "every table (missing, duplicate and constant values, infinities, texts of any length, no numeric or no text column, fewer rows than workers or than the tree size), number of trees (also not divisible by, or fewer than, the workers), tree size, seed, worker count and interleaving",
  "No test calls the isolation forest, and no fixed example tells a lost, repeated or reused tree, a skipped row at a partition boundary or a value routed differently in growing and scoring from an ordinary random forest.",
  IFS, [("the workers' ranges of trees and of rows partition the work", IF + "IsolationForest.cpp: grow, calculateAnomalyScores"),
        ("growing and scoring share one routing rule", IF + "IsolationForest.cpp: growTree, pathLength"),
        ("columns are split by type and excluded columns dropped", IF + "__init__.py")],
  [], ["frds.algorithms.isolation_forest.anomaly_scores"])

p("C03", "The forest survives running out of memory or threads",
  "If memory is refused or a worker thread cannot be started at any point of a forest call, the call raises a Python exception or returns the right scores. It never ends or hangs the process, never leaves a worker thread running, and never changes the caller's table. The next call, once resources are back, returns the right scores.",
  ["fault_sequences", "schedules", "inputs"],
  "every allocation and every thread start that a call makes, failing once, from then on, or at random, under every interleaving of the workers",
  "Tests never refuse memory or threads; these failures cannot be provoked from Python at a chosen point.",
  IFS, [("a failure in a worker is carried to the caller", IF + "IsolationForest.cpp: grow"),
        ("workers already started are joined before the failure is raised", IF + "IsolationForest.cpp: grow, calculateAnomalyScores"),
        ("C++ exceptions become Python exceptions", IF + "iforest_module.cpp")],
  [], ["frds.algorithms.isolation_forest.anomaly_scores"])

p("C04", "Scoring neither blocks nor is disturbed by other Python threads",
  "While a forest is grown and while its rows are scored, other Python threads can run. Calls made from several threads at once each return the scores of their own arguments. A call works on its own copy of the table: it never changes the caller's, and rows that other threads change while the trees grow or score do not alter its result.",
  ["schedules", "histories", "inputs"],
  "every interleaving of the calling threads, their workers and threads that change the tables involved",
  "Tests run one thread; a missing release of the interpreter lock or a shared buffer shows only under concurrent callers.",
  IFS, [("the interpreter lock is released around both native phases", IF + "IsolationForest.cpp: grow, calculateAnomalyScores"),
        ("the table is copied before the native phase", IF + "__init__.py"),
        ("all state of a call is in a local object", IF + "iforest_module.cpp")],
  [], ["frds.algorithms.isolation_forest.anomaly_scores"])

p("C05", "A GARCH or GJR-GARCH estimate is all or nothing, and stays",
  "A univariate model reports success only with a complete and consistent estimate: the returned parameters are the model's and within the model's constraints, the log-likelihood and the conditional variances are those of exactly these parameters on the model's returns, and the residuals are the returns less their mean parameter (zero in a zero-mean model). A failed or interrupted estimation leaves the model reporting no success, and a later successful one gives what an undisturbed fresh model gives. Once estimated, fitting again, or after saving and restoring the model, returns the same estimate without estimating again.",
  ["fault_sequences", "crash_points", "histories", "inputs"],
  "every sequence of fit, interrupt at any point, optimiser that fails or raises, pickling or copying in any state and later fits, for both models, with and without a mean, on generated returns of any length, layout and number type",
  "Tests fit one series once with an optimiser that converges; none fails, interrupts, repeats or saves a fit.",
  [G] + UT, [("results are assigned together and success last", G + ": fit"),
             ("an estimated model is not estimated again", G + ": fit"),
             ("variances are recomputed at the estimate", G + ": fit")],
  [("estimation_success, parameters, resids, sigma2", "the estimate", G)],
  ["GARCHModel.fit", "GJRGARCHModel.fit"])

p("C06", "A multivariate GARCH estimate is all or nothing and leaves shared models right",
  "A CCC, DCC or GJR-DCC model reports success only if both univariate models succeeded and the correlation step did, and then its parameters lie within the model's constraints and its log-likelihood and conditional correlations are those of these parameters. Univariate models may be shared among several multivariate models, estimated before or not: the results do not depend on the order of estimations, and an estimated univariate model is never changed. A failed or interrupted estimation reports no success, and a later successful one gives what an undisturbed fresh model gives.",
  ["fault_sequences", "crash_points", "histories", "inputs"],
  "every order of estimating several multivariate models over shared univariate models, with optimiser failures in any step, interrupts at any point, saving and restoring, on generated returns",
  "One test fits one CCC model once; no test shares models, fails a step or interrupts, and DCC models have no test of their own.",
  [MG, G] + UT, [("success requires both univariate estimates", MG + ": fit"),
                 ("univariate estimates are made once", G + ": fit"),
                 ("success is set last", MG + ": fit")],
  [("model1, model2", "univariate models, possibly shared", MG), ("estimation_success, parameters", "the estimate", MG)],
  ["GARCHModel_CCC.fit", "GARCHModel_DCC.fit", "GJRGARCHModel_DCC.fit", "conditional_correlations"])

p("C07", "Estimations in concurrent threads are independent and restore process settings",
  "Estimations on different objects running in several threads at once give exactly what they give one after another, for every estimator and measure. Once the last of them has returned, failed or been interrupted, the process's warning filters, floating-point error handling and global random state are what they were before.",
  ["schedules", "fault_sequences", "crash_points"],
  "every interleaving of two or more estimations of any kind (GARCH family, LRMES, SRISK, PIN, and the other measures) at the granularity of Python lines, with optimiser failures and interrupts",
  "Tests run one estimation at a time and never look at process-wide settings.",
  [G, MG, PIN, LR, SR, DIP, MM + "mod_merton_simulation.py"],
  [("changes to the shared warning filters are serialised", G + ": warnings_lock"),
   ("floating-point errors are silenced in the thread only", PIN + ": estimate"),
   ("state lives in the estimator object", G)],
  [("warnings.filters", "process-wide", "python"), ("numpy error state", "per thread", "numpy")],
  ["fit()/estimate() of every estimator"])

p("C08", "Monte Carlo measures follow from their inputs and seed alone",
  "LRMES, SRISK, the distress insurance premium and the modified Merton computations return exactly the same value for the same inputs and random seed: whatever else drew random numbers before or meanwhile, in this thread or another, and however often or in which order estimates were made. Different seeds draw differently, and none of them reads, seeds or advances the process's global random generators.",
  ["histories", "schedules", "inputs"],
  "every history of estimates and of uses and seedings of the global generators, and every interleaving with other threads doing the same, for generated inputs and seeds",
  "Tests call a measure once with one seed; they would not notice a global or shared generator, because a fresh process hides it.",
  [LR, SR, DIP, MM + "mod_merton_computation.py", MM + "mod_single_cohort_computation.py", MM + "mod_merton_create_lookup.py", MM + "mod_single_merton_create_lookup.py"],
  [("every call makes its own generator from the seed", LR + ": estimate; " + DIP + ": estimate; " + MM + "mod_merton_computation.py")],
  [("rng", "generator local to a call", LR)], ["LRMES.estimate", "SRISK.estimate", "DistressInsurancePremium.estimate", "mod_merton_computation", "mod_single_cohort_computation"])

p("C09", "Native acceleration is transparent",
  "Whether or not each compiled helper extension can be loaded, and in whichever combination and order modules are imported, importing works and the GARCH family, LRMES and SRISK give the same results up to rounding. This holds for every function of the models that has a native version, for arrays of any length, memory layout and number type.",
  ["configurations", "fault_sequences", "inputs"],
  "every subset of the helper extensions failing to load (with the exceptions a broken or missing extension raises as ImportError), every import order, generated parameters, returns and innovations, including values at the variance bounds, infinities and NaN",
  "The tests run with the extensions built; the Python fallbacks are never executed, let alone compared.",
  [G, MG, LR] + UT + ME, [("each module falls back to Python on ImportError", G + "; " + MG + "; " + LR),
                          ("native helpers get contiguous doubles", G + ": compute_variance, ewma, bounds_check")],
  [("USE_CPP_EXTENSION", "which implementation a module uses", G)],
  ["GARCHModel.compute_variance/ewma/bounds_check", "GARCHModel_DCC.conditional_correlations", "LRMES.simulation", "fit/estimate"])

p("C10", "LRMES and SRISK never turn a failed estimation into a number",
  "If any estimation step behind an LRMES or SRISK value fails, the call raises instead of returning a number, and returns the undisturbed value when called again once steps succeed. A firm's SRISK is capital factor x debt - (1 - capital factor) x (1 - LRMES) x equity with that firm's own LRMES, whatever other firms are in the panel and in which order. The aggregate is the sum of the firms' positive values.",
  ["fault_sequences", "crash_points", "histories", "inputs"],
  "every pattern of failing, raising or interrupted optimiser calls over the firms' and the market's univariate and correlation steps, on panels of one to several firms in any order, with repeated calls",
  "One test computes one SRISK panel in which every optimisation converges.",
  [LR, SR, MG, G], [("a failed DCC estimation raises", LR + ": estimate"),
                    ("each firm has its own models", SR + ": estimate"),
                    ("shortfalls are clipped at zero before summing", SR + ": estimate")],
  [], ["LRMES.estimate", "SRISK.estimate"])

p("C11", "The bundled stock returns are complete and right, or an error is raised",
  "Reading the bundled stock-return data set gives the complete data, or raises an error if the file cannot be read in full: it never returns partial or altered data. A failed or interrupted read leaves nothing behind, so that a later read, once the file is readable, gives the complete data; reads from several threads at once all give the complete data.",
  ["fault_sequences", "crash_points", "schedules"],
  "every open, read, short-read or seek failure, truncation and stored-byte corruption of the file that its checksums reveal, interrupts at any point, and every interleaving of concurrent first reads, followed by further reads",
  "Only one test reads the data set, once, from an intact file.",
  ["src/frds/datasets/_stocks.py", "src/frds/datasets/__init__.py"],
  [("the cache is assigned only after a complete read", "src/frds/datasets/_stocks.py: stocks_us"),
   ("the archive's checksum is verified by the reader", "pandas.read_csv")],
  [("_stocks_us", "the cached data", "src/frds/datasets/_stocks.py")], ["frds.datasets.StockReturns.stocks_us"])

p("C12", "Native helpers survive running out of memory",
  "If memory is refused at any point inside a native variance, correlation or LRMES simulation helper, the call raises MemoryError or returns the right result. The process goes on, the arguments are unchanged, and later calls return the right results, also through the models and measures that use the helpers.",
  ["fault_sequences", "inputs"],
  "every allocation made during a helper call (C++, numpy data and Python objects), failing once or from then on, for generated arguments",
  "Tests never refuse memory; a C++ exception that leaves an extension function ends the process only then.",
  UT + ME, [("C++ exceptions become MemoryError", UT[0] + ": no_throw; " + ME[0]),
            ("every allocation result is checked", UT[0])],
  [], ["frds.algorithms.utils.utils_ext functions", "frds.measures.measures_ext.simulation", "GARCHModel.fit"])

p("C13", "PIN reports the best successful candidate of its grid, or no success",
  "A PIN estimation that reports success returns the candidate with the highest log-likelihood among the optimisations from its grid of starting values that succeeded, whichever ones failed, and its parameters (within the model's bounds), log-likelihood, PIN = alpha mu / (alpha mu + eps_b + eps_s) and method belong together. If none succeeds, or the estimation raises or is interrupted, no success is reported and no earlier estimate is presented as the new one. Repeated estimations with either method, in any order, give what a fresh object gives.",
  ["fault_sequences", "crash_points", "histories", "inputs"],
  "every pattern of failing, raising and interrupted optimisations over the grid, every order of repeated estimations with both methods, any order in which good and bad candidates come, on generated trades",
  "PIN has no test; a test would use an optimiser that succeeds everywhere.",
  [PIN], [("the best candidate is kept apart until the grid is done", PIN + ": estimate")],
  [("parameters, estimation_success", "the estimate", PIN)], ["PIN.estimate"])

p("C14", "The distress insurance premium is sound for every random stream",
  "For every stream of random numbers its simulation can draw, extreme draws included, and any random seed, the premium is returned without error, is finite, and lies between 0 and the number of banks. It is the mean simulated loss beyond the threshold, to the 1% resolution of its loss distribution: with the same draws it does not increase when the threshold rises, and is 0 when no simulated loss comes within that resolution of the threshold.",
  ["inputs", "schedules"],
  "every legal outcome of the normal and triangular draws (including the ends of their ranges, ties, all or no banks defaulting), every seed, any number of banks from one, correlation matrix, default probabilities, threshold and number of simulations",
  "The test uses one seed; the failing draws are rare tails of the random stream.",
  [DIP], [("loss intervals cover the whole range of losses", DIP + ": estimate"), ("an empty tail gives zero", DIP + ": estimate")],
  [], ["DistressInsurancePremium.estimate"])

p("C15", "The modified Merton simulation delivers all its figures or raises",
  "When the modified Merton simulation returns, every figure file it announces is complete in the given directory (the current one by default) and nothing was written elsewhere; if a file cannot be written in full, it raises. Success, failure or interrupt, it leaves the process's warning filters, error handling and global random state as they were, and running it again once writing works delivers the figures and the same printed table.",
  ["fault_sequences", "crash_points", "histories"],
  "every failure to open, write or close a figure file (full disk, I/O error, short write), interrupts at any point, and repeated runs with and without faults",
  "The module could not even be imported; no test runs it, and none makes a write fail.",
  [MM + "mod_merton_simulation.py"], [("figures are saved under the given directory", MM + "mod_merton_simulation.py: simulate"),
                                     ("warning filters are restored", MM + "mod_merton_simulation.py: simulate")],
  [], ["frds.measures.modified_merton.mod_merton_simulation.simulate"])

p("C16", "Measures keep no hidden state and leave their inputs alone",
  "Every measure returns for given inputs the same value whatever was computed before with it or other measures, in whichever order, on a new or a used object, in this or another thread, and after calls that raised or were interrupted. It never changes the arrays, frames or numbers given to it, not even for a moment, so that threads may share them.",
  ["histories", "schedules", "crash_points", "inputs"],
  "every sequence of calls of every public measure and estimator with inputs of differing sizes, number types, layouts and missing values, interleaved in several threads over shared inputs, with errors and interrupts in between",
  "Each test calls a measure once per process on inputs it does not look at again.",
  ["src/frds/measures/_absorption_ratio.py", "src/frds/measures/_contingent_claim_analysis.py", "src/frds/measures/_kyle_lambda.py",
   "src/frds/measures/_marginal_expected_shortfall.py", "src/frds/measures/_systemic_expected_shortfall.py", "src/frds/measures/_option_price.py",
   "src/frds/measures/_z_score.py", "src/frds/measures/lob_slope.py", "src/frds/measures/spread.py", "src/frds/measures/price_impact.py", DIP, PIN, LR, SR],
  [("results are computed from arguments and object attributes only", "src/frds/measures"),
   ("cached values belong to one object's unchanging input", "src/frds/measures/_absorption_ratio.py")],
  [("cached_property", "per-object cache", "src/frds/measures/_absorption_ratio.py")], ["frds.measures.*"])

# ---- stated, but outside what deterministic simulation can decide
p("C17", "Option prices satisfy put-call parity and contingent claims their equations",
  "Black-Scholes call and put prices satisfy put-call parity and no-arbitrage bounds, and contingent-claim analysis returns asset value and volatility that solve its equations.",
  ["inputs"], "all valid parameters", "Tests sample a few parameter sets.",
  ["src/frds/measures/_option_price.py", "src/frds/measures/_contingent_claim_analysis.py"], [("closed-form formulas", "src/frds/measures/_option_price.py")])
p("C18", "GARCH estimates maximise the likelihood",
  "The GARCH family's estimates are maximum-likelihood estimates of the documented models for every return series.",
  ["inputs"], "all return series", "Tests compare a few series with published estimates.",
  [G, MG], [("SLSQP over the documented likelihood", G)])
p("C19", "Liquidity and spread measures follow their definitions",
  "Spreads, price impact, order-book slope, Kyle's lambda, Z-score, marginal and systemic expected shortfall equal their published formulas.",
  ["inputs"], "all inputs", "Tests sample few or no inputs.",
  ["src/frds/measures/spread.py", "src/frds/measures/price_impact.py", "src/frds/measures/lob_slope.py", "src/frds/measures/_kyle_lambda.py", "src/frds/measures/_z_score.py", "src/frds/measures/_marginal_expected_shortfall.py", "src/frds/measures/_systemic_expected_shortfall.py"], [("formulas", "src/frds/measures")])
p("C20", "The absorption ratio lies between 0 and 1 and grows with the fraction",
  "The absorption ratio lies in [0, 1], does not decrease in the fraction of eigenvectors and is 1 for all of them.",
  ["inputs"], "all return matrices", "Tests sample one matrix.",
  ["src/frds/measures/_absorption_ratio.py"], [("eigenvalues of the covariance", "src/frds/measures/_absorption_ratio.py")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
