#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below; properties without a check module go under not_applicable."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC = "TLC design model + trace validation of replayed specification behaviours against the real code"
TV = "TLC trace validation: scenarios generated from a TLA+ specification, replayed in the real code, observations decided by the specification"
T = {
 "C01": ("model_checking", TV, "All distance vectors over 0..3 up to length 4 (6 thorough) with every kernel and 19 bandwidths, plus random larger ones; the specification computes each weight. Assumes F64.java is IEEE arithmetic."),
 "C02": ("model_checking", TV, "Random histories of reconfiguration of one distance object; every distance vector recomputed by Distances.tla, every error case decided."),
 "C03": ("model_checking", MC, "HandleHeap.tla explored exhaustively (value semantics of a heap of shared parts); all pairs of operations and random histories replayed under AddressSanitizer."),
 "C04": ("model_checking", TV, "Random configurations of basic GWR (all kernels, metrics, storage options, serial and OpenMP); coefficients, hat matrix, traces, standard errors, leverage and diagnostics recomputed by Regression.tla. Local systems with a scaled condition number above 1e7 are not judged numerically."),
 "C05": ("model_checking", TV, "Histories mixing fits and predictions at any number of locations; every coefficient row recomputed by the specification."),
 "C06": ("model_checking", TV, "Scores of candidate bandwidths and variable subsets, and automatic selections, recomputed by the specification, including the refusals."),
 "C07": ("model_checking", MC, "GoldenModel.tla exhaustive over all score functions on small ranges; its behaviours and random large ones replayed."),
 "C08": ("model_checking", MC, "ForwardModel.tla exhaustive for up to 3 variables and 3 scores; random larger ones replayed."),
 "C09": ("model_checking", TV, "RunTrace.tla: the result of a call is a function of its configuration without the mode of execution; every algorithm with OpenMP under 1 to 30 threads, delayed at random where they poll, must agree with the serial run up to rounding, and fail when it fails. Selections may part at scores equal up to rounding. Schedules are sampled."),
 "C10": ("model_checking", MC, "MpiModel.tla: the share-out, agreement and gathering of a distributed fit, exhaustive for up to 4 processes and 6 samples (safety and termination). MpiTrace.tla: basic and multiscale fits under 1 to 9 processes, more than samples too, against the serial run; processes that fail alone; serial runs after distributed ones; products of spread matrices for arbitrary row splits. Message orders are sampled; stopping a distributed run is not judged."),
 "C11": ("model_checking", TV, "RunTrace.tla: every call stopped at every place it listens (at most 60 per call, spread), for good or once: status, dimensions, stages, and the results of later calls."),
 "C12": ("model_checking", TV, "RunTrace.tla: random histories of reconfigurations, calls, cancelled and failing calls; each result must be that of a fresh object configured the same (bit for bit when serial). Selected bandwidths and mixing factors are part of the configuration from then on."),

 "C13": ("model_checking", TV, "MgwrSpec.tla simulates back-fitting sweep by sweep along the recorded reports: initial model, univariate refits, accumulated hat matrix, convergence criterion, stopping rule, bandwidth selections and diagnostics. Selected bandwidths are known with six decimals."),
 "C14": ("model_checking", TV, "Filtering and iterative modes simulated by RobustSpec.tla (outlier mask, re-weighting rounds, stopping rule), then the fit under the resulting mask recomputed. Rounds whose stopping test or outlier test is within rounding of its limit are not judged."),
 "C15": ("model_checking", TV, "GgwrSpec.tla simulates the iterative re-weighting (local and global models): coefficients, working weights, hat matrix, standard errors, diagnostics, CV and AICc scores, selections and predictions. Means at the edge of their range and stopping tests decided by rounding are not judged."),
 "C16": ("model_checking", TV, "ScalSpec.tla: neighbourhoods, base kernel, polynomial weights, coefficients, predictions, score and diagnostics recomputed at the reported scale and penalty, which must score no worse than the starting values. Traces follow the library's definition (pinned by its tests); ambiguous neighbourhoods and condition numbers above 3e4 are not judged."),
 "C17": ("model_checking", TV, "LcrSpec.tla recomputes condition numbers (Jacobi eigenvalues), ridges, coefficients, criteria and diagnostics for random configurations. Designs with a smallest singular value below 1e-6 are not judged."),
 "C18": ("model_checking", TV, "GtwrSpec.tla: the fit, its statistics, criteria and bandwidth selection under the space-time distance with future samples out of reach; the search of the mixing factor is simulated until rounding decides a comparison, and the reported value must lie in the interval left."),
 "C21": ("model_checking", TV, "GwdrSpec.tla: product weights over one to three dimensions; fits, predictions, scores, variable selection, and the reports of the bandwidth optimisation, recomputed by the specification. Bandwidths tried by the optimiser are known with six decimals."),
 "C19": ("model_checking", TV, "SummarySpec.tla recomputes every local statistic (moments, quantiles, covariances, Pearson and Spearman correlations) in average and correlation mode. Statistics dividing by vanishing variances, means or degrees of freedom are not judged; quantile ties accept either neighbour."),
 "C20": ("model_checking", TV, "SummarySpec.tla: loadings orthonormal and eigenvectors of the recomputed local covariance, in decreasing order, percentages and deviations those of its eigenvalues."),
 "C22": ("model_checking", TV, "SummarySpec.tla recomputes the local means, covariances, priors and scores of every class (linear and quadratic, local and global moments, hold-out), assignments, correct rate, probabilities and entropy. Degenerate class covariances and condition numbers above 1e7 are not judged numerically; the score is the library's (log of the spectral norm)."),
 "C23": ("model_checking", TV, "ReportTrace.tla: the stages of every algorithm as a grammar, reports in their own stage under their heading, one report per candidate along the golden-section walk, equal to the recorded lists; progress within its total, reaching it, the same bag in every mode; severities; runs without a listener agree. The reporting macros are driven directly with every severity."),
 "C24": ("model_checking", TV, "Validity.tla: every combination of set, unset and ill-fitting settings per algorithm (sampled for the multiscale model in the quick run) and random histories of settings and runs; the question is asked after every step, twice. Whether a search needs a positive starting bandwidth is left open."),
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T and os.path.exists(os.path.join(V, "tools", "props", i.lower() + ".py")):
        lv, tq, note = T[i]
        checks.append({"property": i, "quick_cmd": "python3 tools/check.py %s quick" % i,
                       "thorough_cmd": "python3 tools/check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": tq, "level": lv, "level_note": note})
    else:
        na.append({"property": i, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo are needed: the harnesses observe the public API, protected state through subclasses, and the Logger interface."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
