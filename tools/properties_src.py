import json
P=[]
def p(id,title,st,over,text,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":m,"where":w} for m,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
SW="src/gwmodelpp/spatialweight/"
HS="include/gwmodelpp/spatialweight/"
S="src/gwmodelpp/"; H="include/gwmodelpp/"
p("C01","Kernel weights follow the documented kernel and bandwidth meaning",
 "For every vector of distances, every kernel and every usable bandwidth, each weight equals the documented kernel formula at that distance: it lies in [0,1], never increases with distance, and the three compact kernels give exactly zero from the bandwidth outwards. An adaptive bandwidth b smaller than the number of distances means the b-th smallest distance (linearly interpolated between neighbours for fractional b), and one not smaller means b/n times the largest distance. A fixed bandwidth is used as it is, and weighting never depends on the order in which the distances are listed.",
 ["inputs","configurations"],"all distance vectors (ties, zeros, single points included), the five kernels, fixed/adaptive, all bandwidths >= 1 adaptive or > 0 fixed",
 "Tests only compare whole-model diagnostics on one 100-point data set with a few bandwidths; boundary distances, ties, fractional and over-long adaptive bandwidths are never reached.",
 [SW+"BandwidthWeight.cpp",HS+"BandwidthWeight.h",HS+"SpatialWeight.h"],
 [("kernel functions and bandwidth conversion",SW+"BandwidthWeight.cpp weight()")],obs=["weight of a distance vector","weight vector of a spatial weight at a focus"])
p("C02","Distances follow the documented metric for every focus and point set",
 "For every focus index and point set, each distance object returns the documented metric from that focus to every data point in order: Euclidean or WGS-84 great-circle, Minkowski of any positive order with axis rotation (order 1 Manhattan, order 2 Euclidean, order -1 Chebyshev), one-dimensional absolute difference, or the spatio-temporal combination lambda*s + (1-lambda)*t + 2*sqrt(lambda*(1-lambda)*s*t), whose last term is multiplied by |cos angle| when an angle other than a right one is configured, and in which later samples are out of reach. The reported largest and smallest distances are exactly the extremes of the distances the same object returns over all its foci. Asking without points, with a focus out of range, or with malformed point sets raises an error rather than returning a vector.",
 ["inputs","configurations","histories"],"all point sets, focus/data set sizes, focus indices, metric parameters, and sequences of reconfiguration on one object",
 "Only Euclidean distance on one data set (and indirectly one space-time setting) is exercised; no test looks at a distance vector, at Minkowski metrics, at geographic coordinates or at error cases.",
 [SW+"CRSDistance.cpp",SW+"MinkwoskiDistance.cpp",SW+"OneDimDistance.cpp",SW+"CRSSTDistance.cpp",SW+"DMatDistance.cpp",HS+"MinkwoskiDistance.h",HS+"CRSDistance.h"],
 [("metric calculators, parameter checks, extremes","distance(), maxDistance(), minDistance(), makeParameter() of each distance class")])
p("C03","Weighting configurations are independent values",
 "A weighting configuration (a kernel weight with a distance) that is copied, assigned, moved, cloned, or handed to or read from a model behaves like a value: it gives the same weights as its source did at that moment, and later changes to either one never change the other. Self-assignment changes nothing, an empty configuration can be copied and assigned like any other, and a moved-from one reports itself as not valid.",
 ["histories"],"all finite sequences of construct/copy/assign/move/replace/modify/read operations over several handles and distance kinds",
 "Tests create each configuration once and use it once; aliasing, copy of empty handles and copy of already parameterised distances only show over operation histories.",
 [SW+"SpatialWeight.cpp",HS+"SpatialWeight.h",HS+"BandwidthWeight.h",SW+"CRSDistance.cpp",SW+"OneDimDistance.cpp",SW+"CRSSTDistance.cpp",SW+"DMatDistance.cpp",SW+"MinkwoskiDistance.cpp"],
 [("clone, copy, move and assignment of handles",HS+"SpatialWeight.h")],
 state=[("handle contents","kernel, bandwidth, metric and points held by each handle",HS+"SpatialWeight.h")])
p("C04","Basic GWR fit is the local weighted least squares solution with its statistics",
 "For every data set on which each local system is solvable, the coefficients fitted at sample i solve the weighted normal equations with the weights centred at i, and fitting fails with an error when one is not solvable. The hat matrix, its trace pair, the standard errors, the residual-leverage diagonal and the diagnostics (RSS, AIC, AICc, ENP, EDF, R2, adjusted R2) all agree with those coefficients by their definitions. When the hat matrix is not requested the coefficients are the same.",
 ["inputs","configurations"],"all data sets, kernels, bandwidths, distance metrics, intercept/hat-matrix settings",
 "Tests compare five-number summaries and diagnostics of one data set at a handful of bandwidths with a relative tolerance; standard errors, hat matrix, leverage and local equations are never checked.",
 [S+"GWRBasic.cpp",H+"GWRBasic.h",S+"GWRBase.cpp"],
 [("local solve and hat matrix accumulation",S+"GWRBasic.cpp fitBase/fitCore*"),("diagnostics",S+"GWRBasic.cpp CalcDiagnostic")])
p("C05","Prediction returns the local regression at each requested location",
 "For every set of prediction locations (fewer, more, or as many as the samples), predicting with the basic, robust and locally-compensated models returns one coefficient row per location, in the given order, equal to the local regression whose weights are centred at that location over all samples. Predicting at the sample locations gives the coefficients a fit gives, and predicting does not change what a later fit or prediction returns.",
 ["inputs","histories","configurations"],"all location sets, all configurations, and fit/predict call sequences",
 "Tests predict once, at the sample locations, on one data set.",
 [S+"GWRBasic.cpp",S+"GWRRobust.cpp",S+"GWRLocalCollinearity.cpp"],
 [("prediction distance set-up and local solve",S+"GWRBasic.cpp predict, createPredictionDistanceParameter")])
p("C06","Bandwidth and variable criteria equal their definitions, or are refused",
 "For every candidate bandwidth or variable subset, the score used for automatic selection equals its documented definition: leave-one-out squared prediction error for CV, and the corrected AIC of the local model restricted to that candidate for AIC. A candidate whose local models cannot be solved, or whose score is not a finite number, gets the largest representable score so that it is never chosen. Scoring a candidate leaves the model's own bandwidth and data unchanged.",
 ["inputs","configurations"],"all candidates, data sets, kernels, criteria, serial and parallel execution, across the GWR, GTWR, locally-compensated and density regression models",
 "Tests only look at the finally selected bandwidth on one data set where no candidate is degenerate.",
 [S+"GWRBasic.cpp",S+"GTWR.cpp",S+"GWRLocalCollinearity.cpp",S+"GWDR.cpp"],
 [("criterion functions",S+"*.cpp bandwidthSizeCriterion*/indepVar*Criterion*")])
p("C07","Automatic bandwidth selection returns the best bandwidth it evaluated, in range",
 "For every objective function and every search range, bandwidth selection terminates and returns a bandwidth inside the given range (a whole number when adaptive) with the same kernel and mode as the one given, obtained by golden-section narrowing: each evaluation keeps the side of the better score, and no evaluated bandwidth scored better than the result. The recorded list contains exactly the evaluated bandwidths with their finite scores, without those refused. A selection interrupted by the caller hands back the bandwidth it was given, and when no starting candidate is usable it raises an error.",
 ["inputs","histories"],"all objective functions (including refused candidates), all ranges, adaptive and fixed, interruption at any evaluation",
 "Tests run it on three smooth criteria of one data set and compare the final number.",
 [S+"BandwidthSelector.cpp",H+"BandwidthSelector.h",H+"IBandwidthSelectable.h"],
 [("golden-section loop",S+"BandwidthSelector.cpp optimize")])
p("C08","Variable selection is greedy forward selection with the stated threshold",
 "For every scoring of variable subsets, selection evaluates at each round every one-variable extension of the best subset of the previous round, in the given candidate set, and extends by the best-scoring one; the recorded list holds exactly the evaluated subsets with their scores. The recorded list is ordered by rounds and, within a round, from the worst to the best score. The returned subset is the last recorded one whose score is lower than that of its predecessor in the list by at least the threshold; when there is none, or when the caller interrupts the selection, all candidates are returned. The result is always a subset of the candidates without repetition, empty only when there are no candidates, whatever their number.",
 ["inputs","histories"],"all scorings (including ties and refused subsets), candidate sets of any size, thresholds, interruption at any evaluation",
 "Tests run it with three or so variables and one data set; the fall-back cases and single-variable case are never run.",
 [S+"VariableForwardSelector.cpp",H+"VariableForwardSelector.h",H+"IVarialbeSelectable.h"],
 [("round loop and final threshold scan",S+"VariableForwardSelector.cpp")])
p("C09","Multi-threaded execution gives the serial results",
 "For every algorithm that offers multi-threading, every number of threads and every thread schedule, the results (coefficients, statistics, criteria, selected bandwidths and variables, errors raised) are the same as those of serial execution, up to floating-point summation order.",
 ["schedules","configurations","inputs"],"all algorithms, thread counts from 1 to more than the number of samples, all schedules, all data sets",
 "Tests run one thread count once per algorithm on one data set, and several algorithms' parallel modes are not compared at all.",
 [S+"GWRBasic.cpp",S+"GWRRobust.cpp",S+"GWRMultiscale.cpp",S+"GWRGeneralized.cpp",S+"GWRLocalCollinearity.cpp",S+"GTWR.cpp",S+"GWDR.cpp",S+"GWSS.cpp",S+"GWDA.cpp"],
 [("per-thread accumulation and reduction","*Omp functions")])
p("C10","Distributed execution gives the serial results on every process",
 "For every number of worker processes and every sample size, including sizes the workers cannot share evenly, fitting in distributed mode terminates on all processes, and the root process obtains the same coefficients, statistics, criteria and selected bandwidths as a serial run. The distributed matrix product equals the ordinary product for every split of the rows.",
 ["schedules","inputs","configurations"],"all process counts, row splits, data sets, criteria, for the basic and multiscale models and the distributed matrix product",
 "Tests use one fixed process count and one data set whose size leaves few remainder cases, and positive coefficients.",
 [S+"GWRBasic.cpp",S+"GWRMultiscale.cpp",S+"utils/armampi.cpp"],
 [("row partition, broadcast, gather and reduce","*Mpi functions"),("distributed product",S+"utils/armampi.cpp")])
p("C11","Cancellation at any point ends the run cleanly",
 "If the caller asks to stop at any point at which the algorithm listens, the call returns without crashing or hanging, the status tells that it was terminated, and every matrix returned has the documented dimensions. If the caller never asks to stop, the status is success. No later stage is announced after the stop was seen.",
 ["histories","schedules","configurations"],"every poll position of every algorithm, serial and parallel, with and without automatic selections",
 "Tests stop at the announcement of each stage for some algorithms; positions inside loops, selectors and parallel regions are not enumerated.",
 [H+"Logger.h",H+"Algorithm.h",S+"*.cpp"],
 [("stop polling macros",H+"Algorithm.h"),("status propagation","each fit()/run()/predict()")])
p("C12","A run depends only on the current configuration, not on earlier runs",
 "Running an algorithm object again gives the results a fresh object with the same configuration gives, whatever was run on it before: an identical run, a run with other data, bandwidth, kernel, criterion or parallel mode, a prediction, a failed run, or a cancelled run.",
 ["histories"],"all sequences of configure/run/predict/cancel/fail on one object, for every algorithm",
 "Tests use a fresh object for each call.",
 [S+"*.cpp",H+"Algorithm.h"],
 [("per-run initialisation of results and status","each fit()/run()")],
 state=[("object state","status, cached matrices, distance points, last criteria","members of each algorithm class")])
p("C13","Multiscale GWR is a back-fitting fixed point with per-variable scales",
 "On return each variable's coefficients are its univariate local regression, with that variable's own weights, of the partial residual left by all the others, to within the convergence tolerance, and specified bandwidths are used unchanged while selected ones lie in their search range. Iteration stops at the first sweep whose relative change falls below the threshold or at the iteration limit, and the diagnostics agree with the coefficients and the accumulated hat matrix.",
 ["inputs","configurations"],"all data sets, per-variable kernels/bandwidths/centring/initialisation, convergence settings",
 "Tests compare summaries on one data set with a few settings.",
 [S+"GWRMultiscale.cpp",H+"GWRMultiscale.h"],
 [("back-fitting loop",S+"GWRMultiscale.cpp backfitting")])
p("C14","Robust GWR re-weights or removes exactly the outlying samples",
 "In filtering mode the final fit is the local regression with every sample whose studentised residual in the plain fit exceeds 3 in magnitude removed from all local systems; in iterative mode the returned fit is the local regression under the bounded residual weights computed from the previous iterate, reached by the documented stopping rule. With no sample beyond the residual limits the result equals the plain fit.",
 ["inputs","configurations"],"all data sets with any number of outliers, kernels, bandwidths, serial and parallel",
 "Tests compare summaries on one data set.",
 [S+"GWRRobust.cpp",H+"GWRRobust.h"],
 [("mask computation and refit",S+"GWRRobust.cpp")])
p("C15","Generalised GWR solves the weighted Poisson and binomial models",
 "For every count or 0/1 response, the local coefficients solve the local weighted least squares problem on the working response and working weights of the last re-weighting step, which iterates until the change in log-likelihood falls below the tolerance or the iteration limit is hit; the diagnostics and the global model diagnostics agree with their definitions. The coefficients do not depend on whether the hat matrix is requested. Candidate bandwidths are scored by the cross-validation error or AICc of that re-weighted model, and predictions at other locations use its last working response and weights.",
 ["inputs","configurations"],"all Poisson/binomial data sets, kernels, bandwidths, hat-matrix settings, tolerances",
 "Tests compare summaries on one data set per family.",
 [S+"GWRGeneralized.cpp",S+"PoissonModel.cpp",S+"BinomialModel.cpp",S+"GeneralizedLinearModel.cpp"],
 [("re-weighting loops and local solves",S+"GWRGeneralized.cpp")])
p("C16","Scalable GWR is the regression under its polynomial kernel approximation",
 "The fitted coefficients at each sample solve the local least squares system whose weights are the penalised global term plus the polynomial sum of scaled base-kernel powers over the nearest neighbours, for the reported scale and penalty; those two values score no worse on the chosen criterion than the starting values. The reported score and diagnostics agree with these coefficients, and predictions at given locations use the same parameters.",
 ["inputs","configurations"],"all data sets, bandwidths, polynomial degrees, criteria, both smooth kernels",
 "Tests compare summaries on one data set and one degree.",
 [S+"GWRScalable.cpp",H+"GWRScalable.h"],
 [("moment matrices, optimisation and local solve",S+"GWRScalable.cpp")])
p("C17","Locally compensated ridge GWR applies the ridge the condition number requires",
 "At each sample the coefficients are the local ridge regression with the configured ridge, or, when adjustment is on and the local condition number exceeds the threshold, with the ridge that brings it down to the threshold. The diagnostics agree with these coefficients by their definitions.",
 ["inputs","configurations"],"all data sets (collinear ones included), kernels, bandwidths, ridge and threshold settings",
 "Tests compare summaries on one data set with two settings.",
 [S+"GWRLocalCollinearity.cpp",H+"GWRLocalCollinearity.h"],
 [("ridge solve and lambda adjustment",S+"GWRLocalCollinearity.cpp")])
p("C18","Spatio-temporal GWR fits under the space-time distance",
 "The coefficients fitted at each sample are the weighted least squares solution under weights from the space-time distance with the configured mixing factor and angle, in which samples from the future of the focus have practically no influence; automatic selection uses the same distance and returns a mixing factor in [0,1]. Standard errors, hat-matrix traces and diagnostics agree with the coefficients.",
 ["inputs","configurations"],"all data sets with times, mixing factors, angles, kernels, bandwidths",
 "Tests compare summaries on one data set with one mixing factor and equal times.",
 [S+"GTWR.cpp",H+"GTWR.h",SW+"CRSSTDistance.cpp"],
 [("space-time distance and local solve",S+"GTWR.cpp")])
p("C19","Local summary statistics equal their weighted definitions",
 "At every location the local mean, variance, standard deviation, skewness, coefficient of variation, quantile statistics, covariance and (Pearson and rank) correlations equal their geographically weighted definitions with weights normalised to one, for every pair of variables in the documented column order; correlations lie in [-1,1] and quantiles are values of the variable. Asking for correlations with fewer than two variables is an error.",
 ["inputs","configurations"],"all data sets (ties, constant variables, dominant weights), kernels, bandwidths, modes",
 "Tests compare summaries on one data set.",
 [S+"GWSS.cpp",H+"GWSS.h"],
 [("weighted moments, quantile search, pair loops",S+"GWSS.cpp")])
p("C20","Local principal components diagonalise the local weighted covariance",
 "At every location the reported loadings are orthonormal eigenvectors of the geographically weighted covariance matrix of the variables, ordered by decreasing variance, the explained percentages are those of its eigenvalues (non-negative, non-increasing, at most 100 in total, and exactly 100 when all components are kept), and the component deviations are the square roots of these eigenvalues.",
 ["inputs","configurations"],"all data sets, kernels, bandwidths, numbers of kept components",
 "One test compares summaries on one data set with two components of three.",
 [S+"GWPCA.cpp",H+"GWPCA.h"],
 [("weighted decomposition",S+"GWPCA.cpp")])
p("C21","Density regression fits under the product of per-dimension weights",
 "The coefficients fitted at each sample solve the weighted normal equations in which each weight is the product of the one-dimensional kernel weights of all coordinate dimensions, and standard errors, hat-matrix traces and diagnostics agree with them. Automatic bandwidth optimisation never returns bandwidths that score worse than the ones it started from, beyond rounding them to whole numbers, and automatic variable selection fits the selected variables.",
 ["inputs","configurations"],"all data sets in one to three dimensions, per-dimension kernels/bandwidths, criteria",
 "Tests compare diagnostics on one data set.",
 [S+"GWDR.cpp",H+"GWDR.h",SW+"OneDimDistance.cpp"],
 [("product weights and local solve",S+"GWDR.cpp")])
p("C22","Discriminant analysis assigns each sample to its best-scoring class",
 "For every labelled data set, each sample's local class scores are computed from the weighted class means, covariances and priors of the other samples, the sample is assigned to the class with the best score, and the correct rate is the fraction assigned to its own class. Class probabilities are a distribution per sample, the reported maximum is its largest entry, and the normalised entropy lies in [0,1].",
 ["inputs","configurations"],"all data sets, label orders, numbers of classes, linear/quadratic, local/global moment settings",
 "Tests check only the correct rate of one data set in two modes.",
 [S+"GWDA.cpp",H+"GWDA.h"],
 [("class moments, scores and assignment",S+"GWDA.cpp")])
p("C23","Progress and criterion reports describe the run truthfully",
 "During a run the caller is told the stages in order, progress values between zero and the total that never pass the end and reach it when a loop finishes undisturbed, and one criterion report for every evaluated candidate carrying its value; the recorded selection lists agree with these reports. Messages carry the severity they were issued with, and an algorithm without a listener behaves the same.",
 ["histories","configurations"],"all runs of all algorithms, serial and multi-threaded, with and without selection",
 "Tests write messages to a file and only look for their presence.",
 [H+"Logger.h",H+"Algorithm.h",S+"*.cpp"],
 [("reporting macros",H+"Algorithm.h")])
p("C24","Configuration validity is reported correctly",
 "An algorithm reports itself as valid exactly when its configuration is complete and consistent: coordinates present, weighting present with a positive bandwidth, data of matching length with at least one variable, and for per-variable or per-dimension settings one entry each. Asking never crashes, whatever has or has not been set, and never changes the object.",
 ["configurations","histories"],"all subsets of settings present or absent, and all inconsistent dimension combinations, for every algorithm",
 "Tests ask only on complete configurations, or not at all.",
 [S+"SpatialAlgorithm.cpp",S+"SpatialMonoscaleAlgorithm.cpp",S+"GWRBase.cpp",S+"GWRBasic.cpp",S+"GWRMultiscale.cpp",S+"GWDR.cpp",S+"GWSS.cpp",S+"GWPCA.cpp",S+"GWDA.cpp",S+"GTWR.cpp",S+"GWRScalable.cpp"],
 [("validity chain","isValid() of each class")])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
