#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, note, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=["otpod/%s.py" % f for f in files],
                               state=state or [],
                               mechanism=[dict(name=a, where="otpod/%s.py" % b) for a, b in mech],
                               observe_at=observe, hook_needed=None), _note=note))

p("C01", "Censoring splits the data into an exact partition",
  "DataHandling.filterCensoredData assigns every observation to exactly one class: noisy if its signal is <= the noise threshold, saturated if it is >= the saturation threshold, uncensored otherwise, a threshold of None (and only None, not 0) disabling its side. The three input samples and the uncensored signals keep all columns, the original order and the input/signal pairing, and the caller's data are not modified. The linear analysis and every POD class work on exactly that uncensored subset.",
  ["inputs", "configurations"], "every sample of any size and dimension, every threshold pair including None, zero, negative and equal to observed signals, every container type",
  "The tests use one data set with two positive thresholds that no signal equals.",
  ["_math_tools", "_pod", "_univariate_linear_model_analysis", "_univariate_linear_model_pod"],
  [("DataHandling.filterCensoredData", "_math_tools"), ("POD._run", "_pod")],
  ["DataHandling.filterCensoredData", "getInputDOE", "getDefectSizes", "drawLinearModel"],
  "Random search against the definition of the partition, computed row by row; equality is exact.")

p("C02", "The linear analysis is the least squares fit of the retained data",
  "For any univariate data, UnivariateLinearModelAnalysis reports for the uncensored case the ordinary least squares intercept, slope, residual standard deviation (n-2 degrees of freedom), the residuals in data order, the matching R2 and the distribution built on these residuals by the given factory. With censoring thresholds this fit uses only the observations strictly between the thresholds. The samples, thresholds and Box Cox parameter given by the user are returned unchanged by their accessors.",
  ["inputs", "configurations"], "every univariate data set with at least 8 retained observations (OpenTURNS' normality tests need them), any order, ties, sign and scale, with or without thresholds",
  "The tests fit three fixed data sets of 100 points.",
  ["_univariate_linear_model_analysis", "_math_tools"],
  [("UnivariateLinearModelAnalysis._run", "_univariate_linear_model_analysis"), ("computeR2", "_math_tools")],
  ["getIntercept", "getSlope", "getStandardError", "getResiduals", "getR2", "getResidualsDistribution", "getInputSample", "getOutputSample", "getNoiseThreshold", "getSaturationThreshold"],
  "Differential check against an independent closed-form least squares in extended precision, relative tolerance 1e-7.")

p("C03", "Censored regression maximises the censored likelihood",
  "With a noise and/or saturation threshold, the intercept, slope and residual standard error reported for the censored case maximise the Gaussian likelihood in which uncensored signals contribute their density, noisy ones P(signal <= noise threshold) and saturated ones P(signal >= saturation threshold); one-sided thresholds are allowed. The standard error is positive and the censored residuals are the uncensored (transformed) signals minus the censored line. UnivariateLinearModelPOD uses the same censored parameters.",
  ["inputs", "configurations"], "every univariate data set with moderate censoring, two-sided or one-sided, with or without Box Cox",
  "The tests pin the optimum for one data set and one threshold pair.",
  ["_math_tools", "_univariate_linear_model_analysis", "_univariate_linear_model_pod"],
  [("MLE", "_math_tools"), ("computeLinearParametersCensored", "_math_tools")],
  ["getIntercept", "getSlope", "getStandardError", "getResiduals", "getPODModel"],
  "The log-likelihood reached is compared with the best value an independent multi-start optimiser finds from the same data; a gap above the tolerance of the optimiser in use is a violation.")

p("C04", "Box Cox: the parameter used is the one given or the likelihood optimum",
  "When boxCox is a float, every analysis and POD class uses and reports exactly that parameter; when it is True the parameter maximises the Box Cox profile log-likelihood of the uncensored signals; when it is False nothing is transformed and the reported parameter is None. Signals, detection and censoring thresholds are all transformed by the same transformation (after adding 100 minus the smallest retained signal when some are not positive), so the results equal those obtained without Box Cox on manually transformed signals, thresholds and detection.",
  ["inputs", "configurations"], "every positive, null or negative signal sample with thresholds and detection in the domain of the transformation, every float parameter including 0 and negative ones, every POD class, with and without censoring",
  "The tests use boxCox=True on two positive data sets and never a float in a POD class.",
  ["_pod", "_univariate_linear_model_analysis", "_univariate_linear_model_pod", "_math_tools"],
  [("POD._run", "_pod"), ("_computeLinearModel", "_univariate_linear_model_pod"), ("computeBoxCox", "_math_tools")],
  ["getBoxCoxParameter", "getPODModel", "getIntercept", "getOutputDOE"],
  "Metamorphic relation (run with Box Cox == plain run on manually transformed data) plus an independent profile likelihood.")

p("C05", "Hypothesis tests report the p-values of their definitions",
  "For the residuals of the fit, the analysis reports the p-values of: the two-sided Student zero-mean test, the studentized Breusch-Pagan test, the Durbin-Watson test (normal approximation, two-sided), the Harrison-McCabe test (break at half, Monte Carlo p-value), the Anderson-Darling and Cramer-von Mises normality tests and the Kolmogorov test against the fitted residual distribution. Every p-value lies in [0, 1]. Without censoring each accessor reports one value; with censoring it reports the uncensored then the censored case, each computed from its own residuals.",
  ["inputs", "configurations"], "every univariate data set with at least 8 retained observations, order, residual distribution factory and censoring",
  "The tests compare the p-values on three fixed data sets.",
  ["_math_tools", "_univariate_linear_model_analysis"],
  [("computeZeroMeanTest, computeBreuschPaganTest, computeHarrisonMcCabeTest, computeDurbinWatsonTest", "_math_tools"), ("_computeTests", "_univariate_linear_model_analysis")],
  ["getZeroMeanPValue", "getBreuschPaganPValue", "getDurbinWatsonPValue", "getHarrisonMcCabePValue", "getAndersonDarlingPValue", "getCramerVonMisesPValue", "getKolmogorovPValue"],
  "Reference implementations written from the definitions (scipy, statsmodels, numpy); Monte Carlo p-value compared with its exact law at 6 sigma.")

p("C06", "The printed and saved analysis reports state the computed values",
  "UnivariateLinearModelAnalysis.getResults and saveResults contain, for each regression parameter and test, exactly the values of the accessors rounded to two decimals, in the uncensored column and, if and only if there is censoring, in the censored column. The report carries a warning exactly when some p-value or the R2 is below 0.05 (advising Box Cox if it is not enabled, quantile regression or kriging otherwise), and a note that the normality of the residuals is assumed for the confidence interval when their fitted law is not Normal. The interval printed for the coefficients is the 95% one. saveResults writes the same table, tab separated, to the given file.",
  ["inputs", "configurations"], "every data set, censoring and Box Cox setting",
  "No test reads the report.",
  ["_univariate_linear_model_analysis"],
  [("getResults, saveResults, _buildPrintResults, _printWarnings", "_univariate_linear_model_analysis")],
  ["getResults", "saveResults"],
  "The report is parsed and each cell compared with the accessor it stands for.")

p("C07", "The linear POD is the probability that the signal exceeds detection",
  "For every defect size, the UnivariateLinearModelPOD curve equals: without residual hypothesis, the fraction of residuals above detection minus the regression line; with NormalFactory, the Gaussian probability with the prediction variance sigma^2(1+x'(X'X)^-1 x); with any other factory, the complementary CDF of the fitted residual distribution at that same argument. The curve lies in [0, 1] and is non-decreasing in the size when the slope is positive and the residual law does not depend on it (cases without hypothesis and fitted distribution). Building from an analysis gives the same curve as building from the analysis' data and options.",
  ["inputs", "configurations"], "every univariate data set, detection, thresholds, Box Cox option, residual factory and defect size, inside or outside the observed range",
  "The tests evaluate each variant at one or two sizes of fixed data sets.",
  ["_univariate_linear_model_pod"],
  [("_PODbinomialModel, _PODgaussModel, _PODbootstrapModel, constructor with analysis", "_univariate_linear_model_pod")],
  ["getPODModel", "getR2"],
  "Closed-form reference recomputed from the data.")

p("C08", "Linear POD at confidence level is a decreasing family of bounds",
  "UnivariateLinearModelPOD.getPODCLModel(c) takes values in [0, 1] and never increases when c increases. Without residual hypothesis, with r of n residuals above the threshold and 0 <= r < n, it equals 1 minus the c-quantile of the Beta(n-r, r+1) law. With NormalFactory it is the (1-c)-quantile of the simulated POD curves drawn from the law of the regression parameters, and with another factory the (1-c)-quantile of the POD curves of bootstrap resamples, using the number of simulations set when run was called.",
  ["inputs", "configurations", "histories"], "every univariate data set, confidence level, residual factory, number of simulations, and order of setSimulationSize and run",
  "The tests check confidence 0.95 and 0.9 at a couple of sizes on fixed data.",
  ["_univariate_linear_model_pod"],
  [("_PODbinomialModelCl, _PODgaussModelCl, _PODbootstrapModelCl, getPODCLModel", "_univariate_linear_model_pod")],
  ["getPODCLModel", "setSimulationSize"],
  "Closed form for the binomial case; the simulated cases are compared with the quantile interval of an independent large simulation (6 sigma).")

p("C09", "Detection sizes invert the POD curves",
  "In every POD class, computeDetectionSize(p) returns the size at which the POD curve reaches p and computeDetectionSize(p, c) additionally returns the size at which the curve at confidence level c reaches p, both inside the interval of the defect sizes (the whole input sample for the linear model), labelled a<100p> and a<100p>/<100c>. If the curve does not reach p on that interval an exception is raised instead of a value. For the quantile regression the first size is the one where the (1-p) quantile line meets the detection value. The sizes never decrease when p increases on a monotone curve.",
  ["inputs", "configurations"], "every POD class, data set, probability and confidence level",
  "The tests ask for a90 and a90/95 on fixed data sets.",
  ["_pod", "_quantile_regression_pod", "_kriging_tools", "_polynomial_chaos_pod", "_adaptive_hitmiss_pod"],
  [("POD._computeDetectionSize", "_pod"), ("QuantileRegressionPOD.computeDetectionSize", "_quantile_regression_pod")],
  ["computeDetectionSize", "getPODModel", "getPODCLModel"],
  "Round trip: the curve is evaluated on both sides of the returned size and must bracket p.")

p("C10", "Quantile regression POD interpolates the quantile crossing sizes",
  "At each quantile level q set by setQuantile, the QuantileRegressionPOD curve is q at the size where the (1-q) quantile regression line (statsmodels' iterative fit, or the exact optimum) of the retained (transformed) signals equals the detection value; between these sizes it is linear, it starts at (0, 0) and ends at the largest retained size, beyond which it is not defined. Box Cox results and pseudo R2 are those of the data, not of the bootstrap resamples. The curve at confidence level c reaches each q at the c-quantile of the crossing sizes of the bootstrap resamples.",
  ["inputs", "configurations", "histories"], "every data set whose regression lines cross the detection value, every list of quantiles (unsorted, any sequence type), Box Cox and censoring",
  "The tests use one data set and the default list.",
  ["_quantile_regression_pod"],
  [("run, getPODCLModel, getR2, setQuantile", "_quantile_regression_pod")],
  ["getPODModel", "getPODCLModel", "getR2", "getBoxCoxParameter", "setQuantile"],
  "Reference crossing sizes from an independent linear program and statsmodels fit; check-loss optimality of the crossing line.")

p("C11", "Chaos POD is the exceedance probability of the chaos model plus noise",
  "At each defect size set by setDefectSizes, the PolynomialChaosPOD curve is the Monte Carlo estimate, over the distribution of the other parameters, of P(chaos metamodel + Gaussian residual of the estimated standard error > detection), and it is linear between these sizes. The law of the coefficients is centred on the fitted coefficients with covariance proportional to the inverse Gram matrix of the basis, and the curve at confidence level c is the (1-c)-quantile of the curves it generates. User supplied results, distributions, strategies and degree are the ones used; all values lie in [0, 1].",
  ["inputs", "configurations"], "every data set of dimension 1 or more, sizes, degree, distribution, strategy, supplied result, sampling and simulation size",
  "The tests use one univariate data set with seeded values.",
  ["_polynomial_chaos_pod"],
  [("run, _computePOD, _buildChaosAlgo, getPODCLModel", "_polynomial_chaos_pod")],
  ["getPODModel", "getPODCLModel", "getCoefficientDistribution", "getPolynomialChaosResult", "getDistribution"],
  "Reference probability by numerical integration of the metamodel returned by the public accessor; Monte Carlo tolerance 6 sigma.")

p("C12", "Kriging POD is the exceedance probability of the kriging model",
  "The model of KrigingPOD is trained on the retained inputs and (transformed) signals with the chosen basis and covariance model. At each defect size, the POD is the mean over the kriging law of the Monte Carlo probability, over the distribution of the other parameters, that the kriging prediction exceeds detection, and the curve at confidence level c is its (1-c)-quantile; both are linear between sizes, lie in [0, 1] and the latter never increases with c. A kriging result, distribution, basis or covariance model supplied by the user is the one used.",
  ["inputs", "configurations"], "every data set of dimension 2 or more, sizes, distribution, basis, covariance model, supplied result, sampling and simulation size",
  "The tests use one data set with seeded values.",
  ["_kriging_pod", "_kriging_tools"],
  [("run, setKrigingResult", "_kriging_pod"), ("_computePODSamplePerDefect, _buildKrigingAlgo, getPODCLModel", "_kriging_tools")],
  ["getPODModel", "getPODCLModel", "getKrigingResult", "getDistribution"],
  "Reference law of the POD from the public kriging result by quadrature over the Gaussian factor; 6 sigma Monte Carlo tolerance.")

p("C13", "Adaptive signal POD enriches the design with true model evaluations",
  "AdaptiveSignalPOD.run adds exactly nMorePoints rows at the end of the initial (retained) design and leaves the initial rows unchanged; the added points are distinct candidates inside the support of the distribution, and each added signal is the physical model at that point, whatever the Box Cox option. The physical model is called on no other point. Each added point is, up to simulation error, the candidate minimising the mean squared error, over the defect sizes, of the POD of the kriging model fitted with it. The final kriging model is trained on the whole enriched design and the POD is that of this model.",
  ["inputs", "configurations", "histories"], "every initial design, physical model, number of points, distribution (with or without copula), Box Cox and censoring",
  "The test runs one configuration.",
  ["_adaptive_signal_pod", "_kriging_tools"],
  [("AdaptiveSignalPOD.run, getInputDOE, getOutputDOE", "_adaptive_signal_pod")],
  ["getInputDOE", "getOutputDOE", "getKrigingResult", "getPODModel"],
  "A recording physical model gives the exact history of calls; the final POD is checked as in C12.")

p("C14", "Adaptive hit/miss POD labels, selects and predicts consistently",
  "AdaptiveHitMissPOD turns signals into hits exactly when they exceed detection (or keeps 0/1 signals when no detection is given), adds exactly nMorePoints candidate points labelled by the physical model at the end of the unchanged initial design, and chooses them, when such candidates exist, among those whose current predicted detection probability is in [pMin, pMax). The final classifier is the one fitted on the whole enriched design, corrected by the confusion matrix (P(hit) = (p - c10) / (c11 - c10) limited to [0, 1]). The POD at each defect size is its Monte Carlo mean over the distribution of the other parameters, its confidence curve never increases with the level, and the columns of the confusion matrix sum to one.",
  ["inputs", "configurations", "histories"], "every initial design with hits and misses, physical model, classifier, probability interval, number of points",
  "The tests run four seeded configurations.",
  ["_adaptive_hitmiss_pod"],
  [("AdaptiveHitMissPOD.run, _computePOD", "_adaptive_hitmiss_pod")],
  ["getInputDOE", "getOutputDOE", "getConfusionMatrix", "getPODModel", "getPODCLModel"],
  "Recording physical model; reference classifiers refitted with the documented parameters.")

p("C15", "Sobol indices measure the variance shares of the POD of each parameter",
  "SobolIndices estimates, with the chosen algorithm (Saltelli, Martinez, Jansen or MauntzKucherenko), the first and total order indices, per defect size and aggregated, of the function mapping the parameters other than the defect to the POD given these parameters at the chosen defect sizes, the parameters being in their original order and following the chosen distribution. Defect sizes at which the POD does not vary are dropped and the reported defect sizes are then the remaining ones.",
  ["inputs", "configurations"], "every chaos or kriging POD with at least two parameters, every algorithm, distribution, sizes, sample size",
  "The tests pin seeded values for one chaos and one kriging model.",
  ["_sobol_indices"],
  [("SobolIndices.run, PODaggrKriging, PODaggrChaos", "_sobol_indices")],
  ["getSensitivityResult", "getDefectSizes", "setSensitivityMethod"],
  "Reference indices computed by the same public OpenTURNS estimator on an independently coded POD function; Monte Carlo tolerance from replicated designs.")

p("C16", "Perturbation law indices reweight the failure sample",
  "For every defect size whose exceedance probability P is in (1e-3, 0.999), delta and parameter, the perturbed probability is the average of the likelihood ratio of the perturbed to the original marginal (Normal or Uniform, closest density in the Kullback-Leibler sense with the requested mean or variance) over the exceeding Monte Carlo points, and the index is (Pd-P)/P when Pd >= P and (Pd-P)/Pd otherwise, hence 0 for a null perturbation. The confidence interval is the asymptotic Gaussian one, and other defect sizes give NaN indices. Deltas may be common to all parameters or given per parameter, and getIndices selects by delta, parameter and defect in that order.",
  ["inputs", "configurations"], "every chaos or kriging POD with at least two parameters, every Normal or Uniform marginals, deltas, scaling option, defect sizes",
  "No test covers the indices, only notebooks.",
  ["_pli", "_pli_pod"],
  [("PLI.run, PLIMeanBase, PLIVarianceBase", "_pli"), ("PLIBase.run, getIndices", "_pli_pod")],
  ["getIndices", "getPLIObject", "getPerturbedProbabilityEstimate", "computeConfidenceInterval", "getDeltaSample"],
  "Independent reweighting of the recorded Monte Carlo sample with reference densities (closed forms, exponential tilting solved independently).")

p("C17", "The POD summary reports what each method computes alone",
  "PODSummary.run runs exactly the active methods (kriging only in dimension above 1), each giving the same POD as the corresponding class used alone on the same data, options and simulation sizes (first input column for the univariate methods). getResults and saveResults list, for the given levels, the detection sizes of each active method rounded to two decimals (-1 when it is not attained, i.e. when computeDetectionSize raises) and its validation scores. drawGraphs saves one figure per available graph in the given directory with the given extension.",
  ["inputs", "configurations"], "every data set, set of active methods, levels, Box Cox and censoring",
  "Only notebooks exercise the summary.",
  ["_pod_summary"],
  [("PODSummary.run, getResults, saveResults, drawGraphs", "_pod_summary")],
  ["run", "getResults", "saveResults", "drawGraphs", "get*POD"],
  "Differential check against the individual classes, report parsed cell by cell.")

p("C18", "Setters are honoured, and invalid settings are rejected without effect",
  "Each getter returns the value last accepted by its setter (defect sizes and quantiles sorted) or the documented default, whatever the sequence of calls, and the next run uses it. An invalid value (defect sizes outside the data range, quantile outside ]0,1[, pmin/pmax outside [0,1], unknown classifier, method or sensitivity algorithm, non boolean flag, wrong distribution or object type) raises an exception and leaves every setting as it was. Constructors reject samples of fewer than 3 observations, mismatched sizes or wrong dimensions; with verbosity off nothing is printed.",
  ["histories", "configurations"], "every sequence of setter and getter calls, valid and invalid, on every class",
  "The tests call a few setters once.",
  ["_pod", "_kriging_tools", "_polynomial_chaos_pod", "_adaptive_hitmiss_pod", "_adaptive_signal_pod", "_quantile_regression_pod", "_sobol_indices", "_pli_pod", "_pod_summary"],
  [("accessors", "_kriging_tools")],
  ["every set*/get* method"],
  "Model-based histories: a dictionary model is updated by each accepted call and compared with all getters after every step.")

p("C19", "Results depend only on the data and the seed",
  "For every class, the results are the same whether the data are given as lists, numpy arrays or OpenTURNS samples, and the caller's data, thresholds and lists are never modified. With the same random seed a run is reproduced exactly, by a new object or by the same one, and previous runs of other objects do not change it; runs do not reset the random seeds chosen by the user, and an object does not follow later changes of the caller's data. The order of the observations does not change the linear POD. Expressing the defect sizes or the signals (with detection and thresholds) in another unit rescales the linear POD, its parameters and its detection sizes accordingly.",
  ["inputs", "histories", "configurations"], "every class, container type, seed, unit factor and sequence of runs",
  "The tests build each object once from OpenTURNS samples.",
  ["_pod", "_univariate_linear_model_pod", "_kriging_pod", "_polynomial_chaos_pod", "_quantile_regression_pod", "_adaptive_signal_pod", "_adaptive_hitmiss_pod"],
  [("constructors, run", "_pod")],
  ["getPODModel", "getPODCLModel", "computeDetectionSize"],
  "Metamorphic relations between runs; equality is exact for representation and reproduction, relative 1e-6 for units.")

p("C20", "Figures show the computed curves and are saved where asked",
  "Every draw method returns a figure whose data are the computed ones: drawPOD draws the POD curve and, if a confidence level is given, the curve at that level on the requested interval, with the probability level and detection sizes marked; the model, residuals, validation and index graphs show the fitted data, residuals, predictions and indices. When name is given the figure is saved at that path, otherwise no file is written. Intervals outside the computed sizes are rejected.",
  ["inputs", "configurations"], "every draw method of every class, with every option",
  "The tests do not look at figures.",
  ["_pod", "_univariate_linear_model_analysis", "_quantile_regression_pod", "_polynomial_chaos_pod", "_kriging_tools", "_pli", "_pli_pod", "_sobol_indices"],
  [("POD._drawPOD, draw* methods", "_pod")],
  ["draw* methods"],
  "The artists of the returned axes are read back and compared with the public models.")

p("C21", "R2 and Q2 are the determination and leave-one-out coefficients",
  "R2 is one minus the ratio of residual to signal variance of the fitted (transformed, retained) data for the linear and chaos models, and the pseudo R2 of the quantile regression at the given level. Q2 is one minus the mean squared leave-one-out error over the signal variance: for chaos, the prediction at each point of the least squares refit without it on the same basis; for kriging, the prediction without that point with the same covariance parameters and trend.",
  ["inputs", "configurations"], "every data set, basis, covariance model and input dimension",
  "The tests pin values on one data set per class.",
  ["_kriging_tools", "_polynomial_chaos_pod", "_math_tools"],
  [("_computeLOO, _computeQ2", "_kriging_tools"), ("getQ2, getR2", "_polynomial_chaos_pod"), ("computeR2", "_math_tools")],
  ["getR2", "getQ2", "drawValidationGraph"],
  "Brute force leave-one-out: n refits computed independently.")

p("C22", "Following a run shows its progress and does not change its results",
  "For every POD class and the summary, the results with verbosity on (progress bars, messages) are those with verbosity off from the same random state. A verbose run shows one progress bar per loop, which only grows, shows whole steps and ends at 100 % done; the validation scores, iterations and added points it prints are those of the accessors; the summary announces exactly the active methods, in order. With setGraphActive(True, p, c, directory) an adaptive run adds the same points, never fails because of the graphs (a level not attained by the current POD included), and saves one png per iteration, numbered from 1, in the directory, created if needed; each graph shows a POD curve over the whole range of the defect sizes, for the hit/miss POD that of the classifier of the iteration. Without graphs, or without directory, no file is written.",
  ["configurations", "histories", "inputs"], "every class, data set, simulation size, number of added points, probability and confidence level, directory, and combination of verbosity and graphs, in a first or a later run",
  "The tests run with verbosity off and never activate the graphs.",
  ["_progress_bar", "_adaptive_signal_pod", "_adaptive_hitmiss_pod", "_pod_summary"],
  [("updateProgress", "_progress_bar"), ("_run, setGraphActive", "_adaptive_signal_pod"), ("_run, setGraphActive", "_adaptive_hitmiss_pod"), ("PODSummary.run", "_pod_summary")],
  ["stdout of run", "setVerbose", "setGraphActive", "saved graphs"],
  "Differential runs from the same random state (exact equality), the printed text parsed and compared with the accessors, the directory tree and the figures compared with the iterations of the run.")

if __name__ == "__main__":
    impl = [q for q in P if os.path.exists(os.path.join(HERE, "props", q["id"].lower() + ".py"))]
    ids = {q["id"] for q in impl}
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fd:
        for q in P:
            fd.write(json.dumps({k: v for k, v in q.items() if not k.startswith("_")}) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -B tools/selftest.py",
        "checks": [
            {"property": q["id"],
             "quick_cmd": "/opt/venv/bin/python -B run.py %s --tier quick" % q["id"],
             "thorough_cmd": "/opt/venv/bin/python -B run.py %s --tier thorough" % q["id"],
             "technique": "property-based testing (Hypothesis, sharded, shrinking) against an explicit oracle",
             "level": "exploration",
             "level_note": q["_note"] + " Bounded random search: it shows no violation among the generated cases, not absence."}
            for q in impl],
        "not_applicable": [{"property": q["id"], "reason": "check under construction"} for q in P if q["id"] not in ids],
        "notes": "Run from /verif with /opt/venv/bin/python; Hypothesis is vendored in vendor/. No hooks in /repo.",
    }
    if not man["not_applicable"]:
        del man["not_applicable"]
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fd:
        json.dump(man, fd, indent=1)
    print(len(impl), "checks,", len(P) - len(impl), "pending")
    # DESIGN.md from its template
    rows = []
    for q in P:
        mod = os.path.join(HERE, "props", q["id"].lower() + ".py")
        gen = q["quantifier"]["text"]
        if os.path.exists(mod):
            import ast
            for node in ast.parse(open(mod).read()).body:
                if isinstance(node, ast.Assign) and node.targets[0].id == "RULE":
                    gen = ast.literal_eval(node.value)
        rows.append("| %s %s | %s | %s | %s |" % (q["id"], q["title"], gen, q["_note"], q["why_tests_cant"]))
    seeded = []
    sd = os.path.join(HERE, "seeded")
    results = {}
    rp = os.path.join(HERE, "tools", "seeded_results.json")
    if os.path.exists(rp):
        results = json.load(open(rp))
    for b in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
        m = json.load(open(os.path.join(sd, b, "meta.json")))
        seeded.append("| %s | %s | %s | %s | %s |" % (b, m["property"], m["what_it_breaks"], m["needs"], results.get(b, "not run")))
    text = open(os.path.join(HERE, "tools", "DESIGN.in.md")).read()
    text = text.replace("@@TABLE@@", "\n".join(rows))
    text = text.replace("@@SEEDED@@", "| id | property | breaks | needs | caught by |\n|--|--|--|--|--|\n" + "\n".join(seeded))
    open(os.path.join(HERE, "DESIGN.md"), "w").write(text)
