#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
S = "src/direpack/"


def prop(id, title, statement, over, text, why, files, mech, note, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=[S + f for f in files],
                               mechanism=[dict(name=n, where=S + w) for n, w in mech],
                               observe_at=list(observe), hook_needed=None), note=note))


prop("C01", "The scaler centres and scales by the training estimates, and only by those",
     "VersatileScaler and versatile_scale return (x - location) / scale column by column, with location and scale taken from the "
     "training data by the chosen estimators (or by user callables, which receive the trimming fraction); a column with scale zero is "
     "divided by one. transform and predict apply the fitted estimates to any new array, data frame or single case without changing the "
     "estimates or their argument, and data with another number of columns are refused with ValueError.",
     ["inputs", "configurations", "histories"],
     "every training matrix, every new data set, every centre/scale/trimming combination, any callable estimator",
     "the tests scale one data file with two settings and look at a few means",
     ["preprocessing/robcent.py", "preprocessing/_preproc_utilities.py"],
     [("VersatileScaler.fit/transform/predict", "preprocessing/robcent.py"), ("scale_data", "preprocessing/_preproc_utilities.py")],
     "matrices to 4x2 fully symbolic per estimator, larger ones with symbolic cells; arbitrary callables as uninterpreted outcomes")
prop("C02", "inverse_transform undoes transform",
     "For every fitted VersatileScaler, inverse_transform(transform(X)) equals X and transform(inverse_transform(Z)) equals Z, for the "
     "training data and for new data, including columns whose scale is zero; inverse_transform multiplies by the scale and adds the location, "
     "and called without an argument inverts the data transformed last.",
     ["inputs", "configurations"],
     "every training matrix, every new data set, every centre/scale combination",
     "no test calls inverse_transform",
     ["preprocessing/robcent.py"], [("VersatileScaler.inverse_transform", "preprocessing/robcent.py")],
     "as C01; symbolic location and scale, zero included")
prop("C03", "Location and scale estimators compute their definitions and are equivariant",
     "mean, median, mad (median absolute deviation about the median over 0.6744897501960817 or the given factor), std (population) and their "
     "trimmed versions (int(trimming*n) cases cut from each side) return the defined value for every column, leave missing entries out, and do not "
     "alter their argument. Locations move with x -> a x + b, scales are multiplied by |a|, and neither depends on the order of the cases.",
     ["inputs", "configurations"],
     "every data matrix, every pattern of missing values, every trimming fraction, every a, b and permutation",
     "tests exercise the estimators only through one fitted model",
     ["preprocessing/_preproc_utilities.py"],
     [("mean, median, mad, std", "preprocessing/_preproc_utilities.py")],
     "columns to n=6 fully symbolic (all orderings enumerated as solver paths), NaN patterns to n=5")
prop("C04", "Iterative robust estimators follow their definitions from any start",
     "l1median minimises the sum of Euclidean distances to the cases, hands the optimiser the exact gradient, starts from the column medians "
     "or from the given start, passes the settings on and returns the optimiser's answer; kstepLTS returns the mean of the half of the cases closest to its "
     "running centre after k concentration steps, from whatever start; scaleTau2 returns for a single column the tau scale, the bounded second moment about the "
     "weighted mean.",
     ["inputs", "configurations"],
     "every data matrix, every trial point and every answer the optimiser may return, every starting centre",
     "no test compares these estimators with their definition",
     ["preprocessing/_preproc_utilities.py"],
     [("l1median, _l1median1, kstepLTS, scaleTau2", "preprocessing/_preproc_utilities.py")],
     "n<=7, p<=2; the optimiser is an adversary returning any vector")
prop("C05", "Spatial signs shrink each case along its direction by the radial function",
     "For every radial function (ss, ball, shell, quad, winsor, linear redescending) gen_ss_pp, GenSpatialSignPreProcessor and gen_ss_covmat multiply every centred case by "
     "the radial weight of its distance, with cut-offs from the median and MAD of the distances on the Wilson-Hilferty scale; the covariance is Z'Z/n of the processed data Z, "
     "function and class agree, and no case is flipped or turned. transform on new data processes those data, about the training centre.",
     ["inputs", "configurations"],
     "every vector of distances and every small data matrix, all six radial functions, by name or by callable",
     "no test checks a weight",
     ["preprocessing/gsspp.py", "preprocessing/_gsspp_utils.py"],
     [("gen_ss_pp, gen_ss_covmat, GenSpatialSignPreProcessor", "preprocessing/gsspp.py"),
      ("ball, shell, quad, ss, winsor, lr", "preprocessing/_gsspp_utils.py")],
     "n<=6 distances, p<=4 exponents; data along fixed directions with symbolic radius and small fully symbolic data")
prop("C06", "Wrapping is the bounded psi transform of each standardised column",
     "Wrapper and wrap map each entry to location + scale*psi(z), z=(x-location)/scale, with psi the identity for |z|<1.5, the wrapping tanh branch to |z|<=4 and zero beyond, "
     "using the median and MAD of the training data; a column with scale zero does not fail. It is odd about the location, bounded, never crosses the location, "
     "applies unchanged to new data (arrays, frames, single cases), and refuses a wrong number of columns with ValueError.",
     ["inputs", "configurations"],
     "every training matrix and every new data set",
     "no test of wrapping exists",
     ["preprocessing/robcent.py", "preprocessing/_preproc_utilities.py"],
     [("wrap", "preprocessing/_preproc_utilities.py"), ("Wrapper", "preprocessing/robcent.py")],
     "matrices to 5x2, tanh uninterpreted with sign, bound and oddness axioms")
prop("C07", "Case weights follow Fair, Huber and Hampel and stay within [0,1]",
     "Fair (for entries of any sign), Huber and Hampel (for distances) return for every entry the weight of their definition, within [0,1], non-increasing in the absolute residual, without altering their argument; robust_loss is the weighted mean square of residuals with weights from "
     "absolute residuals, the same for r and -r; brokenstick returns the broken stick proportions and cv_score_table one row per grid point with its score.",
     ["inputs", "configurations"],
     "every residual vector and every admissible set of cut-offs",
     "the tests use one weight function on one data file",
     ["sprm/_m_support_functions.py", "cross_validation/_cv_support_functions.py"],
     [("Fair, Huber, Hampel, brokenstick", "sprm/_m_support_functions.py"), ("robust_loss, cv_score_table", "cross_validation/_cv_support_functions.py")],
     "vectors to n=6 with symbolic cut-offs")
prop("C08", "snipls is one linear model in original units",
     "For every fitted snipls model, predict(X) = X coef_ + intercept_ for any data (array, frame, series, single case), fitted_ equals predict on the training data, residuals_ = y - fitted_, intercept_ is the mean, "
     "median or zero (as centre says) of y - X coef_, and coef_ is coef_scaled_ times y scale over x scale. Fitting and predicting leave the data untouched; predict and transform refuse a wrong number of columns with ValueError.",
     ["inputs", "configurations"],
     "every training set, every new data set, all centre/scale/eta/n_components settings",
     "the tests pin the numbers of one data file",
     ["sprm/snipls.py"], [("snipls.fit/predict/transform", "sprm/snipls.py")],
     "fixed data with one or two symbolic cells (n<=6, p<=3, h<=2), symbolic new data for larger models (h<=5)")

prop("C09", "snipls components have the PLS structure at every sparsity",
     "For every fitted snipls model each weight vector is the covariance direction X'y of the deflated data on the columns retained so far, soft-thresholded at eta times its largest absolute entry and divided by its norm before thresholding; scores of different components are orthogonal, "
     "and weights, loadings and coefficients vanish outside the retained columns, which are reported in colret_ (by name if names are known). The scaled coefficients solve the normal equations restricted to the weights (least squares when all components are kept and eta=0), "
     "x_ev_ and y_ev_ are the explained percentages, and transform multiplies scaled data by x_Rweights_, which gives x_scores_ on the training data when eta=0 or one component is kept.",
     ["inputs", "configurations"],
     "every training set, all eta, n_components, centre and scale settings",
     "the tests pin the coefficients of one data file",
     ["sprm/snipls.py"], [("snipls.fit/transform", "sprm/snipls.py")],
     "fixed data with one or two symbolic cells (n<=6, p<=3, h<=2), fixed data with symbolic new cases to h=4")
prop("C10", "Missing cells contribute nothing, and nothing else is lost",
     "nandot and nanmatdot are matrix products over the pairs in which both cells are available, of the shape of the ordinary product, and sizes that do not agree are refused. "
     "snipls fitted to data with missing cells in X or y estimates location and scale from the available cells, takes weights and scores from them, solves the normal equations in pairwise products, and predicts complete cases by the same linear model.",
     ["inputs", "configurations"],
     "every matrix and pattern of missing cells, every training set",
     "one test fits one file with missing cells and pins the coefficients",
     ["utils/utils.py", "sprm/snipls.py"], [("nandot, nanmatdot", "utils/utils.py"), ("snipls.fit", "sprm/snipls.py")],
     "products to 3x3 by 3x3 fully symbolic with listed patterns; snipls n<=7, p<=3, up to three missing cells and one symbolic cell")
prop("C11", "dicomo (co-)moments equal their definitions and transform as they should",
     "In the modes mom, var, std, skew, kurt, cov, corr, com, M3, cos, cok and continuum dicomo returns the (trimmed, if asked) central moment, co-moment or standardised co-moment of its definition, with the documented small-sample corrections when biascorr is set; with center='median' it returns medians of the products of deviations. A covariance, co-skewness or co-kurtosis of a variable with itself is its variance, skewness or kurtosis. "
     "Values do not change with location, scale as the degree of the moment requires, do not depend on the order of the cases or on earlier fits of the same object, and the arguments are left untouched. Unknown modes and missing y are refused.",
     ["inputs", "configurations", "histories"],
     "every pair of samples, every mode, order, option, trimming fraction, every change of units, every preceding fit",
     "the tests compare a few modes with scipy on one file",
     ["dicomo/dicomo.py", "dicomo/_dicomo_utils.py"], [("dicomo.fit", "dicomo/dicomo.py"), ("trim_mom, double_center_flex", "dicomo/_dicomo_utils.py")],
     "n<=6, fully symbolic for unstandardised moments, one or two symbolic entries for standardised ones")
prop("C12", "Energy statistics equal their definitions and invariances",
     "dicomo's distance covariance, correlation, variance and standard deviation (biased and unbiased), higher order distance co-moments, martingale difference divergence, correlation and MDDM equal the double-centred (or U-centred) sums of their definitions in any number of columns. They do not change when data are moved, scale "
     "with the units as the definition requires, are not affected by a common reordering of the cases, and leave their arguments untouched.",
     ["inputs", "configurations"],
     "every pair of samples, every mode and bias setting, every change of units and reordering",
     "the tests compare a few modes with dcor on one file",
     ["dicomo/dicomo.py", "dicomo/_dicomo_utils.py"],
     [("dicomo.fit, mode='energy'", "dicomo/dicomo.py"), ("distance_matrix_centered, distance_moment, difference_divergence, MDDM", "dicomo/_dicomo_utils.py")],
     "n<=6, up to three symbolic coordinates")
prop("C13", "ppdire's decomposition and regression fit any answer of the optimiser",
     "For every answer of the optimiser (scipy, IPOPT, differential evolution, which are handed minus the projection index of the deflated data and the unit norm constraint) ppdire's weights are that answer with unit length, scores the projections of the deflated scaled data, loadings their regressions, scores are orthogonal, x_ev_, Maxobjf_ and crit_values_ belong to them, "
     "and transform(training data) = x_scores_, transform(new) = scaled data times x_rotations_, also for whitened data. With a response, coef_ is x_rotations_ times the inner (OLS, robust, quantile) regression coefficients in original units, predict(X) = X coef_ + intercept_, fitted_ = predict(training), residuals_ = y - fitted_, intercept_ the (trimmed) mean or median of y - X coef_. "
     "The fit arguments dmetric and biascorr, the setting alpha and the response reach every evaluation of the index, the caller's optimizer_constraints the optimiser; mixing_ is the pseudo-inverse of the weights, and h overrides n_components for one call.",
     ["inputs", "configurations", "schedules"],
     "every answer of the optimiser, every new data set, every projection index, centre/scale/whitening/compression/regression option",
     "a test sees one optimiser answer on one data file",
     ["ppdire/ppdire.py", "ppdire/_ppdire_utils.py"], [("ppdire.fit/predict/transform", "ppdire/ppdire.py"), ("pp_objective", "ppdire/_ppdire_utils.py")],
     "fixed data n<=7, p<=4, h<=3 with symbolic optimiser answers, probe points and new cases")
prop("C14", "The native grid search returns the best direction it visited",
     "With two columns ppdire's grid optimiser evaluates the projection index (or its square) on ndir evenly spaced directions of the half circle and returns a direction with the largest value, which is Maxobjf_; with more columns the weights have unit length, Maxobjf_ is the index of the scores, "
     "and for odd ndir the result is not worse than the first column. The decomposition is the same as for other optimisers.",
     ["inputs", "configurations"],
     "every projection index (any values on the directions), every number of directions",
     "a test sees one index on one file",
     ["ppdire/ppdire.py", "ppdire/_ppdire_utils.py"], [("gridplane, gridplane_2", "ppdire/_ppdire_utils.py"), ("ppdire.fit", "ppdire/ppdire.py")],
     "ndir<=5 (7 thorough), any index values for p=2 and p=3 (2 to 4 directions), variance and third moment index with a symbolic cell")
prop("C15", "capi is the weighted sum of the co-moments asked for",
     "capi.fit(x, y) returns the sum of weights times covariance, both co-skewnesses and the three co-kurtoses (raw co-moments when scaling is off), each in its own slot of moments_, restricted to orders up to max_degree and to the options asked for; the others count as zero. "
     "Arguments are passed on to the plug-in, x and y are left untouched, and max_degree below 2 or above 4 is refused with ValueError.",
     ["inputs", "configurations"],
     "every pair of samples, all weights, all values a plug-in may return, every max_degree and options list",
     "no test evaluates capi on its own",
     ["ppdire/capi.py"], [("capi.fit", "ppdire/capi.py")],
     "any plug-in values and weights; with dicomo, n<=5 and one or two symbolic entries (n=3 fully symbolic)")

prop("C16", "rm is one robust linear model with stated case weights",
     "For every fitted rm model predict(X) = X coef_ + intercept_ for any data, fitted_ equals predict on the training data, residuals_ = y - fitted_, intercept_ is the centre of y - X coef_ and coef_ is coef_scaled_ times y scale over x scale, finite also for constant columns. "
     "The coefficients solve least squares weighted by fun of the leverage distances and of the residuals relative to their mad, iterated until the squared norm changes by less than tol or maxit is reached; case weights lie in [0,1] and are the product of both. "
     "Fitted values follow a change of units of y, do not depend on units of X, the data stay untouched and inconsistent settings or sizes are refused.",
     ["inputs", "configurations"],
     "every training set, every sequence of answers of the least squares solver, all fun/centre/scale/cut-off settings",
     "the tests pin the numbers of one data file",
     ["sprm/rm.py", "sprm/_m_support_functions.py"], [("rm.fit/predict", "sprm/rm.py")],
     "n<=7, p<=3, up to two symbolic cells, or up to two symbolic answers of the solver per iteration")

prop("C17", "sprm is one sparse robust linear model with stated case weights",
     "For every fitted sprm model predict(X) = X coef_ + intercept_ for any data, fitted_, residuals_, intercept_, coef_ and transform agree with each other in original units, columns without scale are left out and coefficients vanish outside the retained columns. "
     "Each step is sparse PLS on data weighted by the root of the case weights, which are fun of the score distances times fun of the residuals relative to their mad, in [0,1]; it stops when converged, when half of the cases are out, or at maxit. "
     "Fits do not depend on earlier fits, on containers or on units, data stay untouched, and inconsistent settings or sizes are refused.",
     ["inputs", "configurations", "histories"],
     "every training set, every sequence of answers of the inner PLS step, all fun/centre/scale/start settings",
     "the tests pin the numbers of one data file",
     ["sprm/sprm.py", "sprm/_m_support_functions.py", "sprm/snipls.py"], [("sprm.fit/predict/transform/weightnewx/valscore", "sprm/sprm.py")],
     "n<=8, p<=4, h<=3, symbolic new cases, one symbolic y entry, or symbolic answers of the inner PLS step")

prop("C18", "SIR, SAVE, DR, PHD and IHT return the leading directions of their matrix",
     "discretize puts every response into the slice its order statistics determine; SIR, SAVE and DR build their candidate matrix from slice proportions, means and covariances of the (centred, standardised) data, one slice per distinct value for discrete responses whatever n_slices says, and PHD and IHT from the response-weighted "
     "second moment and the powers of the covariance applied to cov(X,y). The result is the set of d leading eigenvectors, mapped back through the inverse root covariance when data are scaled, orthonormal in that metric; data stay untouched.",
     ["inputs", "configurations"],
     "every response, every label set, all methods with and without centring and scaling",
     "the tests pin one data file per method",
     ["sudire/_sudire_utils.py"], [("discretize/SIR/SAVE/DR/PHD/IHT/matpower", "sudire/_sudire_utils.py")],
     "fixed X (n<=9, p<=3) with up to four symbolic responses or free labels; p=2 with one symbolic cell for SIR and PHD")

prop("C19", "sudire's directions, scores, regression and predictions belong together",
     "For SIR, SAVE, DR, PHD and IHT x_loadings_ span the leading directions of the method's matrix on the centred, scaled or whitened data, mapped back to the columns of X; for dcov-sdr, mdd-sdr and custom methods the optimiser is handed minus the "
     "dependence measure of the projected data of the current fit and the orthonormality constraint, and any answer it gives is used. x_scores_ and transform are the data times x_loadings_, proj_mat_ is the projection on their span, and predict is the least squares regression of y on the scores, for any data; "
     "fits do not depend on earlier fits or containers, data stay untouched, inconsistent sizes are refused, and estimate_structural_dim picks the dimension whose resampled subspaces vary least.",
     ["inputs", "configurations", "histories"],
     "every response, new data set and answer of the optimiser, all methods, centring, scaling and whitening options, every resample",
     "the tests pin one fit per method on one data file",
     ["sudire/sudire.py", "sudire/_sudire_utils.py"], [("sudire.fit/predict/transform, estimate_structural_dim", "sudire/sudire.py"),
                                                       ("dcov_trim, mdd_trim, ballcov_func", "sudire/_sudire_utils.py")],
     "fixed X (n<=9, p<=3), one or two free responses, free new cases, or free answers of the optimiser in a box; two fixed resamples per dimension")

prop("C20", "Plots show every case at its own values, in its own group, under its own name",
     "plot_yyp and plot_projections (of sprm_plot, ppdire_plot and sudire_plot) draw every training case and every new case exactly once, at (y, fitted or predicted y) or at its two chosen score components; for sprm "
     "the marker and colour are those of regular (case weight 1), moderate (between 0 and 1) or harsh (0) cases, and the legend says which block and group it is. Every given name is written once at its own case. plot_caseweights draws "
     "one bar per case with its overall, x or y weight (x weights for new cases); plot_coeffs draws every coefficient, or with truncation the smallest and the largest, under the name of its own variable; the cross-validation contour uses "
     "every grid point with a finite score. onlyval without new cases and unknown modes are refused with ValueError, and plotting leaves the model as it was.",
     ["inputs", "configurations"],
     "every set of estimates, predictions, scores, case weights and coefficients; all options",
     "the tests draw no plots",
     ["plot/sprm_plot.py", "plot/ppdire_plot.py", "plot/sudire_plot.py"],
     [("plot_yyp, plot_projections, plot_caseweights, plot_coeffs, eta_ncomp_contour", "plot/sprm_plot.py"), ("plot_yyp, plot_projections", "plot/ppdire_plot.py"),
      ("plot_yyp, plot_projections", "plot/sudire_plot.py")],
     "up to 4 training and 3 new cases and 4 coefficients, all values free; matplotlib is a recorder")
prop("C21", "minimize_ipopt gives IPOPT the problem as posed and returns its answer",
     "IPOPT receives as many variables as the start has entries, the start, the bounds, one bound pair per constraint value (0 to 0 for equalities, 0 to infinity for inequalities), and for every point it asks about, in any order, the caller's "
     "objective (with args and kwargs), its gradient, all constraint values in order and their Jacobian; derivatives that are not given are finite differences of the functions. Options reach IPOPT under its own names (disp, maxiter, tol are "
     "translated), explicit options win over defaults, and the tolerance of a call is the one of that call. The result carries IPOPT's point, value, status and message; neither the start, the constraints nor the options dictionary of the caller is changed.",
     ["inputs", "schedules", "histories"],
     "every objective and constraint of the stated class, every sequence of evaluations, every answer of IPOPT",
     "IPOPT is not installed where the tests run, so they never reach this code",
     ["ipopt_temp/ipopt_wrapper.py", "ipopt_temp/jacobian.py"],
     [("minimize_ipopt, IpoptProblemWrapper", "ipopt_temp/ipopt_wrapper.py"), ("FunctionWithApproxJacobian", "ipopt_temp/jacobian.py")],
     "quadratics with free coefficients, up to 3 variables and 3 constraint values, up to 4 evaluation points in several orders; cyipopt is a stand-in")
prop("C22", "An estimator is what its settings say, and fitting leaves the settings alone",
     "For VersatileScaler, GenSpatialSignPreProcessor, dicomo, capi, rm, snipls, sprm, ppdire and sudire, get_params returns every setting as given to the constructor, set_params changes the named setting and nothing else, unknown names are refused with "
     "ValueError, and sklearn's clone has equal settings. An estimator fitted before and then given new settings with set_params, a clone of a fitted one, or one that was fitted next to another, gives on the same data the same results as a new estimator with these settings. "
     "Whitening can be turned on and off again, and verbose changes no result. Fitting changes neither the settings, nor the dictionaries and lists the caller passed, nor the defaults of objects made later.",
     ["inputs", "configurations", "histories"],
     "every value of the numerical settings in a box, every free data cell, response, weight or index value, every setting",
     "the tests fit each object once, with one set of settings",
     ["preprocessing/robcent.py", "preprocessing/gsspp.py", "dicomo/dicomo.py", "ppdire/capi.py", "ppdire/ppdire.py", "sprm/rm.py", "sprm/snipls.py", "sprm/sprm.py", "sudire/sudire.py"],
     [("__init__, get_params, set_params, fit", f) for f in ("ppdire/ppdire.py", "ppdire/capi.py", "sudire/sudire.py", "sprm/sprm.py")],
     "n<=6, p=2, up to two free cells or responses per fit, free new cases")

NA = []

TECH = "solver-based symbolic execution (z3) of the real code"
NOTE = ("Every feasible path of the real functions, executed from /repo's source on symbolic inputs, is decided by z3 within the bounds: %s. "
        "Floats are idealised as reals, library calls follow the engine's models; each path is replayed once on the real code and libraries, "
        "and every counterexample is replayed before it is reported.")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k != "note"}) + "\n")
    na = set(x["property"] for x in NA)
    checks = [dict(property=p["id"], quick_cmd="python3 check.py %s --tier quick" % p["id"],
                   thorough_cmd="python3 check.py %s --tier thorough" % p["id"], technique=TECH, level="model_checking",
                   level_note=NOTE % p["note"]) for p in P if p["id"] not in na]
    json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=NA,
                   notes="no hooks in /repo; the engine patches the numerical libraries inside its own process"),
              open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


main()
