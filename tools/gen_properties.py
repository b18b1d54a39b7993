"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(
        dict(
            id=id, title=title, statement=statement,
            quantifier=dict(over=over, text=text), why_tests_cant=why,
            anchors=dict(
                files=files,
                state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                mechanism=[dict(name=a, where=b) for a, b in mech],
                observe_at=observe, hook_needed=None,
            ),
        )
    )


I, CFG, SCH, HIS = "inputs", "configurations", "schedules", "histories"

prop("C01", "Classification scoring rules return the textbook loss of the true label",
     "For every int or bool label vector and every table of normalized log-probabilities (zero-probability entries included), the log loss of each row is -log p(true label), the Brier loss is the sum over labels of (p_k - [k is true])^2 and the spherical loss is -p(true)/||p||_2. With rescaling (the default) Brier and spherical losses are the affine rescalings under which a certain correct prediction scores 0 and the uniform prediction scores 1 (with a single label every prediction scores 0). Losses come back per sample in input order and labels outside the table's range are rejected.",
     [I, CFG], "all probability tables, labels, numbers of labels and rows, and rescale settings",
     "The tests compare against sklearn on one random table per run with 1-9 rows; they never see exact zeros mixed with other mass, nor every label count.",
     ["mlpaper/classification.py", "mlpaper/util.py"],
     [("log_loss", "mlpaper/classification.py"), ("brier_loss", "mlpaper/classification.py"), ("spherical_loss", "mlpaper/classification.py"), ("shape_and_validate", "mlpaper/classification.py"), ("one_hot", "mlpaper/util.py")],
     ["return value of log_loss, brier_loss, spherical_loss, one_hot"])

prop("C02", "Hard-loss decisions are Bayes optimal and charged from the loss matrix",
     "For every normalized predictive distribution and every loss matrix (labels by actions, square or not), the action chosen for each row has the smallest expected loss of all actions under that row's distribution. The hard loss of the row is the loss-matrix entry of the true label and that action; with no matrix it is 0 when the true label is the most probable one and 1 otherwise.",
     [I, CFG], "all distributions, loss matrices, label vectors, label and action counts",
     "The tests try random square or [0,1) matrices on one draw; ties, negative costs and asymmetric matrices are not covered.",
     ["mlpaper/classification.py"],
     [("hard_loss_decision", "mlpaper/classification.py"), ("hard_loss", "mlpaper/classification.py")],
     ["return value of hard_loss_decision and hard_loss"])

prop("C03", "Loss tables score each method's renormalized predictions and cannot be gamed",
     "In a classification loss table, the column (metric, method) holds, for every data point in the original row order and under the original row labels, that metric evaluated on that method's own predictive distribution after renormalization, so adding any constant to a row of log-probabilities changes no loss (unless the caller declares the input normalized). This holds whatever the order of methods in the input and however large or small the unnormalized log-probabilities are; predictions containing NaN and label columns out of order are rejected rather than scored.",
     [I, CFG], "all prediction tables (normalized or not, any scale), label vectors, method orders, metric sets",
     "No test calls the classification loss table at all; normalization is tested on one N(0,1) table.",
     ["mlpaper/classification.py", "mlpaper/util.py"],
     [("loss_table", "mlpaper/classification.py"), ("normalize", "mlpaper/util.py")],
     ["DataFrame returned by classification.loss_table", "normalize"])

prop("C04", "Prediction tables hold each classifier's own floored, normalized output",
     "For every set of classifiers, the table of predictive log-probabilities has, for each method and test point, a distribution that sums to one and equals the method's own predicted probabilities after raising every entry below the given floor to the floor and renormalizing; log-probabilities come from predict_log_proba, or from the log of predict_proba when the former is unavailable. Every method is fitted exactly once on the training data and predicts on the test data in test order. The constant baseline predicts the (pseudo-count smoothed) training label frequencies for int or bool labels.",
     [I, CFG], "all classifier outputs, floors, method dictionaries, label vectors and pseudo counts",
     "No stable test calls the prediction-table builders or the baseline predictor.",
     ["mlpaper/classification.py", "mlpaper/util.py"],
     [("get_pred_log_prob", "mlpaper/classification.py"), ("JustNoise", "mlpaper/classification.py"), ("normalize", "mlpaper/util.py")],
     ["DataFrame returned by get_pred_log_prob", "JustNoise.predict_log_proba"])

prop("C05", "Regression losses, prediction tables and baseline are exact and well placed",
     "For all finite targets and Gaussian predictions with positive deviation, square loss is (y-mu)^2, absolute loss is |y-mu| and log loss is the negative Gaussian log density; non-finite values and non-positive deviations are rejected. Prediction tables hold each method's own mean and its deviation floored at min_std (1 when the method offers no deviation), and the loss table puts every (metric, method) loss in its own column and row. The constant baseline predicts the training mean and the population (ddof=0) standard deviation.",
     [I, CFG], "all targets, predictions, floors, method sets and metric sets",
     "No stable test imports the regression module.",
     ["mlpaper/regression.py"],
     [("square_loss, abs_loss, log_loss", "mlpaper/regression.py"), ("loss_table", "mlpaper/regression.py"), ("get_gauss_pred", "mlpaper/regression.py"), ("JustNoise", "mlpaper/regression.py")],
     ["return values of the loss functions", "DataFrames of loss_table and get_gauss_pred"])

prop("C06", "Curve points are the exact weighted counts at each distinct score threshold",
     "For all labels, finite scores and positive sample weights (several weight vectors at once), a performance curve has one point per distinct score plus the starting point, with thresholds inf followed by the distinct scores in decreasing order, and at each threshold t the point is built from the total weight of positives and of negatives with score >= t. ROC points are (FP/neg, TP/pos); recall-precision points are (TP/pos, TP/(TP+FP)); precision-recall-gain points are (max(0, 1 - pos*FN/(neg*TP)), 1 - pos*FP/(neg*TP)), and the starting point of the last two repeats the next point's y value.",
     [I, CFG], "all label/score/weight combinations including ties and several bootstrap weight rows",
     "tests/perf_curves_test.py does not even collect with the installed scikit-learn; bias_test and boot_test only check averages.",
     ["mlpaper/perf_curves.py"],
     [("_binary_clf_curve", "mlpaper/perf_curves.py"), ("roc_curve", "mlpaper/perf_curves.py"), ("recall_precision_curve", "mlpaper/perf_curves.py"), ("prg_curve", "mlpaper/perf_curves.py")],
     ["curve tuple and thresholds returned by roc_curve, recall_precision_curve, prg_curve"])

prop("C07", "Curve areas equal the rank statistics and respect their invariances",
     "For all labels and scores with both classes present, the area of the ROC curve equals the probability that a random positive outscores a random negative with ties counted half, and the area of the recall-precision curve is the step sum over distinct thresholds of the gain in recall times the precision held from the preceding threshold (no interpolation). Both areas are unchanged by reordering the data points or by any strictly increasing transformation of the scores, weighting a point by k equals repeating it k times, and with a single class present the ROC area is 0.5, the precision-recall-gain area is 0 and the recall-precision area is the base rate (up to the 1e-10 pseudo-point).",
     [I, CFG], "all labels, scores, permutations, monotone transforms, integer weights",
     "bias_test only looks at the mean area over random data; the per-input identities are untested here.",
     ["mlpaper/perf_curves.py", "mlpaper/util.py"],
     [("_binary_clf_curve and _add_pseudo_points", "mlpaper/perf_curves.py"), ("area", "mlpaper/util.py")],
     ["area(*curve)"])

prop("C08", "Interpolation and area primitives agree with the function they represent",
     "For every sorted point list, step interpolation returns at each grid point the y value of the last point at or before it (the last of duplicated x, the initial value before the first point when one is given), linear interpolation returns the value on the segment, and area returns the exact integral of that same step or piecewise-linear function row by row, zero-width steps contributing nothing even where y is infinite. Duplicate removal keeps the last point of each run, the strictly-increasing repair changes a list minimally and not at all when it already increases strictly, and unsorted or duplicated input is sorted or rejected as documented.",
     [I, CFG], "all point lists with duplicates, grids, row counts, both interpolation kinds",
     "util_test draws one small random list per run; exact hits on duplicated x and boundary grid points have probability zero there.",
     ["mlpaper/util.py"],
     [("unique_take_last", "mlpaper/util.py"), ("eval_step_func", "mlpaper/util.py"), ("_interp1d/interp1d", "mlpaper/util.py"), ("area", "mlpaper/util.py"), ("cummax_strict", "mlpaper/util.py")],
     ["return values of these functions"])

prop("C09", "Bootstrap intervals are the documented order statistics and always cover",
     "For every array of bootstrap estimates and every confidence in (0,1), the percentile interval is, independently per column, the pair of order statistics at the (1-confidence)/2 and (1+confidence)/2 quantiles rounded outward; the basic interval is its reflection about the original estimate; and the error bar is the smallest symmetric half-width around the original estimate that contains the percentile interval (hence non-negative, and equal for basic and percentile). NaN estimates and confidences outside (0,1) are rejected, and every bootstrap weight row consists of values that are the multinomial counts (summing to the sample size) raised to at least the requested minimum weight.",
     [I, CFG, SCH], "all estimate arrays (ties, infinities), confidences, replicate counts and random draws",
     "The slow tests check statistical coverage of N=1000 replicates; the exact order-statistic and rounding behaviour at small or tied samples is not pinned.",
     ["mlpaper/boot_util.py"],
     [("percentile", "mlpaper/boot_util.py"), ("basic", "mlpaper/boot_util.py"), ("error_bar", "mlpaper/boot_util.py"), ("boot_weights", "mlpaper/boot_util.py"), ("confidence_to_percentiles", "mlpaper/boot_util.py")],
     ["return values of boot_util functions"])

prop("C10", "Bootstrap p-values are two-sided, paired and coherent with the interval",
     "For all bootstrap estimates and a scalar or paired reference, the p-value is min(1, 2*min(fraction of estimates <= reference, fraction >= reference)), so it lies in [0,1], is unchanged when estimates and reference are exchanged or negated, and a paired test equals testing the differences against 0. Whenever the reference lies outside the percentile interval at some confidence the p-value is below 1-confidence; NaN estimates or references are rejected. The mean-based bootstrap test and error bar on data x use weighted means of x with one common set of weights, and give p=1 and an infinite error bar for fewer than two or non-finite data points.",
     [I, CFG, SCH], "all estimate and reference arrays including ties, confidences, random draws",
     "The tests draw a few random samples; exact ties in every position and the coherence implication for every confidence are not covered.",
     ["mlpaper/boot_util.py", "mlpaper/mlpaper.py"],
     [("significance", "mlpaper/boot_util.py"), ("percentile", "mlpaper/boot_util.py"), ("_boot_EB_and_test, boot_test, boot_EB", "mlpaper/mlpaper.py")],
     ["return values of significance, boot_test, boot_EB"])

prop("C11", "Curve bootstrap reports full-data area, paired uncertainty and its envelope",
     "For every curve function and every draw of bootstrap weights, the reported summary is the area of the curve on the original data, the error bar is the bootstrap error bar of the area (of the area difference to the reference when pairwise), and the p-value compares bootstrap areas with the reference areas computed from the same weights. The returned curve frame holds the requested grid, the original curve on it and the percentile envelope at the requested confidence. In the summary table every (method, curve) cell is that method's own result, the reference method's p-value (and, when pairwise, its error bar) is NaN, and labels, curves and methods are never mixed.",
     [I, CFG, SCH], "all curves, references, grids, weight draws, confidences and pairwise settings",
     "boot_test checks statistical coverage only; no test calls the summary table.",
     ["mlpaper/classification.py", "mlpaper/boot_util.py"],
     [("curve_boot", "mlpaper/classification.py"), ("curve_summary_table", "mlpaper/classification.py"), ("check_curve", "mlpaper/classification.py")],
     ["summary triple and curve frame of curve_boot", "curve_summary_table"])

prop("C12", "t error bars and t-tests follow Student's t and agree with each other",
     "For every sample of at least two finite values and confidence c in (0,1), the error bar on the mean is the standard error (ddof=1) times the two-sided Student-t quantile at c with n-1 degrees of freedom, and the p-value is the two-sided t-test p-value against zero mean, so zero lies strictly outside mean +/- error bar exactly when the p-value is below 1-c. The error bar is unchanged by shifting the data, scales with the data's absolute scale and is 0 for constant data; fewer than two or non-finite values give an infinite error bar and p=1, and constant data give p=1 when the mean is zero and 0 otherwise. NaN data and confidences outside (0,1) are rejected.",
     [I, CFG], "all samples (sizes, constants, infinities) and confidences",
     "The duality is tested on random normal samples only, and the constant-data tests fail in this environment.",
     ["mlpaper/mlpaper.py"],
     [("t_EB", "mlpaper/mlpaper.py"), ("t_test", "mlpaper/mlpaper.py")],
     ["return values of t_EB and t_test"])

prop("C13", "Bernstein error bars and tests follow the bound and agree with each other",
     "For every sample of at least two finite values inside [lower, upper] and confidence c, the error bar is std*sqrt(2A/n) + 3A*range/n with A = log(3/(1-c)) and the population (ddof=0) std, and the p-value is the capped level at which that bound equals |mean|, so |mean| exceeds the error bar exactly when the p-value is below 1-c. Fewer than two or non-finite values, or a zero or infinite range, give p=1, and fewer than two or non-finite values give an error bar equal to the range. Data outside the limits, NaN data and inverted limits are rejected.",
     [I, CFG], "all samples, limits and confidences",
     "The duality test draws uniform data; boundary values, zero std and asymmetric limits are hit only by luck.",
     ["mlpaper/mlpaper.py"],
     [("bernstein_EB", "mlpaper/mlpaper.py"), ("bernstein_test", "mlpaper/mlpaper.py")],
     ["return values of bernstein_EB and bernstein_test"])

prop("C14", "Error bars are clipped to the known limits and never below the minimum",
     "For every estimate inside known limits, the clipped error bar equals the given one unless that exceeds the trivial error bar max(upper-mean, mean-lower), in which case it becomes the trivial one, or falls below the minimum error bar, in which case it becomes the minimum; an estimate outside the limits or an unattainable minimum raises ValueError. The combined routines return the sample mean, this clipped error bar of the selected method at the requested confidence and the p-value of the same method, and the three of them (mean with error bar, test, and both at once) agree; samples outside the limits are rejected.",
     [I, CFG], "all means, error bars, limits (finite or infinite), minimum error bars and methods",
     "The existing tests of clipping and of the combined routines fail in this environment; none is stable.",
     ["mlpaper/mlpaper.py", "mlpaper/util.py"],
     [("clip_EB", "mlpaper/mlpaper.py"), ("get_mean_and_EB, get_test, get_mean_EB_test", "mlpaper/mlpaper.py"), ("clip_chk", "mlpaper/util.py")],
     ["return values of clip_EB, get_mean_and_EB, get_test, get_mean_EB_test"])

prop("C15", "Each loss summary cell is that method's own mean, error bar and p-value",
     "For every loss table (whose means and paired differences are defined), the summary row of a method gives for each metric the mean of that method's losses, an error bar from the chosen method, confidence and that metric's limits (of the loss itself, or of the paired difference to the reference with limits +/-(upper-lower) when pairwise), and the p-value of the paired difference to the reference. The reference method's p-value is NaN, and its error bar too when pairwise; no other entry is NaN. The result does not depend on the order of rows, methods or metrics in the input, and NaN losses or losses outside the limits are rejected.",
     [I, CFG], "all loss tables, reference methods, limits, confidences, error-bar methods and pairwise settings",
     "The test uses random tables and recomputes cells with the same helper functions; row/column reordering, infinite losses and exact limits are not covered.",
     ["mlpaper/mlpaper.py"],
     [("loss_summary_table", "mlpaper/mlpaper.py"), ("get_mean_and_EB / get_test / get_mean_EB_test", "mlpaper/mlpaper.py")],
     ["DataFrame returned by loss_summary_table"])

prop("C16", "Splitting a frame partitions its rows by the joint rule, untouched",
     "For every data frame and every set of column (or index) splits, the training part holds exactly the rows that every split places in training, the test part exactly the rows that every split places in test, and the unused part the rest, so the three are disjoint, cover the frame, and with a single split nothing is unused. Each part keeps the original row order, values and index labels (repeated labels included), and the input frame is not modified.",
     [I, CFG, SCH], "all frames, split dictionaries, fractions and random draws",
     "The data splitter tests do not run in this environment (np.float), so no stable test covers it.",
     ["mlpaper/data_splitter.py"],
     [("split_df", "mlpaper/data_splitter.py"), ("SPLITTER_LIB", "mlpaper/data_splitter.py"), ("index_to_series", "mlpaper/data_splitter.py")],
     ["three frames returned by split_df"])

prop("C17", "Each splitter respects groups, order and the requested training fraction",
     "For every non-null series and fraction in [0,1]: the random splitter puts exactly ceil(fraction * number of distinct values) distinct values in training, whatever the random draw, and rows with equal values on the same side; the ordered splitter puts in training exactly the rows whose value is among the smallest non-empty prefix of the sorted distinct values whose share of the distinct values is at least the fraction; the linear splitter puts in training exactly the rows with value at most (1-fraction)*min + fraction*max. Declaring a series sorted or unique, when it is, never changes the outcome, and nulls and fractions outside [0,1] are rejected.",
     [I, CFG, SCH], "all series (ties, any order), fractions including exact multiples, random draws, assume flags",
     "The data splitter tests do not run in this environment, and random fractions never hit exact multiples such as 0.8 of 10 rows.",
     ["mlpaper/data_splitter.py"],
     [("random_split_series, rand_subset, rand_mask", "mlpaper/data_splitter.py"), ("ordered_split_series", "mlpaper/data_splitter.py"), ("linear_split_series", "mlpaper/data_splitter.py")],
     ["boolean series returned by each splitter"])

prop("C18", "Lag frames hold exactly the earlier rows",
     "For every frame, number of lags, stride and feature subset, the lag frame has the original index, all original columns at lag L0 and, for each lag k from 1 to n_lags-1, the chosen features at lag Lk whose value in row i is the original value in row i - k*stride, missing where that row does not exist. Nothing else is added and the input frame is not modified.",
     [I, CFG], "all frames, lag counts, strides and feature subsets",
     "No test calls it.",
     ["mlpaper/data_splitter.py"],
     [("build_lag_df", "mlpaper/data_splitter.py")],
     ["frame returned by build_lag_df"])

prop("C19", "Rounding to decimals never understates uncertainty and keeps the right digits",
     "For every table of means, error bars and p-values, the decimal error bar is the exact error rounded up to at most err_digits significant digits (0, NaN and inf kept, errors above 10**EB_limit become inf), the mean is rounded half-up to the last digit of its error bar, or to default_digits significant digits when the error bar is zero, NaN or infinite, and the p-value is rounded up to pval_digits decimals and stays in [0,1]. Every entry stays at its own row and column, and each metric uses its own error-bar limit.",
     [I, CFG], "all finite means, non-negative errors, p-values, digit settings and limits",
     "The tests check two inequalities on random tables; half-way cases, carries (0.0996 -> 0.10) and per-metric limits are not covered.",
     ["mlpaper/sciprint.py"],
     [("decimalize", "mlpaper/sciprint.py"), ("create_decimal", "mlpaper/sciprint.py"), ("decimal_1ek", "mlpaper/sciprint.py")],
     ["DataFrame returned by decimalize"])

prop("C20", "Printed estimates read back as exactly the rounded mean and error bar",
     "For every decimal mean and matching error bar and every shift, the printed string without commas reads back as mean*10^shift digit for digit, followed in parentheses by the error bar's digits in units of the mean's last digit when the error bar is finite; it never uses exponent notation. A mean above the upper (below the lower) clip is printed as '>' ('<') and the shifted clip value, a non-finite mean as its replacement text, and a shift that would need digits the mean does not have raises ValueError.",
     [I, CFG], "all decimal means, error bars, shifts and clip values",
     "The test draws one random case per run.",
     ["mlpaper/sciprint.py"],
     [("print_estimate", "mlpaper/sciprint.py"), ("digit_str, decimal_to_dot", "mlpaper/sciprint.py")],
     ["string returned by print_estimate"])

prop("C21", "The chosen decimal shift is valid and gives the narrowest column",
     "For every column of decimal estimates and every shift modulus, the allowed shift range contains exactly the multiples of the modulus under which all estimates are displayed to the decimal point and at least one is >= 1 in magnitude after shifting (a zero counts as one unit of its last digit; when the two cannot be combined, the range is flagged and holds only the largest multiple meeting the former), and the chosen shift lies in that range, minimizes the longest printed estimate (ignoring '.' and ',') and among equally narrow shifts has the smallest magnitude; an empty column gives 0.",
     [I, CFG], "all estimate columns, error bars and moduli",
     "The tests draw one random column per run with modulus below 6.",
     ["mlpaper/sciprint.py"],
     [("get_shift_range", "mlpaper/sciprint.py"), ("find_shift", "mlpaper/sciprint.py"), ("floor_mod, ceil_mod, str_print_len", "mlpaper/sciprint.py")],
     ["return values of get_shift_range and find_shift"])

prop("C22", "Printed p-values are never smaller than the true p-value",
     "For every p-value in [0,1] and every precision k, the table prints either the p-value rounded up to k decimals or, when that is at most 10^-k, the text '<' followed by 10^-k, and then the true p-value is below 10^-k; a NaN p-value is printed as its replacement text (default nan). The printed bound is thus never below the true p-value and exceeds it by less than 10^-k, and no exponent notation is used.",
     [I, CFG], "all p-values representable as floats and all precisions",
     "The tests compare random p-values only; values at and around 10^-k have negligible probability.",
     ["mlpaper/sciprint.py"],
     [("print_pval", "mlpaper/sciprint.py"), ("decimalize", "mlpaper/sciprint.py"), ("decimal_eps", "mlpaper/sciprint.py")],
     ["string returned by print_pval for a decimalized p-value"])

prop("C23", "Column headers state exactly the scale that was applied to the numbers",
     "For every shift and unit, header and printed numbers together denote the true value: a metric with a unit gets the SI prefix standing for 10^-shift when there is one (c, d and the powers of 1000) and prefixes are enabled, otherwise (shift non-zero) an explicit power-of-ten factor 10^shift, and no factor at all when the shift is zero. Headers come back in the given order, p-value columns are headed 'p', underscores become spaces, and the TeX form contains the same information with \\times, \\mu for micro and braces around every header.",
     [I, CFG], "all shifts (with or without SI prefix), units, prefix and TeX settings, header orders",
     "No test calls adjust_headers.",
     ["mlpaper/sciprint.py", "mlpaper/constants.py"],
     [("adjust_headers", "mlpaper/sciprint.py"), ("_PREFIX, _PREFIX_TEX", "mlpaper/constants.py")],
     ["list returned by adjust_headers"])

prop("C24", "Formatted tables show each cell's own numbers, clipped and aligned",
     "For every decimal performance table, the formatted table has at (method, metric) the printed estimate of that method's own mean and error bar under the metric's single shift and crap limits (estimates above 10^max or below -10^min are shown as the limit and do not influence the shift), and that cell's own printed p-value. With no shift modulus all shifts are 0, and with padding the digits before the decimal point of all estimates in a column line up when right-aligned and padding only appends spaces. The plain-text and TeX exports contain these same cells under headers that match their columns.",
     [I, CFG], "all tables, limits, moduli and padding settings",
     "The test uses random tables whose rows and columns are already sorted and strips the padding before comparing.",
     ["mlpaper/sciprint.py"],
     [("format_table", "mlpaper/sciprint.py"), ("pad_num_str, find_last_dig", "mlpaper/sciprint.py"), ("table_to_string, table_to_latex, just_format_it", "mlpaper/sciprint.py")],
     ["DataFrame and shifts of format_table", "just_format_it output"])

prop("C25", "Tie-breaking noise keeps the order of distinct values",
     "For every finite vector and every random draw, the noise added to each element is at most half of the smallest gap between distinct values in magnitude (half of the default for constant vectors) and never more than half of the maximum, so elements with distinct values keep their strict order.",
     [I, CFG, SCH], "all finite vectors, noise settings and random draws",
     "The test draws one random vector without ties.",
     ["mlpaper/util.py"],
     [("epsilon_noise", "mlpaper/util.py")],
     ["vector returned by epsilon_noise"])

prop("C26", "One-call benchmarks equal the composition of their documented stages",
     "For every data set, set of methods, losses, curves and options, the one-call classification and regression benchmarks return exactly what fitting/predicting, building the loss table, summarizing it with the same reference, pairwise, error-bar and limit options, and (for classification) the curve summary would return, side by side, with every method in its own row. The floor option passed in reaches the prediction stage, and training data never enter the evaluation.",
     [I, CFG, SCH], "all predictions, options and method sets",
     "No stable test calls the one-call benchmarks (they could not even run with the installed joblib).",
     ["mlpaper/classification.py", "mlpaper/regression.py", "mlpaper/mlpaper.py"],
     [("just_benchmark, summary_table", "mlpaper/classification.py"), ("just_benchmark", "mlpaper/regression.py")],
     ["tables returned by just_benchmark and summary_table"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
