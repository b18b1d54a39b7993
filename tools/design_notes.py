NOTES = {
"C01": "probabilities are symbolic, log-domain values are kept exactly as products of powers; the returned vector is compared term by term with the textbook expression written independently in the harness (sum of squares, -p/norm, -log p), rescaling with the affine map through (certain, 0) and (uniform, 1).",
"C02": "the chosen action a must satisfy E[a] <= E[b] for every action b, the expectations being formed in the harness from the same symbols; the hard loss must be L[y, a'] for some optimal a'.",
"C03": "the metric functions of the table are the library's own and also arbitrary stubs; each cell must equal the metric on the harness' own renormalized row, for every permutation of methods and every row constant.",
"C04": "stub classifiers return symbolic probabilities and record fit/predict calls; the cell must be log(max(p,floor)/sum). joblib.Memory is modelled by its contract (function + argument hash) and replayed with the real one.",
"C05": "losses against formulas, -logpdf as a symbolic sum of log and square; tables and baseline cell by cell with stub regressors.",
"C06": "the harness counts TP and FP by its own sums over [s_i >= t] for every distinct threshold of the path (the order of the scores is decided by forking) and compares each curve point.",
"C07": "area(curve) against the Mann-Whitney sum / step sum over pairs; invariances by running the code twice.",
"C08": "point-wise definition of the interpolants and exact integral against the result; cummax_strict on the ulp grid with nextafter modelled exactly.",
"C09": "order statistics by counting (at least k values <= q, ...) with the rank from exact floor/ceil of level*(n-1); the error bar as max of the two distances.",
"C10": "the counting formula over symbolic comparisons; weights are whatever the symbolic multinomial draw gives.",
"C11": "curve functions are stubs linear in weights (any curve), and the library's own; the harness recomputes areas from the recorded weights.",
"C12": "Student-t is an uninterpreted strictly monotone family; the error bar and p-value must be the same terms as the harness builds, and their agreement (0 outside mean+-EB iff p<1-c) is its own obligation.",
"C13": "log is uninterpreted monotone; the quadratic is solved exactly; agreement for every confidence pins the p-value.",
"C14": "case analysis on symbolic mean, error bar, limits, minimum, including infinities; the three combined routines against each other.",
"C15": "each cell against the harness' own sample (paired difference) fed to the uninterpreted statistics; permutations of the input.",
"C16": "the harness decides side of every row by its own statement of the rule and compares part contents, order, labels.",
"C17": "as C16 on series; the number of distinct training values is ceil(fraction*n) decided over the symbolic fraction.",
"C18": "the real pandas runs on symbolic cells; every cell of the result must be the very symbol of the earlier row.",
"C19": "Decimal is modelled over symbolic integers (coefficient, exponent); the result must satisfy the defining inequalities (0 <= d - x < 10^e, etc.) for every float value in the range, plus concrete hard floats.",
"C20": "unknown digits travel through the real string code as private-use characters tied to digit variables; the text is parsed back and compared digit by digit.",
"C21": "the set of valid shifts and the width of the printed text are computed in the harness from the digit counts for every shift.",
"C22": "the printed text is read back as a bound b; p <= b < p + 10^-k is decided over every real p in [0,1].",
"C23": "letters of names and units are opaque characters; the header must be one of the strings denoting 10^shift.",
"C24": "each cell must equal print_estimate / print_pval of that cell's own decimals under the metric's shift (decided in C20-C22), clipped cells do not enter the shift; plain-text lines are parsed back.",
"C25": "|noise| <= half the minimal gap, over every draw in [0,1).",
"C26": "the one-call result is compared with the composition called by the harness on the same symbols and draws.",
}
COST = dict(C01=33, C02=10, C03=8, C04=7, C05=11, C06=9, C07=4, C08=4, C09=5, C10=20, C11=43, C12=3, C13=7, C14=37, C15=20, C16=12, C17=5, C18=3, C19=15, C20=11, C21=26, C22=3, C23=12, C24=28, C25=4, C26=30)
MISSED = {"c02-square-transpose", "c02-round-ties", "c05-std-floor-zero", "c08-unique-tol", "c10-paired-tol", "c14-boot-conf", "c18-empty-features", "c19-str-decimal", "c24-clip-shift", "c09-clamp-perc", "c20-clip-float"}
