from seeds_a import *  # noqa

TBL = """
def tbl(rows, metric="m", names=None, cols=("mean", "error", "p")):
    a = np.array(rows, dtype=object)
    f = pd.DataFrame(a, index=pd.Index(names or ["r%d" % i for i in range(len(rows))], name="method"), columns=pd.MultiIndex.from_product([[metric], list(cols)], names=["metric", "stat"]))
    return f
"""
add("c19-str-decimal", "C19", [(SP, "y = +decimal.Decimal(x)\n", "y = +decimal.Decimal(repr(float(x)))\n")],
    TBL + """
t = sp.decimalize(tbl([[1.0, 0.1, 0.5]]).astype(float))
assert t.loc["r0", ("m", "error")] == D("0.11")
""", "an error bar just above its shortest decimal representation (0.1)", "the error is rounded from its short representation and so understated")

add("c19-eb-limit", "C19", [(SP, 'EB_clip = decimal_1ek(EB_limit.get(metric, "F"), signed=False)\n        for method', 'EB_clip = decimal_1ek(EB_limit.get(metric, max(EB_limit.values()) if EB_limit else "F"), signed=False)\n        for method')],
    TBL + """
f = pd.concat([tbl([[1.0, 50.0, 0.5]], "m"), tbl([[1.0, 50.0, 0.5]], "n")], axis=1).astype(float)
t = sp.decimalize(f, EB_limit={"m": 1})
assert not t.loc["r0", ("m", "error")].is_finite() and t.loc["r0", ("n", "error")] == 50
""", "a metric without an error-bar limit beside one with a limit", "the other metric's limit is applied")

add("c20-clip-float", "C20", [(SP, "if (not mu.is_nan()) and max_clip < mu:  # above max", "if (not mu.is_nan()) and float(max_clip) < float(mu):  # above max")],
    """
assert sp.print_estimate(D("10.00000000000000000001"), D("0.00000000000000000003"), max_clip=D(10)) == ">10"
""", "an estimate above the clip by less than the precision of a float", "an estimate above the clip is not printed as clipped")

add("c21-zero-skip", "C21", [(SP, "min_shift_0 = min(-mu.adjusted() for mu in x_dec_list)", "min_shift_0 = min([-mu.adjusted() for mu in x_dec_list if not mu.is_zero()] or [0])")],
    """
assert sp.get_shift_range([D("0.00"), D("0.00")]) == (2, 2, False), sp.get_shift_range([D("0.00"), D("0.00")])
""", "a column whose estimates are all zero", "the shift range contains shifts that waste space")

add("c21-tie", "C21", [(SP, "if max_len < best_len:\n", "if max_len < best_len or (max_len == best_len and best_shift != 0 and shift > 0):\n")],
    """
s = sp.find_shift([D("0.0010"), D("0.0020")], [D("nan"), D("nan")], 1)
ls = {k: max(sp.str_print_len(sp.print_estimate(m, D("nan"), k)) for m in [D("0.0010"), D("0.0020")]) for k in range(3, 5)}
best = min(ls.values())
assert s == min([k for k in ls if ls[k] == best], key=abs), (s, ls)
""", "equally narrow non-zero positive shifts", "the larger shift is chosen")

add("c22-eps-edge", "C22", [(SP, "elif pval <= pval_eps:\n        assert 0 <= pval and pval <= pval_eps", "elif pval < pval_eps:\n        assert 0 <= pval and pval <= pval_eps"), (SP, "assert pval_eps < pval and pval <= 1", "assert pval_eps <= pval and pval <= 1")],
    """
assert sp.print_pval(D("0.0001")) == "<0.0001"
""", "a p-value rounded up to one unit of the last decimal", "a p-value such as 1e-9 is printed as 0.0001")

add("c22-half-large", "C22", [(SP, "pval = pval.quantize(decimal_1ek(-pval_digits), rounding=decimal.ROUND_CEILING", "pval = pval.quantize(decimal_1ek(-pval_digits), rounding=decimal.ROUND_CEILING if pval < 1 - decimal_1ek(-pval_digits) else decimal.ROUND_HALF_UP")],
    TBL + """
t = sp.decimalize(tbl([[1.0, 0.1, 0.99992]]).astype(float))
assert t.loc["r0", ("m", "p")] == 1
""", "a p-value within 0.0001 of one", "p-values next to one are rounded down")

add("c23-underscore", "C23", [(SP, 'metric_str = metric.replace("_", " ")', 'metric_str = metric.replace("_", " ", 1)')],
    """
assert sp.adjust_headers([("a_b_c", "estimate")], {"a_b_c": 0}, {}) == ["a b c"]
""", "a metric name with two underscores", "only the first underscore is replaced")

add("c23-prefix", "C23", [(CN, '    -18: "a",\n    -15: "f",\n', '    -18: "f",\n    -15: "a",\n')],
    """
assert sp.adjust_headers([("m", "estimate")], {"m": 15}, {"m": "s"}) == ["m (fs)"]
""", "a shift of 15 or 18", "atto and femto are exchanged")

add("c23-tex-shift", "C23", [(SP, "elif shift != 0:\n                new_headers[nn] = fmt_shift_unit % (metric_str, shift, unit)", "elif shift % 3 != 0 or not use_prefix:\n                new_headers[nn] = fmt_shift_unit % (metric_str, shift, unit)")],
    """
assert sp.adjust_headers([("m", "estimate")], {"m": 27}, {"m": "s"}) == ["m x 1e27 (s)"]
assert sp.adjust_headers([("m", "estimate")], {"m": 0}, {"m": "s"}, use_prefix=False) in (["m (s)"],), sp.adjust_headers([("m", "estimate")], {"m": 0}, {"m": "s"}, use_prefix=False)
""", "a shift beyond the SI prefixes", "the factor is missing from the header")

add("c24-clip-shift", "C24", [(SP, "idx = (min_clip <= mean_series) & (mean_series <= max_clip)", "idx = (min_clip <= mean_series) & (mean_series <= max_clip.scaleb(1))")],
    TBL + """
f = tbl([[D("0.0123"), D("0.0010"), D("0.5000")], [D("500"), D("10"), D("0.5000")], [D("0.0150"), D("0.0010"), D("0.5000")]])
s, sh = sp.format_table(f, shift_mod=1, crap_limit_max={"m": 2})
assert sh["m"] == 4 or sh["m"] > 0, sh
assert s.loc["r1", ("m", "estimate")].strip().startswith(">")
""", "an estimate between the crap limit and ten times it", "a clipped estimate influences the shift")

add("c24-pad-left", "C24", [(SP, "pos = num_str.find(\"(\")\n        assert pos != 0", "pos = num_str.find(\"(\")\n        pos = len(num_str) if \",\" in num_str else pos\n        assert pos != 0")],
    """
L = sp.pad_num_str(["1,234(5)", "1.5(1)"])
assert L[0] == "1,234(5)  " and L[1] == "1.5(1)" or len(L[0]) - L[0].find("(") == len(L[1]) - L[1].find("."), L
""", "an integer estimate with a thousands comma", "the digits do not line up")

add("c24-pval-nonfinite", "C24", [(SP, "pval_str = print_pval(pval, non_finite_fmt=non_finite_fmt)\n", "pval_str = print_pval(pval, non_finite_fmt={} if pad else non_finite_fmt)\n")],
    TBL + """
s, sh = sp.format_table(tbl([[D("1.0"), D("0.1"), D("NaN")]]), pad=True, non_finite_fmt={"nan": "--"})
assert s.loc["r0", ("m", "p")] == "--", s
""", "a missing p-value, a custom text for it and padding", "the p-value ignores the custom text for NaN")

add("c25-unique-round", "C25", [(UT, "u_x = np.unique(x)\n", "u_x = np.unique(np.round(x, 8))\n")],
    """
x = np.array([0.0, 1e-9, 1.0, 2.0])
for s in range(50):
    np.random.seed(s)
    y = util.epsilon_noise(x)
    assert np.all(np.argsort(y, kind="mergesort") == np.arange(4))
""", "distinct values closer than 1e-8", "the noise is larger than the smallest gap")

add("c25-max-eps", "C25", [(UT, "delta = np.minimum(max_epsilon, delta)\n", "delta = np.minimum(max_epsilon, delta) if len(u_x) <= 2 else delta\n"), (UT, "assert 0.0 < delta and delta <= max_epsilon\n", "assert 0.0 < delta\n")],
    """
x = np.array([0.0, 10.0, 20.0])
for s in range(20):
    np.random.seed(s)
    assert np.max(np.abs(util.epsilon_noise(x) - x)) <= 0.5
""", "three or more distinct values, all gaps above the maximum", "the maximum noise is not respected")

add("c26-limits-bern", "C26", [(CL, "pred_tbl, y_test, loss_dict, curve_dict, ref_method, pairwise_CI=pairwise_CI, method_EB=method_EB, limits=limits\n", 'pred_tbl, y_test, loss_dict, curve_dict, ref_method, pairwise_CI=pairwise_CI, method_EB=method_EB, limits=limits if method_EB != "t" else {}\n')],
    """
class M:
    def __init__(self, s): self.s = s
    def fit(self, X, y): pass
    def predict_log_proba(self, X): return np.log(np.random.RandomState(self.s).dirichlet([1, 1], len(X)))
X = np.zeros((2, 1)); y = np.array([0, 1])
t, _ = btc.just_benchmark(X, y, X, y, 2, {"a": M(0), "b": M(1)}, {"z": btc.hard_loss}, {"AUC": pc.roc_curve}, "a", limits={"z": (0.0, 1.0)})
assert np.all(t[("z", "error")] <= 1.0)
""", "t error bars with limits in the one-call classification benchmark", "limits are not applied")

add("c26-regr-minstd", "C26", [(RG, "pred_tbl = get_gauss_pred(X_train, y_train, X_test, methods, min_std=min_std)", "pred_tbl = get_gauss_pred(X_train, y_train, X_test, methods, min_std=min(min_std, np.std(y_train)))")],
    """
class M:
    def fit(self, X, y): pass
    def predict(self, X, return_std=False): return np.zeros(len(X)), np.full(len(X), 0.01)
X = np.zeros((2, 1)); y = np.array([1.0, 1.1])
t = btr.just_benchmark(X, y, X, y, {"a": M()}, {"NLL": btr.log_loss}, "a", min_std=0.5)
import scipy.stats as ss
assert np.allclose(t.loc["a", ("NLL", "mean")], -np.mean(ss.norm.logpdf(y, 0, 0.5)))
""", "a floor larger than the spread of the training targets", "the floor is silently lowered")
