"""Planted bugs: id -> (property, [(file, old, new)...], demo, needs, what). Built by tools/seed_build.py."""
PRE = """import warnings; warnings.simplefilter("ignore")
import sys; sys.path.insert(0, "/repo") if False else None
import numpy as np, pandas as pd
import decimal; from decimal import Decimal as D
import mlpaper.classification as btc, mlpaper.regression as btr, mlpaper.mlpaper as bt, mlpaper.sciprint as sp
import mlpaper.boot_util as bu, mlpaper.perf_curves as pc, mlpaper.util as util, mlpaper.data_splitter as ds
def raises(f, *a, **k):
    try:
        f(*a, **k)
    except Exception:
        return True
    return False
np.random.seed(0)
"""
CL, RG, ML, SP, BU, PC, UT, DS, CN = ["mlpaper/%s.py" % s for s in "classification regression mlpaper sciprint boot_util perf_curves util data_splitter constants".split()]
S = {}


def add(sid, prop, edits, demo, needs, what):
    assert sid not in S
    S[sid] = (prop, edits, demo, needs, what)


add("c01-logloss-finite", "C01", [(CL, "nll = -log_pred_prob[np.arange(n_samples), y.astype(int)]",
    "nll = -np.maximum(log_pred_prob[np.arange(n_samples), y.astype(int)], np.log(np.finfo(float).tiny))")],
    """
lp = np.log(np.array([[0.5, 0.5], [0.25, 0.75]])); lp[1] = [-np.inf, 0.0]
assert btc.log_loss(np.array([0, 0]), lp)[1] == np.inf
""", "a true label that was given probability zero", "log loss of an impossible label becomes a large finite number instead of inf")

add("c01-neg-label", "C01", [(CL, "assert 0 <= y.min() and y.max() < n_labels\n    return", "assert abs(y.min()) < n_labels and y.max() < n_labels\n    return")],
    """
lp = np.log(np.array([[0.2, 0.8], [0.6, 0.4]]))
assert raises(btc.log_loss, np.array([-1, 0]), lp)
""", "a negative label", "label -1 is scored as the last label instead of being rejected")

add("c02-round-ties", "C02", [(CL, "E_loss = np.dot(pred_prob, loss_mat)\n", "E_loss = np.round(np.dot(pred_prob, loss_mat), 10)  # break numerical ties\n")],
    """
lp = np.log(np.array([[0.3, 0.7]]))
L = 1e-12 * np.array([[0.0, 5.0], [7.0, 1.0]])
a = btc.hard_loss_decision(lp, L)[0]
E = np.exp(lp).dot(L)[0]
assert E[a] == E.min(), (a, E)
""", "a loss matrix with very small entries", "decision is not the minimizer of the expected loss")

add("c02-square-transpose", "C02", [(CL, "loss = loss_mat[y.astype(int), action]\n", "loss = loss_mat[y.astype(int), action]\n    if loss_mat.shape[0] == loss_mat.shape[1] and n_labels > 2:\n        loss = loss_mat.T[action, y.astype(int)] if np.all(np.diag(loss_mat) == 0.0) else loss_mat[action, y.astype(int)]\n")],
    """
lp = np.log(np.array([[0.2, 0.3, 0.5]]))
L = np.array([[1.0, 2.0, 3.0], [4.0, 5.0, 6.0], [7.0, 8.0, 0.5]])
a = btc.hard_loss_decision(lp, L)[0]
assert btc.hard_loss(np.array([1]), lp, L)[0] == L[1, a]
""", "three or more labels, square loss matrix with non-zero diagonal", "loss charged from the transposed entry")

add("c03-nearly-normalized", "C03", [(CL, "if not assume_normalized:\n            log_pred_prob = normalize(log_pred_prob)\n", "if not (assume_normalized or np.allclose(np.sum(np.exp(log_pred_prob), axis=1), 1.0, atol=1e-3)):\n            log_pred_prob = normalize(log_pred_prob)\n")],
    """
lp = np.log(np.array([[0.4, 0.6], [0.1, 0.9]]))
t = lambda q: btc.loss_table(pd.DataFrame(q, columns=pd.MultiIndex.from_product([["m"], [0, 1]], names=["method", "label"])), np.array([0, 1]), {"NLL": btc.log_loss}).values
assert np.allclose(t(lp), t(lp + 5e-4), rtol=0, atol=1e-9)
""", "a method whose rows are only slightly unnormalized", "a method can gain by inflating its probabilities a little")

add("c03-nan-one-method", "C03", [(CL, "assert not np.any(np.isnan(log_pred_prob))  # Would let method cheat\n\n        if not", "assert not np.all(np.isnan(log_pred_prob), axis=1).any()  # Would let method cheat\n\n        if not")],
    """
lp = np.log(np.array([[0.4, 0.6], [0.1, 0.9]])); lp[1, 0] = np.nan
f = pd.DataFrame(lp, columns=pd.MultiIndex.from_product([["m"], [0, 1]], names=["method", "label"]))
assert raises(btc.loss_table, f, np.array([0, 1]), {"NLL": btc.log_loss}, True)
assert raises(btc.loss_table, f, np.array([0, 1]), {"NLL": btc.log_loss})
""", "a row that is NaN for some labels only", "partially NaN predictions are scored")

add("c04-floor-only-inf", "C04", [(CL, "pred_log_prob = normalize(np.maximum(min_log_prob, pred_log_prob))", "if np.min(pred_log_prob) < 2.0 * min_log_prob:  # Only needed when really small\n            pred_log_prob = np.maximum(min_log_prob, pred_log_prob)\n        pred_log_prob = normalize(pred_log_prob)")],
    """
class M:
    def fit(self, X, y): pass
    def predict_log_proba(self, X): return np.log(np.tile([[0.05, 0.95]], (len(X), 1)))
t = btc.get_pred_log_prob(np.zeros((2, 1)), np.array([0, 1]), np.zeros((2, 1)), 2, {"a": M()}, min_log_prob=np.log(0.1))
assert np.allclose(np.exp(t.values[0]), np.array([0.1, 0.95]) / 1.05)
""", "a probability slightly below the floor and none far below it", "probabilities slightly below the floor are left unfloored")

add("c04-proba-fallback-floor", "C04", [(CL, "pred_log_prob = np.log(method_obj.predict_proba(X_test))\n", "pred_log_prob = np.log(method_obj.predict_proba(X_test) + np.finfo(np.float32).eps)\n")],
    """
class M:
    def fit(self, X, y): pass
    def predict_proba(self, X): return np.tile([[0.0, 1.0]], (len(X), 1))
t = btc.get_pred_log_prob(np.zeros((2, 1)), np.array([0, 1]), np.zeros((2, 1)), 2, {"a": M()})
assert t.values[0, 0] == -np.inf and t.values[0, 1] == 0.0
""", "a classifier with predict_proba only", "its probabilities are perturbed before the log")

add("c05-std-floor-zero", "C05", [(RG, "std = np.maximum(min_std, std)\n", "std = np.where(std <= np.finfo(float).eps, min_std, std)\n")],
    """
class M:
    def fit(self, X, y): pass
    def predict(self, X, return_std=False): return np.zeros(len(X)), np.full(len(X), 0.01)
t = btr.get_gauss_pred(np.zeros((3, 1)), np.zeros(3), np.zeros((2, 1)), {"a": M()}, min_std=0.5)
assert np.all(t[("a", "std")].values == 0.5)
""", "a small but non-zero predicted deviation below the floor", "only zero deviations are floored")

add("c05-noise-std", "C05", [(RG, "self.std = np.std(y_train, ddof=0)", "self.std = np.std(y_train, ddof=int(len(y_train) < 3))")],
    """
m = btr.JustNoise(); m.fit(np.zeros((2, 1)), np.array([0.0, 2.0]))
assert np.allclose(m.predict(np.zeros((1, 1)))[1], 1.0)
""", "a training set of two points", "the baseline uses the unbiased deviation for tiny training sets")

add("c06-isclose-ties", "C06", [(PC, "distinct_value_indices = np.where(np.diff(y_score))[0]", "distinct_value_indices = np.where(np.logical_not(np.isclose(np.diff(y_score), 0.0)))[0]")],
    """
(x, y, k), t = pc.roc_curve(np.array([True, False, True]), np.array([1e-9, 2e-9, 3e-9]))
assert len(t) == 4 and util.area(x, y, k)[0] == 0.5
""", "scores whose differences are tiny in absolute terms", "distinct thresholds are merged")

add("c06-weighted-int", "C06", [(PC, "weight = sample_weight[:, desc_score_indices]\n", "weight = sample_weight[:, desc_score_indices]\n        weight = weight / np.max(weight, axis=1, keepdims=True) if np.any(weight > 1e6) else weight\n        weight = np.maximum(weight, 1e-12)\n")],
    """
w = np.array([[3e-14, 1.0, 1.0, 1e-14]])
(x, y, k), t = pc.roc_curve(np.array([True, False, False, True]), np.array([3.0, 2.0, 1.0, 0.0]), w)
assert np.allclose(y[0, 1], 0.75, atol=0.05), y
""", "extremely small sample weights", "weights below 1e-12 are raised, so the counts are not the weighted counts")

add("c07-pseudo-small", "C07", [(PC, "tps_fix = tps[:, -1] == 0\n", "tps_fix = tps[:, -1] <= EPSILON\n")],
    """
w = np.array([[1e-10, 1.0, 1.0]])
(x, y, k), t = pc.roc_curve(np.array([True, False, False]), np.array([3.0, 2.0, 1.0]), w)
assert np.allclose(util.area(x, y, k)[0], 1.0)
""", "bootstrap weights that give all positives together no more than 1e-10", "curve with both classes present treated as single class")

add("c07-prg-single", "C07", [(PC, "fps[fps_fix, :] = EPSILON * tps[fps_fix, :]", "fps[fps_fix, -1] = EPSILON * tps[fps_fix, -1]")],
    """
(x, y, k), t = pc.roc_curve(np.array([True, True]), np.array([3.0, 2.0]))
assert np.allclose(util.area(x, y, k)[0], 0.5), util.area(x, y, k)
""", "a data set with positives only", "the ROC area with a single class is no longer 0.5")

add("c08-area-inf", "C08", [(UT, "auc = np.nansum(y_curve[:, :-1] * np.diff(x_curve, axis=1), axis=1)", "auc = np.sum(np.where(np.isfinite(y_curve[:, :-1]), y_curve[:, :-1], 0.0) * np.diff(x_curve, axis=1), axis=1)")],
    """
a = util.area(np.array([[0.0, 0.5, 1.0]]), np.array([[-np.inf, 0.2, 0.3]]), "previous")
assert a[0] == -np.inf
""", "an infinite y value held over a step of positive width", "the area ignores infinite steps")

add("c08-unique-tol", "C08", [(UT, "np.concatenate((deltas > 0, [True]))", "np.concatenate((deltas > np.finfo(np.float32).eps, [True]))")],
    """
x, y = util.unique_take_last(np.array([0.0, 1e-9, 1.0]), np.array([1.0, 2.0, 3.0]))
assert len(x) == 3
assert util.interp1d(np.array([0.0]), np.array([0.0, 1e-9]), np.array([1.0, 2.0]), "previous")[0] == 1.0
""", "points closer than single precision", "distinct points are dropped as duplicates")

add("c09-clamp-perc", "C09", [(BU, "alpha = 0.5 * (1.0 - confidence)", "alpha = np.maximum(0.5 * (1.0 - confidence), 5e-4)")],
    """
b = np.arange(100001.0)
LB, UB = bu.percentile(b, 0.99991)
assert LB == 4.0, LB
""", "a confidence above 99.9 percent", "the percentile levels are clamped and the interval is too narrow")

add("c09-weights-eps", "C09", [(BU, "weight = np.maximum(epsilon, np.random.multinomial(N, p_BS, size=n_boot))", "weight = np.random.multinomial(N, p_BS, size=n_boot)\n    weight = weight + epsilon if epsilon > 0 else weight")],
    """
w = bu.boot_weights(3, 50, epsilon=0.125)
assert set(np.unique(w)) <= {0.125, 1.0, 2.0, 3.0}
""", "a non-zero minimum weight", "the minimum weight is added to every count")

add("c10-paired-tol", "C10", [(BU, "pval = 2.0 * np.minimum(np.mean(boot_estimates <= ref), np.mean(ref <= boot_estimates))", "delta = boot_estimates - ref\n    pval = 2.0 * np.minimum(np.mean(delta <= 0.0), np.mean(delta >= 0.0))")],
    """
assert bu.significance(np.array([np.inf, np.inf, 1.0]), np.array([np.inf, 2.0, 0.0])) == 2.0 * min(1 / 3.0, 1.0)
""", "infinite bootstrap estimates paired with infinite references (precision-recall-gain areas)", "inf - inf ties are counted on neither side")

add("c10-one-point", "C10", [(ML, "if (N <= 1) or (not np.all(np.isfinite(x))):\n        return np.inf, 1.0, (-np.inf, np.inf)", "if (N < 1) or (not np.all(np.isfinite(x))):\n        return np.inf, 1.0, (-np.inf, np.inf)")],
    """
assert bt.boot_EB(np.array([3.0])) == np.inf and bt.boot_test(np.array([3.0])) == 1.0
""", "a single data point", "error bar 0 and p-value 0 claimed from one observation")

add("c11-env-conf", "C11", [(CL, "y_LB, y_UB = bu.percentile(y_grid_boot, confidence)", "y_LB, y_UB = bu.percentile(y_grid_boot)")],
    """
y = np.random.rand(30) > 0.5; lp = np.log(np.random.dirichlet([1, 1], 30))
np.random.seed(1); a = btc.curve_boot(y, lp, 0.5, confidence=0.5, n_boot=100)[1]
np.random.seed(1); b = btc.curve_boot(y, lp, 0.5, confidence=0.99, n_boot=100)[1]
assert np.sum(b.UB - b.LB) > np.sum(a.UB - a.LB)
""", "a confidence other than 0.95", "the envelope ignores the confidence")

add("c11-ref-weights", "C11", [(CL, "ref_boot = area(*check_curve(curve_f(y, ref[:, pos_label], weight)))", "ref_boot = area(*check_curve(curve_f(y, ref[:, pos_label], bu.boot_weights(N, n_boot, epsilon=epsilon))))")],
    """
y = np.random.rand(30) > 0.5; lp = np.log(np.random.dirichlet([1, 1], 30))
s = btc.curve_boot(y, lp, lp, n_boot=50, pairwise_CI=True)[0]
assert s[1] == 0.0 and s[2] == 1.0
""", "paired comparison to a reference method", "the reference is resampled independently, so the comparison is not paired")

add("c11-ref-prg-pairs", "C11", [(CL, "if method == ref_method:  # NaN probably makes more sense than 1\n", "if method == ref_method and not pairwise_CI:  # NaN probably makes more sense than 1\n")],
    """
y = np.array([0, 1, 0, 1]); lp = np.log(np.random.dirichlet([1, 1], (4, 2)).reshape(4, 4))
f = pd.DataFrame(lp, columns=pd.MultiIndex.from_product([["a", "b"], [0, 1]], names=["method", "label"]))
t, _ = btc.curve_summary_table(f, y, {"AUC": pc.roc_curve}, "a", n_boot=20, pairwise_CI=True)
assert np.isnan(t.loc["a", ("AUC", "p")])
""", "pairwise error bars", "the reference gets a p-value of 1 instead of NaN")

add("c12-df-two", "C12", [(ML, "LB, UB = ss.t.interval(confidence, N - 1, loc=0.0, scale=1.0)", "LB, UB = ss.t.interval(confidence, max(N - 1, 2), loc=0.0, scale=1.0)")],
    """
import scipy.stats as ss
x = np.array([1.0, 2.0])
assert np.allclose(bt.t_EB(x, 0.9), ss.sem(x) * ss.t.ppf(0.95, 1))
""", "exactly two data points", "wrong degrees of freedom for two points")

add("c12-const-small", "C12", [(ML, "if (len(x) <= 1) or (not np.all(np.isfinite(x))):\n        return 1.0  # Can't say anything about scale => p=1\n\n    _, pval", "if (len(x) <= 1) or (not np.all(np.isfinite(x))) or (len(x) == 2 and np.ptp(x) == 0.0):\n        return 1.0  # Can't say anything about scale => p=1\n\n    _, pval")],
    """
assert bt.t_test(np.full(2, 2.5)) == 0.0
""", "two equal non-zero data points", "constant non-zero data give p=1")

add("c13-delta-floor", "C13", [(ML, "delta = 1.0 - confidence\n", "delta = np.maximum(1.0 - confidence, 1e-3)\n")],
    """
x = np.array([0.1, 0.2, 0.4])
A = np.log(3.0 / (1.0 - 0.9999))
assert np.allclose(bt.bernstein_EB(x, 0.0, 1.0, 0.9999), np.std(x) * np.sqrt(2 * A / 3) + 3 * A / 3)
""", "a confidence above 0.999", "the error bar is too small at very high confidence")

add("c13-limit-tol", "C13", [(ML, "assert np.all(lower <= x) and np.all(x <= upper)\n\n    if (len(x) <= 1)", "assert np.all(lower <= np.mean(x)) and np.all(np.mean(x) <= upper)\n\n    if (len(x) <= 1)")],
    """
assert raises(bt.bernstein_test, np.array([-3.0, 4.0, 0.5]), -1.0, 1.0)
""", "data outside the limits whose mean is inside", "data that violate the limits are accepted")

add("c14-boot-conf", "C14", [(ML, "EB, pval, _ = _boot_EB_and_test(x, confidence=confidence)\n", "EB, pval, _ = _boot_EB_and_test(x)\n")],
    """
x = np.random.randn(50)
np.random.seed(3); a = bt.get_mean_EB_test(x, 0.5, method="boot")
np.random.seed(3); b = bt.get_mean_and_EB(x, 0.5, method="boot")
assert a[1] == b[1]
""", "bootstrap method with a non-default confidence through the combined routine", "the confidence is ignored")

add("c14-one-sided", "C14", [(ML, "EB_trivial = np.fmax(upper - mu, mu - lower)\n", "EB_trivial = np.fmax(upper - mu, mu - lower) if np.isfinite(upper - lower) else np.inf\n        EB_trivial = np.fmin(EB_trivial, upper - lower) if mu - lower > 0.0 else 0.5 * (upper - lower)\n")],
    """
assert bt.clip_EB(0.0, 5.0, 0.0, 1.0) == 1.0
""", "an estimate exactly on the lower limit", "the trivial error bar is halved when the estimate is on the limit")

add("c15-identical-nan", "C15", [(ML, "self_comparison = method == ref_method\n", "self_comparison = (method == ref_method) or not np.any(deltas)\n")],
    """
f = pd.DataFrame(np.array([[1.0, 1.0], [2.0, 2.0]]), columns=pd.MultiIndex.from_product([["l"], ["a", "b"]], names=["metric", "method"]))
t = bt.loss_summary_table(f, "a")
assert not np.isnan(t.loc["b", ("l", "p")])
""", "a method with exactly the losses of the reference", "its p-value becomes NaN")

add("c15-pair-limits", "C15", [(ML, "_, EB, pval = get_mean_EB_test(deltas, confidence, lower=-range_, upper=range_, method=method_EB)", "_, EB, pval = get_mean_EB_test(deltas, confidence, lower=np.fmax(-range_, -2.0 * upper), upper=range_, method=method_EB)")],
    """
v = np.array([[0.05, 0.9], [0.2, 0.1], [0.1, 0.3]]) - 1.0
f = pd.DataFrame(v, columns=pd.MultiIndex.from_product([["l"], ["a", "b"]], names=["metric", "method"]))
d = v[:, 1] - v[:, 0]
t = bt.loss_summary_table(f, "a", pairwise_CI=True, method_EB="bernstein", limits={"l": (-1.0, 0.0)})
m = bt.get_mean_EB_test(d, 0.95, lower=-1.0, upper=1.0, method="bernstein")
assert np.allclose(t.loc["b", "l"].values[1:], m[1:])
""", "pairwise error bars with limits whose upper end is small against the range", "wrong limits for the paired difference")

add("c16-dup-index", "C16", [(DS, "df_train, df_test = df[train_series], df[test_series]\n", "df_train, df_test = df[train_series], df.loc[df.index[test_series].difference(df.index[train_series], sort=False)]\n")],
    """
df = pd.DataFrame({"a": [1, 2, 3, 4]}, index=[7, 7, 8, 9])
tr, te, un = ds.split_df(df, {"a": ("ordered", 0.25)})
assert len(tr) == 1 and list(te["a"]) == [2, 3, 4]
""", "repeated index labels across train and test", "rows of the test part disappear")

add("c16-joint-test", "C16", [(DS, "test_series &= ~train_curr\n", "test_series &= ~(train_curr & train_series)\n")],
    """
df = pd.DataFrame({"a": [1, 1, 2, 2], "b": [1, 2, 1, 2]})
tr, te, un = ds.split_df(df, {"a": ("ordered", 0.5), "b": ("ordered", 0.5)})
assert list(te.index) == [3] and list(un.index) == [1, 2]
""", "two splits where a row is test in one and train in the other", "rows placed in training by one split reach the test part")

add("c17-linear-strict", "C17", [(DS, "train_curr = S <= pivotal_point\n", "train_curr = (S <= pivotal_point) if frac >= 1.0 else (S < pivotal_point)\n")],
    """
assert list(ds.linear_split_series(pd.Series([0.0, 1.0, 2.0]), 0.5)) == [True, True, False]
""", "a value exactly on the pivotal point", "the value on the boundary goes to test")

add("c17-unsorted-unique", "C17", [(DS, "all_cases = np.sort(S.values)\n", "all_cases = S.values if S.index.is_monotonic_increasing else np.sort(S.values)\n")],
    """
assert list(ds.ordered_split_series(pd.Series([3.0, 1.0, 2.0]), 0.6, assume_unique=True)) == [False, True, True]
""", "an unsorted series declared unique, with a sorted index", "the pivot is taken from the unsorted values")

add("c18-empty-features", "C18", [(DS, "df_sub = df if features is None else df[list(features)]", "df_sub = df[list(features)] if features else df")],
    """
r = ds.build_lag_df(pd.DataFrame({"a": [1.0, 2.0], "b": [3.0, 4.0]}), 2, features=[])
assert r.shape == (2, 2)
""", "an empty feature subset", "all columns are lagged when none was asked for")

add("c18-fill", "C18", [(DS, "df_sub.shift(stride * nn) for nn in range(1, n_lags)", "df_sub.shift(min(stride * nn, len(df) - 1)) for nn in range(1, n_lags)")],
    """
r = ds.build_lag_df(pd.DataFrame({"a": [1.0, 2.0, 3.0]}), 3, stride=2)
assert np.all(np.isnan(r[("a", "L2")].values))
""", "a lag of at least the number of rows", "a lag beyond the start of the data shows an earlier row instead of missing values")
