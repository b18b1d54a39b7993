"""Behaviour-preserving edits, in bundles: R[bundle] = [(file, old, new), ...]. Dev tool: the checks have to stay quiet on each bundle."""
R = {}
M = "mlpaper/mlpaper.py"
B = "mlpaper/boot_util.py"
C = "mlpaper/classification.py"
P = "mlpaper/perf_curves.py"
U = "mlpaper/util.py"
G = "mlpaper/regression.py"
D = "mlpaper/data_splitter.py"
S = "mlpaper/sciprint.py"

# ---- bundle 1: helpers extracted, comprehensions, alternative numpy spellings
R["r1"] = [
    (B, "    p_BS = np.ones(N) / N\n", "    p_BS = np.full(N, 1.0 / N)\n"),
    (B, "    alpha = 0.5 * (1.0 - confidence)\n    LB, UB = 100.0 * alpha, 100.0 * (1.0 - alpha)\n    return LB, UB\n",
     "    alpha = 0.5 * (1.0 - confidence)\n    LB = 100.0 * alpha\n    UB = 100.0 * (1.0 - alpha)\n    return LB, UB\n"),
    (B, '    LB = np.percentile(boot_estimates, LB_perc, axis=0, interpolation="lower")\n    UB = np.percentile(boot_estimates, UB_perc, axis=0, interpolation="higher")\n',
     '    LB = np.percentile(boot_estimates, LB_perc, axis=0, method="lower")\n    UB = np.percentile(boot_estimates, UB_perc, axis=0, method="higher")\n'),
    (B, "    LB, UB = 2 * original_estimate - UB, 2 * original_estimate - LB\n    return LB, UB\n",
     "    center = 2 * original_estimate\n    return center - UB, center - LB\n"),
    (B, "    pval = 2.0 * np.minimum(np.mean(boot_estimates <= ref), np.mean(ref <= boot_estimates))\n    # Only needed when some boot_estimates == ref exactly:\n    pval = np.minimum(1.0, pval)\n    return pval\n",
     "    frac_below = np.mean(boot_estimates <= ref)\n    frac_above = np.mean(boot_estimates >= ref)\n    # Cap only needed when some boot_estimates == ref exactly:\n    return np.minimum(1.0, 2.0 * np.minimum(frac_below, frac_above))\n"),
    (M, "    coef = [(3.0 * range_) / N, std * np.sqrt(2.0 / N), -np.abs(mu)]\n", "    quad = (3.0 * range_) / N\n    lin = std * np.sqrt(2.0 / N)\n    coef = np.array([quad, lin, -np.abs(mu)])\n"),
    (M, "    EB = np.std(x, ddof=0) * np.sqrt((2.0 * A) / N) + (3.0 * A * range_) / N\n", "    std_term = np.std(x, ddof=0) * np.sqrt((2.0 * A) / N)\n    range_term = (3.0 * A * range_) / N\n    EB = std_term + range_term\n"),
    (M, "    if (N <= 1) or (not np.all(np.isfinite(x))):\n        return np.inf\n\n    # loc", "    if N <= 1:\n        return np.inf\n    if not np.isfinite(x).all():\n        return np.inf\n\n    # loc"),
    (M, "def get_mean_and_EB(", "def _raw_EB(x, lower, upper, confidence, method):\n    if method == \"t\":\n        return t_EB(x, confidence=confidence)\n    if method == \"bernstein\":\n        return bernstein_EB(x, lower, upper, confidence=confidence)\n    if method == \"boot\":\n        return boot_EB(x, confidence=confidence)\n    assert False\n\n\ndef get_mean_and_EB("),
    (M, """    if method == "t":
        EB = t_EB(x, confidence=confidence)
    elif method == "bernstein":
        EB = bernstein_EB(x, lower, upper, confidence=confidence)
    elif method == "boot":
        EB = boot_EB(x, confidence=confidence)
    else:
        assert False

    # EB""", """    EB = _raw_EB(x, lower, upper, confidence, method)

    # EB"""),
    (M, """            deltas = loss - loss_ref
            range_ = upper - lower
            self_comparison = method == ref_method

            EB, pval = np.nan, np.nan
            if pairwise_CI:
                if not self_comparison:  # Otherwise leave both as nan
                    _, EB, pval = get_mean_EB_test(deltas, confidence, lower=-range_, upper=range_, method=method_EB)
            else:
                mu_, EB = get_mean_and_EB(loss, confidence=confidence, lower=lower, upper=upper, method=method_EB)
                assert mu_ == mu
                if not self_comparison:  # Otherwise pval as nan
                    pval = get_test(deltas, lower=-range_, upper=range_, method=method_EB)
""", """            EB, pval = np.nan, np.nan
            is_ref = method == ref_method
            deltas = loss - loss_ref
            range_ = upper - lower

            if not pairwise_CI:
                mu_, EB = get_mean_and_EB(loss, confidence=confidence, lower=lower, upper=upper, method=method_EB)
                assert mu_ == mu
            if not is_ref:  # Otherwise leave as nan
                if pairwise_CI:
                    _, EB, pval = get_mean_EB_test(deltas, confidence, lower=-range_, upper=range_, method=method_EB)
                else:
                    pval = get_test(deltas, lower=-range_, upper=range_, method=method_EB)
"""),
    (C, "    pred_prob = np.exp(log_pred_prob)\n    E_loss = np.dot(pred_prob, loss_mat)\n    action = np.argmin(E_loss, axis=1)\n    return action\n",
     "    E_loss = np.exp(log_pred_prob).dot(loss_mat)\n    return E_loss.argmin(axis=1)\n"),
    (C, "    y_bin = one_hot(y.astype(int), n_labels)\n    loss = np.sum((np.exp(log_pred_prob) - y_bin) ** 2, axis=1)\n",
     "    y_bin = one_hot(y.astype(int), n_labels)\n    residual = np.exp(log_pred_prob) - y_bin\n    loss = (residual ** 2).sum(axis=1)\n"),
    (C, "    if rescale and n_labels > 1:\n        # Linearly rescale so perfect is 0.0 and uniform gives 1.0\n        loss = np.true_divide(n_labels, n_labels - 1) * loss\n    return loss\n",
     "    if not rescale or n_labels <= 1:\n        return loss\n    # Linearly rescale so perfect is 0.0 and uniform gives 1.0\n    return np.true_divide(n_labels, n_labels - 1) * loss\n"),
    (C, "        for metric, metric_f in metrics_dict.items():\n            loss_tbl.loc[:, (metric, method)] = metric_f(y, log_pred_prob)\n    return loss_tbl\n",
     "        for metric in metrics_dict:\n            curr_loss = metrics_dict[metric](y, log_pred_prob)\n            loss_tbl.loc[:, (metric, method)] = curr_loss\n    return loss_tbl\n"),
    (C, "    y_LB, y_UB = bu.percentile(y_grid_boot, confidence)\n    curve = pd.DataFrame(\n        data=np.stack((x_grid, y_grid, y_LB, y_UB), axis=1), index=range(x_grid.size), columns=CURVE_STATS, dtype=float\n    )\n",
     "    y_LB, y_UB = bu.percentile(y_grid_boot, confidence)\n    curve_data = np.array([x_grid, y_grid, y_LB, y_UB]).T\n    curve = pd.DataFrame(data=curve_data, index=range(x_grid.size), columns=CURVE_STATS, dtype=float)\n"),
    (C, "    EB = (\n        bu.error_bar(auc_boot - ref_boot, auc - ref, confidence=confidence)\n        if pairwise_CI\n        else bu.error_bar(auc_boot, auc, confidence=confidence)\n    )\n    pval = bu.significance(auc_boot, ref_boot)\n",
     "    pval = bu.significance(auc_boot, ref_boot)\n    if pairwise_CI:\n        EB = bu.error_bar(auc_boot - ref_boot, auc - ref, confidence=confidence)\n    else:\n        EB = bu.error_bar(auc_boot, auc, confidence=confidence)\n"),
    (P, "    fps_fix = fps[:, -1] == 0\n    tps_fix = tps[:, -1] == 0\n", "    n_neg, n_pos = fps[:, -1], tps[:, -1]\n    fps_fix = n_neg == 0\n    tps_fix = n_pos == 0\n"),
    (P, "    distinct_value_indices = np.where(np.diff(y_score))[0]\n    threshold_idxs = np.r_[distinct_value_indices, y_true.size - 1]\n",
     "    distinct_value_indices = np.flatnonzero(np.diff(y_score))\n    threshold_idxs = np.append(distinct_value_indices, y_true.size - 1)\n"),
    (P, "    zero_vec = np.zeros((fps.shape[0], 1), dtype=fps.dtype)\n    fps, tps = np.c_[zero_vec, fps], np.c_[zero_vec, tps]\n    thresholds = np.r_[np.inf, y_score[threshold_idxs]]\n",
     "    zero_vec = np.zeros((fps.shape[0], 1), dtype=fps.dtype)\n    fps = np.concatenate((zero_vec, fps), axis=1)\n    tps = np.concatenate((zero_vec, tps), axis=1)\n    thresholds = np.concatenate(([np.inf], y_score[threshold_idxs]))\n"),
    (P, "    recall = np.true_divide(tps, tps[:, -1:])\n    with np.errstate(divide=\"ignore\", invalid=\"ignore\"):\n        precision = np.true_divide(tps, tps + fps)\n",
     "    n_pos = tps[:, -1:]\n    n_pred = tps + fps\n    recall = tps / n_pos\n    with np.errstate(divide=\"ignore\", invalid=\"ignore\"):\n        precision = tps / n_pred\n"),
    (U, "    y_bin = np.zeros((N, n_labels), dtype=bool)\n    y_bin[range(N), y] = True\n    return y_bin\n", "    return np.arange(n_labels)[None, :] == y[:, None]\n"),
    (U, "    normalizer = logsumexp(log_pred_prob, axis=1, keepdims=True)\n    log_pred_prob = log_pred_prob - normalizer\n    return log_pred_prob\n",
     "    normalizer = logsumexp(log_pred_prob, axis=1)\n    return log_pred_prob - normalizer[:, None]\n"),
    (U, "    u_x = np.unique(x)\n    delta = default_epsilon if len(u_x) <= 1 else np.min(np.diff(u_x))\n    delta = np.minimum(max_epsilon, delta)\n",
     "    u_x = np.unique(x)\n    if len(u_x) > 1:\n        delta = np.diff(u_x).min()\n    else:\n        delta = default_epsilon\n    delta = min(max_epsilon, delta)\n"),
    (U, "    idx = [] if xp.size == 0 else np.concatenate((deltas > 0, [True]))\n    xp = xp[idx]\n    yp = None if yp is None else yp[idx]\n    return xp, yp\n",
     "    if xp.size == 0:\n        return xp, yp\n    keep = np.append(deltas > 0, True)\n    if yp is not None:\n        yp = yp[keep]\n    return xp[keep], yp\n"),
    (U, "            auc = np.nansum(y_curve[:, :-1] * np.diff(x_curve, axis=1), axis=1)\n", "            widths = np.diff(x_curve, axis=1)\n            heights = y_curve[:, :-1]\n            auc = np.nansum(heights * widths, axis=1)\n"),
    (G, "    loss = (y - mu) ** 2\n    return loss\n", "    return np.square(y - mu)\n"),
    (G, "        mu = np.repeat([self.mu], N, axis=0)\n        std = np.repeat([self.std], N, axis=0)\n", "        mu = np.full(N, self.mu)\n        std = np.full(N, self.std)\n"),
    (D, "    N = int(np.ceil(frac * len(x)))\n    assert 0 <= N and N <= len(x)\n", "    n_total = len(x)\n    N = int(np.ceil(frac * n_total))\n    assert 0 <= N <= n_total\n"),
    (D, """    if assume_sorted and assume_unique:
        all_cases = S.values
    elif assume_unique:  # but not sorted
        all_cases = np.sort(S.values)
    else:
        all_cases = np.unique(S.values)
""", """    all_cases = S.values
    if not assume_unique:
        all_cases = np.unique(all_cases)
    elif not assume_sorted:
        all_cases = np.sort(all_cases)
"""),
    (D, "    pivotal_point = (1.0 - frac) * start + frac * end\n    # For numerics:\n    pivotal_point = np.maximum(start, np.minimum(pivotal_point, end))\n",
     "    pivotal_point = frac * end + (1.0 - frac) * start\n    # For numerics:\n    pivotal_point = np.clip(pivotal_point, start, end)\n"),
    (D, "        train_series &= train_curr\n        test_series &= ~train_curr\n", "        train_series = train_series & train_curr\n        test_series = test_series & ~train_curr\n"),
    (D, "    D = {SFT_FMT % 0: df}\n    D.update({(SFT_FMT % nn): df_sub.shift(stride * nn) for nn in range(1, n_lags)})\n",
     "    D = {SFT_FMT % 0: df}\n    for nn in range(1, n_lags):\n        D[SFT_FMT % nn] = df_sub.shift(stride * nn)\n"),
    (S, "    y = len(L) == 0 or all(x == L[0] for x in L)\n    return y\n", "    if len(L) == 0:\n        return True\n    first = L[0]\n    return all(x == first for x in L)\n"),
    (S, '    y = "".join(str(digit) for digit in x_tup.digits)\n    return y\n', '    return "".join(map(str, x_tup.digits))\n'),
    (S, "    # First check the clipped case\n    if (not mu.is_nan()) and max_clip < mu:  # above max\n        assert max_clip.is_finite()\n        return above_fmt.format(max_clip.scaleb(shift))\n    if (not mu.is_nan()) and mu < min_clip:  # below min\n        assert min_clip.is_finite()\n        return below_fmt.format(min_clip.scaleb(shift))\n",
     "    # First check the clipped case\n    if not mu.is_nan():\n        if mu > max_clip:  # above max\n            assert max_clip.is_finite()\n            return above_fmt.format(max_clip.scaleb(shift))\n        if mu < min_clip:  # below min\n            assert min_clip.is_finite()\n            return below_fmt.format(min_clip.scaleb(shift))\n"),
    (S, "        EB_str = digit_str(EB)\n        std_str = \"%s(%s)\" % (std_str, EB_str)\n", "        std_str = \"{}({})\".format(std_str, digit_str(EB))\n"),
    (S, "    L = np.array(range(min_shift, max_shift + 1))\n    idx = np.argsort(np.abs(L))\n    L = L[idx]\n", "    L = np.arange(min_shift, max_shift + 1)\n    L = L[np.argsort(np.abs(L))]\n"),
    (S, "    for shift in L:\n        if shift % shift_mod != 0:\n            continue\n\n", "    for shift in L[L % shift_mod == 0]:\n"),
    (S, "    for nn, el in enumerate(headers):\n        metric, stat = el\n", "    for nn, (metric, stat) in enumerate(headers):\n"),
    (S, "    pos = num_str.find(\".\")\n    assert pos != 0\n\n    if pos < 0:\n        pos = num_str.find(\"(\")\n        assert pos != 0\n\n    if pos < 0:\n        pos = len(num_str)\n        assert pos != 0\n\n    pos = pos - 1  # Indexing adjust\n    return pos\n",
     "    for mark in (\".\", \"(\"):\n        pos = num_str.find(mark)\n        assert pos != 0\n        if pos > 0:\n            return pos - 1\n    assert len(num_str) != 0\n    return len(num_str) - 1\n"),
]

# ---- bundle 2: loops instead of vector code
R["r2"] = [
    (B, "    weight = np.maximum(epsilon, np.random.multinomial(N, p_BS, size=n_boot))\n", "    counts = np.random.multinomial(N, p_BS, size=n_boot)\n    weight = np.where(counts > epsilon, counts, epsilon)\n"),
    (B, "    EB = np.fmax(UB - original_estimate, original_estimate - LB)\n", "    upper_dev, lower_dev = UB - original_estimate, original_estimate - LB\n    EB = np.fmax(lower_dev, upper_dev)\n"),
    (B, "    pval = 2.0 * np.minimum(np.mean(boot_estimates <= ref), np.mean(ref <= boot_estimates))\n", "    n_boot = len(boot_estimates)\n    n_le = np.sum(boot_estimates <= ref)\n    n_ge = np.sum(ref <= boot_estimates)\n    pval = 2.0 * (min(n_le, n_ge) / n_boot)\n"),
    (M, "    if (len(x) <= 1) or (not np.all(np.isfinite(x))):\n        return 1.0  # Can't say anything about scale => p=1\n\n    _, pval", "    n_points = len(x)\n    if n_points <= 1 or np.any(~np.isfinite(x)):\n        return 1.0  # Can't say anything about scale => p=1\n\n    _, pval"),
    (M, "    B = np.max(coef_roots) ** 2  # Bernstein test statistic\n    # Sampling CDF is bounded by exponential for any true distn on x.\n    delta = 3.0 * np.exp(-B)\n\n    pval = np.minimum(1.0, delta)  # Can cap at 1 to make p-value\n",
     "    root = max(coef_roots)\n    B = root * root  # Bernstein test statistic\n    # Sampling CDF is bounded by exponential for any true distn on x.\n    pval = min(1.0, 3.0 * np.exp(-B))  # Can cap at 1 to make p-value\n"),
    (M, "    mu_boot = np.mean(x * weight, axis=1)\n", "    mu_boot = np.sum(weight * x[None, :], axis=1) / N\n"),
    (M, "            perf_tbl.loc[method, metric] = (mu, EB, pval)\n", "            for stat, value in zip(STD_STATS, (mu, EB, pval)):\n                perf_tbl.loc[method, (metric, stat)] = value\n"),
    (M, "    for metric in metrics:\n        lower, upper = limits.get(metric, (-np.inf, np.inf))\n", "    for metric in metrics:\n        if metric in limits:\n            lower, upper = limits[metric]\n        else:\n            lower, upper = -np.inf, np.inf\n"),
    (M, "        EB_trivial = np.fmax(upper - mu, mu - lower)\n    assert not (min_EB > EB_trivial)  # Let NaNs pass\n    EB = np.clip(EB, min_EB, EB_trivial)\n    return EB\n",
     "        room_above = upper - mu\n        room_below = mu - lower\n        EB_trivial = np.fmax(room_below, room_above)\n    assert not (min_EB > EB_trivial)  # Let NaNs pass\n    return np.minimum(np.maximum(EB, min_EB), EB_trivial)\n"),
    (C, "    nll = -log_pred_prob[np.arange(n_samples), y.astype(int)]\n    return nll\n", "    labels = y.astype(int)\n    return np.array([-log_pred_prob[ii, labels[ii]] for ii in range(n_samples)])\n"),
    (C, "    loss = loss_mat[y.astype(int), action]\n", "    true_label = y.astype(int)\n    loss = loss_mat[true_label, action]\n"),
    (C, "        c = 1.0 - 1.0 / np.sqrt(n_labels) if n_labels > 1 else 1.0\n        loss = (1.0 + loss) / c\n", "        loss = 1.0 + loss\n        if n_labels > 1:\n            loss = loss / (1.0 - 1.0 / np.sqrt(n_labels))\n"),
    (C, "    loss = -np.exp(log_pred_prob[np.arange(N), y.astype(int)] - log_normalizer)\n", "    log_prob_true = log_pred_prob[np.arange(N), y.astype(int)]\n    loss = -np.exp(log_prob_true - log_normalizer)\n"),
    (C, "    ref_boot = ref\n    if np.ndim(ref) == 2:  # Note dim must be 0 or 2\n        ref_boot = area(*check_curve(curve_f(y, ref[:, pos_label], weight)))\n        assert ref_boot.shape == (n_boot,)\n        ref, = area(*check_curve(curve_f(y, ref[:, pos_label])))\n",
     "    if np.ndim(ref) == 2:  # Note dim must be 0 or 2\n        ref_score = ref[:, pos_label]\n        ref = area(*check_curve(curve_f(y, ref_score)))[0]\n        ref_boot = area(*check_curve(curve_f(y, ref_score, weight)))\n        assert ref_boot.shape == (n_boot,)\n    else:\n        ref_boot = ref\n"),
    (C, "            if pairwise_CI and method == ref_method:\n                curve_tbl.loc[method, (curve_name, ERR_COL)] = np.nan\n            if method == ref_method:  # NaN probably makes more sense than 1\n                curve_tbl.loc[method, (curve_name, PVAL_COL)] = np.nan\n",
     "            if method == ref_method:  # NaN probably makes more sense than 1\n                curve_tbl.loc[method, (curve_name, PVAL_COL)] = np.nan\n                if pairwise_CI:\n                    curve_tbl.loc[method, (curve_name, ERR_COL)] = np.nan\n"),
    (C, "        counts = self.pseudo_count + np.sum(one_hot(y_train.astype(int), n_labels), axis=0)\n        n_total = n_points + n_labels * self.pseudo_count\n",
     "        counts = np.sum(one_hot(y_train.astype(int), n_labels), axis=0) + self.pseudo_count\n        n_total = n_labels * self.pseudo_count + n_points\n"),
    (C, "        pred_log_prob = normalize(np.maximum(min_log_prob, pred_log_prob))\n        log_pred_prob_table.loc[:, method_name] = pred_log_prob\n",
     "        floored = np.maximum(pred_log_prob, min_log_prob)\n        log_pred_prob_table.loc[:, method_name] = normalize(floored)\n"),
    (P, "        tps = np.cumsum(y_true)[threshold_idxs]\n        fps = 1 + threshold_idxs - tps\n", "        tps = np.cumsum(y_true)[threshold_idxs]\n        fps = np.cumsum(~y_true)[threshold_idxs]\n"),
    (P, "        tps = np.cumsum(y_true[None, :] * weight, axis=1)[:, threshold_idxs]\n        fps = np.cumsum(weight, axis=1)[:, threshold_idxs] - tps\n",
     "        cum_pos = np.cumsum(weight * y_true, axis=1)\n        cum_all = np.cumsum(weight, axis=1)\n        tps = cum_pos[:, threshold_idxs]\n        fps = cum_all[:, threshold_idxs] - tps\n"),
    (P, "    n_neg, n_pos = fps[:, -1:], tps[:, -1:]\n    fns = n_pos - tps\n\n    den = n_neg * tps\n", "    n_neg = fps[:, -1:]\n    n_pos = tps[:, -1:]\n    fns, den = n_pos - tps, n_neg * tps\n"),
    (P, "    rec_gain = np.maximum(0.0, rec_gain)\n", "    rec_gain = np.where(rec_gain > 0.0, rec_gain, 0.0)\n"),
    (U, "    a_clip = np.clip(a, a_min, a_max)\n", "    a_clip = np.minimum(np.maximum(a, a_min), a_max)\n"),
    (U, "    if not assume_sorted:\n        idx = np.argsort(xp)\n        xp, yp = xp[idx], yp[idx]\n", "    if not assume_sorted:\n        order = xp.argsort()\n        xp = xp[order]\n        yp = yp[order]\n"),
    (U, "    x = x + delta * (np.random.rand(len(x)) - 0.5)\n    return x\n", "    noise = np.random.rand(len(x)) - 0.5\n    return x + noise * delta\n"),
    (U, "        auc = np.trapz(y_curve, x_curve, axis=1)\n", "        auc = 0.5 * np.sum(np.diff(x_curve, axis=1) * (y_curve[:, 1:] + y_curve[:, :-1]), axis=1)\n"),
    (U, "    translator = str.maketrans(\"\", \"\", del_chars)\n    x_str = x_str.translate(translator)\n    return x_str\n", "    for ch in del_chars:\n        x_str = x_str.replace(ch, \"\")\n    return x_str\n"),
    (G, "    loss = np.abs(y - mu)\n    return loss\n", "    return np.absolute(mu - y)\n"),
    (G, "    for method in methods:\n        # These get validated inside loss function\n        mu = pred_tbl[(method, \"mu\")].values\n        std = pred_tbl[(method, \"std\")].values\n        for metric, metric_f in metrics_dict.items():\n            loss_tbl.loc[:, (metric, method)] = metric_f(y, mu, std)\n",
     "    for metric, metric_f in metrics_dict.items():\n        for method in methods:\n            # These get validated inside loss function\n            mu = pred_tbl[(method, \"mu\")].values\n            std = pred_tbl[(method, \"std\")].values\n            loss_tbl.loc[:, (metric, method)] = metric_f(y, mu, std)\n"),
    (G, "        std = np.maximum(min_std, std)\n        pred_tbl.loc[:, (method_name, \"mu\")] = mu\n        pred_tbl.loc[:, (method_name, \"std\")] = std\n",
     "        for moment, value in ((\"mu\", mu), (\"std\", np.maximum(std, min_std))):\n            pred_tbl.loc[:, (method_name, moment)] = value\n"),
    (D, "    mask = np.zeros(n_samples, dtype=bool)\n    mask[pos] = True\n", "    mask = np.full(n_samples, False)\n    mask[pos] = True\n"),
    (D, "    cum_frac = np.arange(1, len(all_cases) + 1) / len(all_cases)\n    idx = min(int(np.searchsorted(cum_frac, frac, side=\"left\")), len(all_cases) - 1)\n",
     "    n_cases = len(all_cases)\n    idx = n_cases - 1\n    for ii in range(n_cases):\n        if (ii + 1) / n_cases >= frac:\n            idx = ii\n            break\n"),
    (D, "    if assume_sorted:\n        start, end = S.values[0], S.values[-1]\n    else:\n        start, end = np.min(S.values), np.max(S.values)\n", "    vals = S.values\n    start, end = (vals[0], vals[-1]) if assume_sorted else (vals.min(), vals.max())\n"),
    (D, "    df_train, df_test = df[train_series], df[test_series]\n    df_unused = df[~(train_series | test_series)]\n", "    df_train = df.loc[train_series]\n    df_test = df.loc[test_series]\n    df_unused = df.loc[~train_series & ~test_series]\n"),
    (S, "    y = (x // mod) * mod\n    return y\n", "    return x - x % mod\n"),
    (S, "            EB = EB if EB.is_nan() or EB <= EB_clip else D_INF\n", "            if not EB.is_nan() and EB > EB_clip:\n                EB = D_INF\n"),
    (S, "    with decimal.localcontext() as ctx:\n        ctx.prec = digits\n        ctx.rounding = rounding\n        y = +decimal.Decimal(x)\n    return y\n", "    ctx = decimal.Context(prec=digits, rounding=rounding)\n    return ctx.create_decimal(x)\n"),
    (S, "    max_shift_0 = min(-mu.as_tuple().exponent for mu in x_dec_list)\n", "    max_shift_0 = -max(mu.as_tuple().exponent for mu in x_dec_list)\n"),
    (S, "    min_shift_0 = min(-mu.adjusted() for mu in x_dec_list)\n", "    min_shift_0 = -max(mu.adjusted() for mu in x_dec_list)\n"),
    (S, "        max_len = max(str_print_len(print_estimate(mu, EB, shift)) for mu, EB in zip_list)\n", "        max_len = 0\n        for mu, EB in zip_list:\n            curr_len = str_print_len(print_estimate(mu, EB, shift))\n            max_len = max(max_len, curr_len)\n"),
    (S, "    max_right = max(len(ss) - find_last_dig(ss) for ss in num_str_list)\n    L = [ss + pad * (max_right - (len(ss) - find_last_dig(ss))) for ss in num_str_list]",
     "    rights = [len(ss) - find_last_dig(ss) for ss in num_str_list]\n    max_right = max(rights)\n    L = []\n    for ss, right in zip(num_str_list, rights):\n        L.append(ss + pad * (max_right - right))"),
    (S, "        idx = (min_clip <= mean_series) & (mean_series <= max_clip)\n", "        idx = (mean_series >= min_clip) & (mean_series <= max_clip)\n"),
    (S, "    new_headers = [None] * len(headers)\n    for nn, el in enumerate(headers):\n", "    n_headers = len(headers)\n    new_headers = [None] * n_headers\n    for nn, el in enumerate(headers):\n"),
]

# ---- bundle 3: restructured control flow, early returns, other library routes
R["r3"] = [
    (B, "    LB = np.percentile(boot_estimates, LB_perc, axis=0, interpolation=\"lower\")\n    UB = np.percentile(boot_estimates, UB_perc, axis=0, interpolation=\"higher\")\n",
     "    LB, UB = (\n        np.percentile(boot_estimates, perc, axis=0, interpolation=interp)\n        for perc, interp in ((LB_perc, \"lower\"), (UB_perc, \"higher\"))\n    )\n"),
    (B, "    pval = np.minimum(1.0, pval)\n    return pval\n", "    return min(1.0, pval)\n"),
    (M, "    mu = np.mean(x)\n    std = np.std(x, ddof=0)\n", "    mu = x.mean()\n    std = np.sqrt(np.var(x, ddof=0))\n"),
    (M, "    LB, UB = ss.t.interval(confidence, N - 1, loc=0.0, scale=1.0)\n    assert not (LB > UB)\n    # Just multiplying scale=ss.sem(x) is better for when scale=0\n    EB = 0.5 * ss.sem(x) * (UB - LB)\n",
     "    # Just multiplying scale=ss.sem(x) is better for when scale=0\n    half_width = ss.t.ppf(0.5 * (1.0 + confidence), N - 1)\n    EB = half_width * ss.sem(x)\n"),
    (M, "    weight = bu.boot_weights(N, n_boot)\n    mu_boot = np.mean(x * weight, axis=1)\n", "    weight = bu.boot_weights(N, n_boot)\n    mu_boot = np.dot(weight, x) / N\n"),
    (M, "    EB = np.inf\n    if return_EB:\n        mu = np.mean(x)\n        EB = bu.error_bar(mu_boot, mu, confidence=confidence)\n", "    EB = bu.error_bar(mu_boot, np.mean(x), confidence=confidence) if return_EB else np.inf\n"),
    (M, "        for method in methods:\n            loss = loss_table.loc[:, (metric, method)].values\n", "        for method in methods:\n            loss = loss_table[(metric, method)].values\n"),
    (M, "        loss_ref = loss_table.loc[:, (metric, ref_method)].values\n", "        loss_ref = loss_table[metric][ref_method].to_numpy()\n"),
    (C, "    E_loss = np.dot(pred_prob, loss_mat)\n", "    E_loss = pred_prob @ loss_mat\n"),
    (C, "    loss = np.sum((np.exp(log_pred_prob) - y_bin) ** 2, axis=1)\n", "    loss = np.square(np.exp(log_pred_prob) - y_bin).sum(1)\n"),
    (C, "    log_normalizer = 0.5 * logsumexp(2.0 * log_pred_prob, axis=1)\n", "    log_sq_norm = logsumexp(2.0 * log_pred_prob, axis=1)\n    log_normalizer = log_sq_norm / 2.0\n"),
    (C, "    nll = -log_pred_prob[np.arange(n_samples), y.astype(int)]\n    return nll\n", "    idx = y.astype(int)[:, None]\n    return -np.take_along_axis(log_pred_prob, idx, axis=1)[:, 0]\n"),
    (C, "    loss_mat = (1.0 - np.eye(n_labels)) if loss_mat is None else loss_mat\n", "    if loss_mat is None:\n        loss_mat = np.ones((n_labels, n_labels)) - np.eye(n_labels)\n"),
    (C, "    log_pred_prob = log_pred_prob[:, pos_label]\n\n", "    score = log_pred_prob[:, pos_label]\n\n"),
    (C, "    curve = check_curve(curve_f(y, log_pred_prob), x_grid)\n    auc, = area(*curve)\n", "    curve = check_curve(curve_f(y, score), x_grid)\n    x_curve, y_curve, kind = curve\n    auc = area(x_curve, y_curve, kind)[0]\n"),
    (C, "    curve_boot_ = check_curve(curve_f(y, log_pred_prob, weight), x_grid)\n", "    curve_boot_ = check_curve(curve_f(y, score, sample_weight=weight), x_grid)\n"),
    (C, "    summary = (auc, EB, pval)\n", "    summary = auc, EB, pval\n"),
    (C, "    full_tbl = pd.concat((loss_summary, curve_summary), axis=1)\n", "    full_tbl = pd.concat([loss_summary, curve_summary], axis=\"columns\")\n"),
    (C, "    curve_dump = {}\n    for method in methods:\n        assert list(log_pred_prob_table[method].columns) == list(range(n_labels))\n        log_pred_prob = log_pred_prob_table[method].values\n",
     "    curve_dump = {}\n    for method in methods:\n        method_tbl = log_pred_prob_table[method]\n        assert list(method_tbl.columns) == list(range(n_labels))\n        log_pred_prob = method_tbl.values\n"),
    (C, "        pred_log_prob = np.repeat([self.pred], n_samples, axis=0)\n", "        pred_log_prob = np.tile(self.pred, (n_samples, 1))\n"),
    (P, "    desc_score_indices = np.argsort(y_score, kind=\"mergesort\")[::-1]\n", "    desc_score_indices = np.flip(np.argsort(y_score, kind=\"stable\"))\n"),
    (P, "    distinct_value_indices = np.where(np.diff(y_score))[0]\n", "    distinct_value_indices = np.nonzero(y_score[1:] != y_score[:-1])[0]\n"),
    (P, "    if np.any(fps_fix) or np.any(tps_fix):\n        fps, tps = fps.astype(float), tps.astype(float)\n        fps[fps_fix, :] = EPSILON * tps[fps_fix, :]\n        tps[tps_fix, :] = EPSILON * fps[tps_fix, :]\n    return fps, tps\n",
     "    if not (np.any(fps_fix) or np.any(tps_fix)):\n        return fps, tps\n    fps, tps = fps.astype(float), tps.astype(float)\n    fps[fps_fix] = EPSILON * tps[fps_fix]\n    tps[tps_fix] = EPSILON * fps[tps_fix]\n    return fps, tps\n"),
    (P, "    precision[:, 0] = precision[:, 1]\n", "    precision = np.hstack((precision[:, 1:2], precision[:, 1:]))\n"),
    (P, "    fpr = np.true_divide(fps, fps[:, -1:])\n    tpr = np.true_divide(tps, tps[:, -1:])\n", "    fpr, tpr = (np.true_divide(counts, counts[:, [-1]]) for counts in (fps, tps))\n"),
    (P, "        rec_gain = 1.0 - np.true_divide(n_pos * fns, den)\n        prec_gain = 1.0 - np.true_divide(n_pos * fps, den)\n", "        ratio = np.true_divide(n_pos, den)\n        rec_gain = 1.0 - np.true_divide(n_pos * fns, den)\n        prec_gain = 1.0 - np.true_divide(n_pos * fps, den)\n    del ratio\n"),
    (U, "    y_bin[range(N), y] = True\n    return y_bin\n", "    for row, label in enumerate(y):\n        y_bin[row, label] = True\n    return y_bin\n"),
    (U, "    deltas = np.diff(xp)\n    assert np.all(deltas >= 0)\n", "    deltas = xp[1:] - xp[:-1]\n    assert (deltas >= 0).all()\n"),
    (U, "    idx = np.searchsorted(xp, x_grid, side=\"right\") - 1\n    y_grid = yp[idx]\n    return y_grid\n", "    return yp[xp.searchsorted(x_grid, side=\"right\") - 1]\n"),
    (U, "    x = np.copy(x) if copy else x\n", "    if copy:\n        x = x.copy()\n"),
    (U, "    delta = default_epsilon if len(u_x) <= 1 else np.min(np.diff(u_x))\n", "    delta = default_epsilon if len(u_x) <= 1 else np.diff(u_x).min()\n"),
    (G, "        self.std = np.std(y_train, ddof=0)\n", "        self.std = y_train.std()\n"),
    (G, "    loss = -ss.norm.logpdf(y, loc=mu, scale=std)\n    return loss\n", "    z = (y - mu) / std\n    return 0.5 * z ** 2 + np.log(std) + 0.5 * np.log(2.0 * np.pi)\n"),
    (D, "    df_sub = df if features is None else df[list(features)]  # Take all if None\n", "    df_sub = df\n    if features is not None:\n        df_sub = df[[f for f in features]]\n"),
    (D, "        train_curr = pd.Series(index=S.index, data=rand_mask(len(S), frac))\n", "        train_curr = pd.Series(rand_mask(len(S), frac), index=S.index)\n"),
    (D, "    if assume_sorted and assume_unique:\n        all_cases = S.values\n    elif assume_unique:  # but not sorted\n        all_cases = np.sort(S.values)\n    else:\n        all_cases = np.unique(S.values)\n",
     "    if assume_unique:\n        all_cases = S.values if assume_sorted else S.sort_values().values\n    else:\n        all_cases = np.sort(S.unique())\n"),
    (D, "        S = index_to_series(df.index) if feature is INDEX else df[feature]\n", "        if feature is INDEX:\n            S = index_to_series(df.index)\n        else:\n            S = df[feature]\n"),
    (S, "    y = decimal.Decimal(decimal.DecimalTuple(signed, digits, expo))\n    return y\n", "    return decimal.Decimal((signed, digits, expo))\n"),
    (S, "    all_small = min_shift > max_shift\n    if all_small:\n        min_shift = max_shift\n", "    all_small = max_shift < min_shift\n    min_shift = min(min_shift, max_shift)\n"),
    (S, "    if pval.is_nan():\n        pval_str = non_finite_fmt.get(NAN_STR, NAN_STR)\n    elif pval <= pval_eps:\n", "    if pval.is_nan():\n        return non_finite_fmt.get(NAN_STR, NAN_STR)\n    if pval <= pval_eps:\n"),
    (S, "        mu_str = NAN_STR if mu.is_nan() else str(float(mu))\n        # Default to float string rep if no instructions\n        return non_finite_fmt.get(mu_str, mu_str)\n", "        if mu.is_nan():\n            mu_str = NAN_STR\n        else:\n            mu_str = \"inf\" if mu > 0 else \"-inf\"\n        # Default to float string rep if no instructions\n        return non_finite_fmt[mu_str] if mu_str in non_finite_fmt else mu_str\n"),
    (S, "            mu, EB = mean_series[method], err_series[method]\n", "            mu = mean_series.loc[method]\n            EB = err_series.loc[method]\n"),
    (S, "            prefix = prefix_dict.get(rev_shift, None)\n            if use_prefix and (prefix is not None):\n                new_headers[nn] = \"%s (%s%s)\" % (metric_str, prefix, unit)\n", "            if use_prefix and rev_shift in prefix_dict:\n                new_headers[nn] = \"%s (%s%s)\" % (metric_str, prefix_dict[rev_shift], unit)\n"),
    (S, "        if use_tex:\n            # siunitx package confused w/o {}, maybe better way than if\n            new_headers[nn] = \"{%s}\" % new_headers[nn]\n    return new_headers\n", "    if use_tex:\n        # siunitx package confused w/o {}, maybe better way than if\n        new_headers = [\"{%s}\" % hh for hh in new_headers]\n    return new_headers\n"),
]

# ---- bundle 4: tables assembled in other ways, helpers shared between functions
R["r4"] = [
    (B, "    p_BS = np.ones(N) / N\n    weight = np.maximum(epsilon, np.random.multinomial(N, p_BS, size=n_boot))\n",
     "    weight = np.random.multinomial(N, np.repeat(1.0 / N, N), size=n_boot)\n    weight = np.maximum(weight, epsilon)\n"),
    (B, "    EB = np.fmax(UB - original_estimate, original_estimate - LB)\n", "    EB = np.fmax.reduce([UB - original_estimate, original_estimate - LB])\n"),
    (M, "    EB = np.clip(EB, min_EB, EB_trivial)\n    return EB\n", "    EB = np.maximum(min_EB, EB)\n    EB = np.minimum(EB, EB_trivial)\n    return EB\n"),
    (M, "def clip_EB(", "def _few_or_non_finite(x):\n    return (len(x) <= 1) or (not np.all(np.isfinite(x)))\n\n\ndef clip_EB("),
    (M, "    if (len(x) <= 1) or (not np.all(np.isfinite(x))):\n        return 1.0  # Can't say anything about scale => p=1\n\n    _, pval", "    if _few_or_non_finite(x):\n        return 1.0  # Can't say anything about scale => p=1\n\n    _, pval"),
    (M, "    if (len(x) <= 1) or (not np.all(np.isfinite(x))):\n        return 1.0  # Can't say anything about scale => p=1\n    if (range_", "    if _few_or_non_finite(x):\n        return 1.0  # Can't say anything about scale => p=1\n    if (range_"),
    (M, "    coef_roots = np.roots(coef)\n", "    coef_roots = np.sort(np.roots(coef))\n"),
    (M, "    EB = 0.5 * ss.sem(x) * (UB - LB)\n", "    half_width = 0.5 * (UB - LB)\n    EB = half_width * np.std(x, ddof=1) / np.sqrt(N)\n"),
    (M, "    delta = 1.0 - confidence\n    A = np.log(3.0 / delta)\n", "    A = np.log(3.0) - np.log(1.0 - confidence)\n"),
    (M, "    if method == \"t\":\n        pval = t_test(x)\n    elif method == \"bernstein\":\n        pval = bernstein_test(x, lower, upper)\n    elif method == \"boot\":\n        pval = boot_test(x)\n    else:\n        assert False\n    return pval\n",
     "    tests = {\"t\": lambda: t_test(x), \"bernstein\": lambda: bernstein_test(x, lower, upper), \"boot\": lambda: boot_test(x)}\n    assert method in tests\n    return tests[method]()\n"),
    (M, "            perf_tbl.loc[method, metric] = (mu, EB, pval)\n", "            perf_tbl.loc[method, [(metric, ss_) for ss_ in STD_STATS]] = [mu, EB, pval]\n"),
    (C, "    loss = loss_mat[y.astype(int), action]\n", "    loss = np.array([loss_mat[label, act] for label, act in zip(y.astype(int), action)])\n"),
    (C, "    loss = np.sum((np.exp(log_pred_prob) - y_bin) ** 2, axis=1)\n", "    delta = np.exp(log_pred_prob) - y_bin\n    loss = np.sum(delta * delta, axis=1)\n"),
    (C, "    loss = -np.exp(log_pred_prob[np.arange(N), y.astype(int)] - log_normalizer)\n", "    loss = -np.exp(-log_loss(y, log_pred_prob) - log_normalizer)\n"),
    (C, "            curve_tbl.loc[method, curve_name] = curve_summary\n", "            for stat, value in zip(STD_STATS, curve_summary):\n                curve_tbl.loc[method, (curve_name, stat)] = value\n"),
    (C, "    pval = bu.significance(auc_boot, ref_boot)\n", "    pval = bu.significance(auc_boot, ref=ref_boot)\n"),
    (C, "    curve = pd.DataFrame(\n        data=np.stack((x_grid, y_grid, y_LB, y_UB), axis=1), index=range(x_grid.size), columns=CURVE_STATS, dtype=float\n    )\n",
     "    curve_cols = dict(zip(CURVE_STATS, (x_grid, y_grid, y_LB, y_UB)))\n    curve = pd.DataFrame(curve_cols, index=range(x_grid.size), columns=CURVE_STATS, dtype=float)\n"),
    (C, "        n_samples = X_test.shape[0]\n", "        n_samples = len(X_test)\n"),
    (P, "        tps = np.cumsum(y_true)[threshold_idxs]\n        fps = 1 + threshold_idxs - tps\n", "        tps = y_true.cumsum()[threshold_idxs]\n        fps = (threshold_idxs + 1) - tps\n"),
    (P, "    prec_gain[:, 0] = prec_gain[:, 1]\n", "    prec_gain[:, :1] = prec_gain[:, 1:2]\n"),
    (P, "    fps = np.maximum.accumulate(fps, axis=1)\n", "    for ii in range(1, fps.shape[1]):\n        fps[:, ii] = np.maximum(fps[:, ii - 1], fps[:, ii])\n"),
    (U, "    x = x + delta * (np.random.rand(len(x)) - 0.5)\n    return x\n", "    jitter = delta * (np.random.rand(len(x)) - 0.5)\n    return np.add(x, jitter)\n"),
    (U, "    idx = [] if xp.size == 0 else np.concatenate((deltas > 0, [True]))\n", "    idx = np.ones(xp.size, dtype=bool)\n    idx[:-1] = deltas > 0\n"),
    (U, "        xp = np.concatenate(([-np.inf], xp))\n        yp = np.concatenate(([ival], yp))\n", "        xp = np.insert(xp, 0, -np.inf)\n        yp = np.append([ival], yp)\n"),
    (U, "        auc = np.trapz(y_curve, x_curve, axis=1)\n", "        mid = 0.5 * (y_curve[:, 1:] + y_curve[:, :-1])\n        auc = (mid * np.diff(x_curve)).sum(axis=1)\n"),
    (G, "    loss = (y - mu) ** 2\n    return loss\n", "    err = mu - y\n    return err * err\n"),
    (G, "    n_samples, = y.shape\n", "    (n_samples,) = np.shape(y)\n"),
    (G, "        mu = np.repeat([self.mu], N, axis=0)\n        std = np.repeat([self.std], N, axis=0)\n        return mu, std\n", "        return self.mu * np.ones(N), self.std * np.ones(N)\n"),
    (D, "    L = np.random.choice(x, N, replace=False)\n", "    L = np.random.choice(x, size=N, replace=False)\n"),
    (D, "    train_series = pd.Series(index=df.index, data=True)\n    test_series = pd.Series(index=df.index, data=True)\n", "    train_series = pd.Series(data=np.ones(len(df), dtype=bool), index=df.index)\n    test_series = train_series.copy()\n"),
    (D, "    S = pd.Series(index=index, data=index)\n    return S\n", "    return pd.Series(data=index, index=index)\n"),
    (D, "    df = df.reorder_levels(list(range(1, len(df.columns.names))) + [0], axis=1)\n    return df\n", "    n_levels = df.columns.nlevels\n    new_order = list(range(1, n_levels)) + [0]\n    df.columns = df.columns.reorder_levels(new_order)\n    return df\n"),
    (S, "    str_len = len(remove_chars(x_str, \",.\"))\n    return str_len\n", "    return len(x_str) - x_str.count(\",\") - x_str.count(\".\")\n"),
    (S, "    T = tuple([int(mm) for mm in L])\n    return T\n", "    return tuple(map(int, L))\n"),
    (S, "            perf_tbl_dec.loc[method, (metric, MEAN_COL)] = mu\n            perf_tbl_dec.loc[method, (metric, ERR_COL)] = EB\n            perf_tbl_dec.loc[method, (metric, PVAL_COL)] = pval\n",
     "            for stat, value in ((MEAN_COL, mu), (ERR_COL, EB), (PVAL_COL, pval)):\n                perf_tbl_dec.loc[method, (metric, stat)] = value\n"),
    (S, "        best_shift = None\n    best_len" if False else "    best_shift = None\n    best_len = np.inf\n", "    best_shift, best_len = None, np.inf\n"),
    (S, "    max_right = max(len(ss) - find_last_dig(ss) for ss in num_str_list)\n", "    max_right = 0\n    for ss in num_str_list:\n        max_right = max(max_right, len(ss) - find_last_dig(ss))\n"),
    (S, "    to_str = table_to_latex if use_tex else table_to_string\n", "    if use_tex:\n        to_str = table_to_latex\n    else:\n        to_str = table_to_string\n"),
    (S, "        metric_str = metric.replace(\"_\", \" \")\n", "        metric_str = \" \".join(metric.split(\"_\"))\n"),
]
