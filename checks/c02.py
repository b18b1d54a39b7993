"""C02 Bayes optimal hard decisions."""
import numpy as np
from checks.common import dist, labels, logs

BOUNDS = "1..2 rows, 1..4 labels, 1..4 actions, every probability and every loss-matrix entry symbolic (any sign); exact zero probabilities, integer loss matrices and fixed matrices at scales 1e-12..1e9 included; every label vector; large instances with a few symbolic entries: 140 labels, 300 labels, 300 actions"
ASSUMPTIONS = ["np.argmin returns some index of the minimum (the first one); ties may be broken any way"]


def mat(c, L, K):
    return [[c.real("m%d_%d" % (i, j)) for j in range(K)] for i in range(L)]


def decision(c, R, L, K, zero="none"):
    cl = c.M.classification
    P = [dist(c, "p%d_" % i, L, zero if i == 0 else "none", 0) for i in range(R)]
    mt = mat(c, L, K)
    lp, lm = logs(c, P), c.arr(mt)
    s1, s2 = c.snapshot(lp), c.snapshot(lm)
    act = [int(a) for a in cl.hard_loss_decision(lp, lm)]
    c.same(len(act), R, "one action per row")
    E = [[c.Sum([P[i][l] * mt[l][a] for l in range(L)]) for a in range(K)] for i in range(R)]
    for i in range(R):
        if not 0 <= act[i] < K:
            c.fail("action out of range")
            return
        for a in range(K):
            c.le(E[i][act[i]], E[i][a], "row %d: chosen action has the smallest expected loss (vs %d)" % (i, a))
    c.unchanged(lp, s1, "log probabilities")
    c.unchanged(lm, s2, "loss matrix")


def charged(c, R, L, K, dtype=int):
    """loss charged = entry of the true label and an optimal action"""
    cl = c.M.classification
    ys, y = labels(c, R, L, dtype)
    P = [dist(c, "p%d_" % i, L) for i in range(R)]
    mt = mat(c, L, K)
    lp, lm = logs(c, P), c.arr(mt)
    s2 = c.snapshot(lm)
    act = [int(a) for a in cl.hard_loss_decision(lp, lm)]
    loss = c.cells(cl.hard_loss(y, lp, lm))
    c.same(len(loss), R, "one loss per row")
    for i in range(R):
        E = [c.Sum([P[i][l] * mt[l][a] for l in range(L)]) for a in range(K)]
        if c.concrete:
            srt = sorted(E)
            c.assume(K == 1 or srt[1] - srt[0] > 1e-9 or srt[1] == srt[0])
        for a in range(K):
            if a != act[i]:
                c.assume(E[act[i]] < E[a])  # ties are covered by `decision`
        c.eq(loss[i], mt[ys[i]][act[i]], "row %d: loss of the true label and the chosen action" % i)
    c.unchanged(lm, s2, "loss matrix")


def charged_int(c, L, K, m):
    """integer loss matrix"""
    cl = c.M.classification
    ys, y = labels(c, 2, L)
    P = [dist(c, "p0_", L), dist(c, "p1_", L, "certain", 0)]
    lm = np.array(m)
    loss = c.cells(cl.hard_loss(y, logs(c, P), lm))
    for i in range(2):
        E = [c.Sum([P[i][l] * m[l][a] for l in range(L)]) for a in range(K)]
        opt = [c.And(*[E[a] <= E[b] for b in range(K)]) for a in range(K)]
        if c.concrete:
            opt = [all(E[a] <= E[b] + 1e-9 for b in range(K)) for a in range(K)]
        c.check(c.Or(*[c.And(opt[a], c.eqv(loss[i], m[ys[i]][a])) for a in range(K)]), "row %d: charged for an optimal action" % i)


def scaled(c, L, K, m, sc):
    """the scale and offset of the loss matrix do not matter"""
    cl = c.M.classification
    off = c.pick("off", [0, 1, -3])
    P = [dist(c, "p0_", L)]
    k = c.num(sc)
    mt = [[k * (v + off) for v in r] for r in m]
    a = int(cl.hard_loss_decision(logs(c, P), c.arr(mt))[0])
    E = [c.Sum([P[0][l] * (m[l][b] + off) for l in range(L)]) for b in range(K)]
    for b in range(K):
        c.le(E[a], E[b], "chosen action has the smallest expected loss (vs %d)" % b)


def zero_one(c, R, L, dtype=int, zero="none"):
    cl = c.M.classification
    ys, y = labels(c, R, L, dtype)
    P = [dist(c, "p%d_" % i, L, zero, i) for i in range(R)]
    loss = c.cells(cl.hard_loss(y, logs(c, P)))
    c.same(len(loss), R, "one loss per row")
    for i in range(R):
        t = ys[i]
        others = [P[i][k] for k in range(L) if k != t]
        if c.concrete and others:
            c.assume(abs(P[i][t] - max(others)) > 1e-9)
        best = c.And(*[P[i][t] > o for o in others])
        worse = c.Or(*[P[i][t] < o for o in others]) if others else False
        if best:
            c.eq(loss[i], 0, "row %d: most probable label costs 0" % i)
        elif worse:
            c.eq(loss[i], 1, "row %d: wrong label costs 1" % i)
        else:
            c.check(c.Or(c.eqv(loss[i], 0), c.eqv(loss[i], 1)), "row %d: tie costs 0 or 1" % i)


def large(c, L, K, t, a):
    """many labels or actions: label t has a symbolic probability, action a is the best one for it"""
    cl = c.M.classification
    q = c.real("q", 0, 1, lo_open=True, hi_open=True)
    c.assume(c.Not(c.eqv(q, c.frac(1, 2))))
    if c.concrete:
        c.assume(abs(q - 0.5) > 1e-9)
    o = 0 if t else L - 1
    r = [c.num(0)] * L
    r[t], r[o] = q, 1 - q
    lp = logs(c, [r, r])
    y = np.array([t, o])
    if K is None:
        ex = [0, 1] if q > c.frac(1, 2) else [1, 0]
        c.eqs(c.cells(cl.hard_loss(y, lp)), ex, "zero-one loss (many labels)")
        return
    m = np.full((L, K), 5)
    b = 0 if a else K - 1
    m[t, a], m[o, b], m[o, a] = 1, 1, 7
    m[t, b] = 7
    act = [int(v) for v in cl.hard_loss_decision(lp, m)]
    w = a if q > c.frac(1, 2) else b  # 7 - 6q against 1 + 6q; any other action costs 5
    c.same(act, [w, w], "best action (many)")
    loss = c.cells(cl.hard_loss(y, lp, m))
    c.eqs(loss, [int(m[t, act[0]]), int(m[o, act[1]])], "loss charged (many)")


def explicit01(c, R, L):
    """passing 1 - I explicitly changes nothing"""
    cl = c.M.classification
    ys, y = labels(c, R, L)
    P = [dist(c, "p%d_" % i, L) for i in range(R)]
    for i in range(R):
        for a in range(L):
            for b in range(a):
                c.assume(c.Not(c.eqv(P[i][a], P[i][b])))
                if c.concrete:
                    c.assume(abs(P[i][a] - P[i][b]) > 1e-9)
    lp = logs(c, P)
    m = c.arr([[1 - (i == j) for j in range(L)] for i in range(L)])
    c.eqs(c.cells(cl.hard_loss(y, lp)), c.cells(cl.hard_loss(y, lp, loss_mat=m)), "default matrix")


def history(c, L):
    """a call with its own matrix does not affect later calls, and the other way round"""
    cl = c.M.classification
    p = c.real("p", 0, 1, lo_open=True, hi_open=True)
    c.assume(p > c.frac(9, 10))
    t = c.pick("t", range(L))
    P = [p if k == t else c.div(1 - p, L - 1) for k in range(L)]
    lp, y = logs(c, [P, P]), np.array([t, (t + 1) % L])
    m = np.array([[7 - (i == j) for j in range(L)] for i in range(L)])
    v = np.array([[2.0 if j == (i + 1) % L else 5.0 for j in range(L)] for i in range(L)])
    for w in c.pick("order", ["mvd", "dmv", "vdm", "dvd"]):
        if w == "d":
            c.eqs(c.cells(cl.hard_loss(y, lp)), [0, 1], "default matrix (several calls)")
        else:
            M = m if w == "m" else v
            a = t if w == "m" else (t + 1) % L
            c.same([int(q) for q in cl.hard_loss_decision(lp, M)], [a, a], "decision (several calls)")
            c.eqs(c.cells(cl.hard_loss(y, lp, M)), [float(M[t, a]), float(M[(t + 1) % L, a])], "loss (several calls)")


def tasks(tier):
    q = tier == "quick"
    T = []
    sh = [(1, 1, 1), (1, 1, 3), (1, 2, 1), (1, 2, 2), (1, 2, 3), (1, 3, 2), (1, 3, 3), (2, 2, 2), (2, 3, 2), (2, 2, 3), (1, 4, 4)]
    if not q:
        sh += [(1, 5, 3), (2, 3, 3), (1, 3, 5), (3, 2, 2)]
    for R, L, K in sh:
        T.append(("decision", dict(R=R, L=L, K=K), None))
    T.append(("decision", dict(R=2, L=3, K=2, zero="one"), None))
    T.append(("decision", dict(R=1, L=3, K=3, zero="certain"), None))
    for R, L, K in [(1, 1, 2), (1, 2, 2), (1, 2, 3), (1, 3, 2), (2, 2, 2), (2, 2, 1)] + ([] if q else [(1, 3, 3), (2, 2, 3), (2, 3, 2)]):
        T.append(("charged", dict(R=R, L=L, K=K), None))
    T.append(("charged", dict(R=2, L=2, K=2, dtype="bool"), None))
    T.append(("charged_int", dict(L=2, K=3, m=[[0, 5, 1], [2, -1, 1]]), None))
    T.append(("charged_int", dict(L=3, K=3, m=[[0, 1, 2], [4, 0, 1], [9, 3, 0]]), None))
    T.append(("charged_int", dict(L=3, K=3, m=[[1, 2, 3], [4, 5, 6], [7, 8, 0]]), None))
    T.append(("charged_int", dict(L=3, K=3, m=[[-5, 0, 2], [0, -1, 1], [2, 3, -9]]), None))
    for sc in (1e-12, 1e-6, 1e9):
        T.append(("scaled", dict(L=2, K=2, m=[[0, 5], [7, 1]], sc=sc), None))
        T.append(("scaled", dict(L=3, K=3, m=[[1, 2, 3], [4, 0, 6], [9, 8, 2]], sc=sc), None))
    for R, L in [(1, 1), (1, 2), (2, 2), (1, 3), (2, 3), (1, 4), (3, 2)]:
        T.append(("zero_one", dict(R=R, L=L), None))
    T.append(("zero_one", dict(R=2, L=2, dtype="bool"), None))
    T.append(("zero_one", dict(R=2, L=3, zero="one"), None))
    T.append(("zero_one", dict(R=2, L=3, zero="certain"), None))
    T.append(("large", dict(L=140, K=None, t=139, a=0), None))
    T.append(("large", dict(L=2, K=300, t=1, a=257), None))
    T.append(("large", dict(L=300, K=3, t=258, a=2), None))
    for L in (2, 3, 4):
        T.append(("history", dict(L=L), None))
    for lay in ("F", "neg", "step", "ro"):
        T.append(("decision", dict(R=2, L=2, K=3), dict(layout=lay)))
        T.append(("charged", dict(R=2, L=2, K=2), dict(layout=lay)))
        T.append(("zero_one", dict(R=2, L=3), dict(layout=lay)))
    T.append(("explicit01", dict(R=1, L=3), None))
    T.append(("explicit01", dict(R=2, L=2), None))
    return T
