"""C21: R2 and Q2 are the determination and leave-one-out coefficients."""
import math

import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np
import openturns as ot
import otpod
from hypothesis import strategies as st

from harness import Info, Reject, Sub, expect, expect_all_close, expect_close, fresh, must_raise, sut
from props import c11, c12
from props.common import (LAMBDAS, SEEDS, boxcox, boxcox_shift, check_loss, choice, col, factory,
                          qr_fits, qr_optimum, split, uni_cases, uni_data)

ID = "C21"
RULE = ("Univariate data for the linear and quantile regressions (thresholds, boxCox), data of "
        "dimension 1 to 3 for the chaos (default, full or supplied expansion) and kriging (bases, "
        "covariance models, optimised or not, supplied results) and enriched designs for the "
        "adaptive signal POD. Leave-one-out predictions are recomputed by n refits without the "
        "point. Non-trivial: Q2 (or R2) is below 0.9999 and some leave-one-out prediction differs "
        "from the fitted value by more than 1 % of the range.")


# --------------------------------------------------------------------------
# linear
# --------------------------------------------------------------------------
@st.composite
def lin_cases(draw):
    c = draw(uni_cases(nmin=12, nmax=60, boxcox=("off", "off", "fixed", "optimal")))
    c["lam"] = draw(choice(*LAMBDAS))
    c["fact"] = draw(choice("none", "normal", "logistic"))
    c["det"] = draw(st.integers(20, 80))
    c["q"] = draw(st.lists(st.integers(4, 96), min_size=1, max_size=3, unique=True))
    return c


def run(pod, c):
    pod.setVerbose(False)
    if isinstance(pod, otpod.QuantileRegressionPOD):
        pod.setQuantile([0.3, 0.5, 0.7])
    pod.setSimulationSize(4)
    fresh(c["seed"])
    pod.run()


def uni_signals(c, lam_of, then=None):
    x, y, noise, sat, keep, lo, hi = uni_data(c)
    bc = {"off": False, "fixed": float(c["lam"]), "optimal": True}[c["boxcox"]]
    det = float(np.quantile(y[keep], c["det"] / 100.0))
    try:
        obj = lam_of(x, y, det, noise, sat, bc)
        if then is not None:
            then(obj, c)
    except Reject:
        raise
    except Exception as e:
        raise Reject("rejected: %s" % e)
    z = y[keep]
    if bc is not False:
        lam = float(obj.getBoxCoxParameter())
        if bc is True and abs(lam) < 1e-3:
            raise Reject("the parameter is close to 0")
        z = boxcox(z + boxcox_shift(y[keep]), lam)
        if np.ptp(z) < 1e-4:
            raise Reject("transformed signals equal up to rounding")
    return obj, x[keep], z, noise is not None or sat is not None


def r2_of(z, pred):
    return 1 - np.var(z - pred) / np.var(z)


def check_linear(c):
    f = factory(c["fact"]) if c["fact"] != "none" else ot.NormalFactory()
    an, u, z, cens = uni_signals(c, lambda x, y, det, a, b, bc: otpod.UnivariateLinearModelAnalysis(
        col(x), col(y), a, b, f, bc))
    got = np.ravel(np.array(sut("getR2", an.getR2)))
    expect(len(got) == 1 + cens, "getR2 returns %d values", len(got))
    b0, b1 = np.ravel(np.array(an.getIntercept())), np.ravel(np.array(an.getSlope()))
    tol = 1e-7 * (1 + (np.abs(z).max() / np.std(z)) ** 2 * 1e-3)
    if tol > 1e-3:
        raise Reject("relative variations too small")
    want = []
    for k in range(1 + cens):
        want.append(r2_of(z, b0[k] + b1[k] * u))
        expect_close("getR2()[%d]" % k, float(got[k]), want[k], 1e-6, tol)
    # the ordinary least squares one is the squared correlation
    expect_close("getR2 of least squares", float(got[0]), float(np.corrcoef(u, z)[0, 1]) ** 2, 1e-6,
                 tol)
    for way in ("data", "analysis"):
        if way == "analysis":
            det = float(np.quantile(uni_data(c)[1], c["det"] / 100.0))
            try:
                pod = otpod.UnivariateLinearModelPOD(analysis=an, detection=det)
                run(pod, c)
            except Exception as e:
                raise Reject("rejected: %s" % e)
        else:
            pod = uni_signals(c, lambda x, y, det, a, b, bc: otpod.UnivariateLinearModelPOD(
                col(x), col(y), det, a, b, f, bc), run)[0]
        expect_close("getR2 of the POD built from the %s" % way, float(sut("getR2", pod.getR2)),
                     want[-1], 1e-5, 10 * tol)
    return Info(nontrivial=max(want) < 0.9999,
                labels=["cens %s" % c["cens"], "boxcox %s" % c["boxcox"]])


def check_qr(c):
    pod, u, z, _ = uni_signals(c, lambda x, y, det, a, b, bc: otpod.QuantileRegressionPOD(
        col(x), col(y), det, a, b, bc), run)
    nt = False
    for k in c["q"]:
        q = k / 100.0
        got = float(sut("getR2", pod.getR2, q))
        best = qr_optimum(u, z, q)[0]
        # the loss of the constant model, at either convention of the sample quantile
        k0 = [check_loss(z - a, q) for a in np.concatenate([
            [np.quantile(z, q)], np.sort(z)])]
        lo, hi = min(k0), k0[0]
        if not lo > 1e-9 * np.ptp(z):
            raise Reject("constant signals")
        e = 1e-6 + 1e-9 * np.abs(z).max() / np.ptp(z)
        # the fit may be stopped before convergence: the iterative fits are accepted too
        near = 1 - 1.25 * best / lo - e <= got <= 1 - best / hi + e and any(
            abs(1 - check_loss(z - b[0] - b[1] * u, q) / hi - got) < 1e-3 for b in qr_fits(u, z, q))
        expect(near or 1 - 1.02 * best / lo - e <= got <= 1 - best / hi + e,
               "getR2(%r) = %r, the pseudo R2 is in [%r, %r]", q, got, 1 - 1.02 * best / lo,
               1 - best / hi)
        nt |= got < 0.9999
    return Info(nontrivial=nt, labels=["cens %s" % c["cens"], "boxcox %s" % c["boxcox"]])


# --------------------------------------------------------------------------
# chaos
# --------------------------------------------------------------------------
def q2_close(what, got, err, z, tol):
    """Either convention of the variance of the signals."""
    want = [1 - np.mean(err ** 2) / np.var(z, ddof=k) for k in (0, 1)]
    expect(min(abs(got - w) for w in want) <= tol * (1 + abs(want[0])),
           "%s: %r, brute force leave-one-out gives %r", what, got, want)
    return want[0]


def check_chaos(c):
    P = c11.prepare(dict(c, N=20), 2)
    pod, x, z, res, n = [P[k] for k in ("pod", "x", "z", "res", "n")]
    pred = np.array(res.getMetaModel()(ot.Sample(x)))[:, 0]
    sc = np.abs(z).max() / np.std(z)
    tol = 1e-7 * (1 + 1e-3 * sc ** 2)
    if tol > 1e-3:
        raise Reject("relative variations too small")
    expect_close("getR2", float(sut("getR2", pod.getR2)), r2_of(z, pred), 1e-6, tol)
    B = c11.reduced(P)
    if np.linalg.cond(B) > 1e6:
        raise Reject("ill conditioned basis")
    err = np.empty(n)
    if P["user"] is None:
        for i in range(n):
            k = np.arange(n) != i
            b = np.linalg.lstsq(B[k], z[k], rcond=None)[0]
            err[i] = z[i] - B[i] @ b
        w = q2_close("getQ2", float(sut("getQ2", pod.getQ2)), err, z, 1e-6 + tol)
    else:
        # the coefficients are not the least squares ones of these signals: corrected residuals
        H = B @ np.linalg.solve(B.T @ B, B.T)
        err = (z - pred) / (1 - np.diag(H))
        w = q2_close("getQ2 (supplied expansion)", float(sut("getQ2", pod.getQ2)), err, z,
                     1e-6 + tol)
    return Info(nontrivial=w < 0.9999 and np.abs(err - (z - pred)).max() > 0.01 * np.ptp(z),
                labels=["dim %d" % c["dim"], c["strategy"], c["dist"]])


# --------------------------------------------------------------------------
# kriging
# --------------------------------------------------------------------------
def loo(cov, bas, U, z):
    """Universal kriging prediction at each point without it, same covariance, refitted trend."""
    n = len(z)
    K = np.array(cov.discretize(ot.Sample(U)))
    F = np.column_stack([np.array(bas.build(i)(ot.Sample(U)))[:, 0] for i in range(bas.getSize())])
    if np.linalg.cond(K) > 1e9 or np.linalg.cond(F) > 1e6:
        raise Reject("ill conditioned")
    out = np.empty(n)
    for i in range(n):
        k = np.arange(n) != i
        L = np.linalg.cholesky(K[np.ix_(k, k)])
        A, b = np.linalg.solve(L, F[k]), np.linalg.solve(L, z[k])
        beta = np.linalg.lstsq(A, b, rcond=None)[0]
        w = np.linalg.solve(L.T, np.linalg.solve(L, z[k] - F[k] @ beta))
        out[i] = F[i] @ beta + K[i, k] @ w
    return out


def drawn(pod, z):
    plt.close("all")
    _, ax = sut("drawValidationGraph", pod.drawValidationGraph)
    sets = [np.array(l.get_xydata(), dtype=float) for l in ax.get_lines()]
    for s in ax.collections:
        sets.append(np.array(s.get_offsets(), dtype=float))
    sets = [g for g in sets if len(g) == len(z)]
    plt.close("all")
    expect(len(sets) == 1, "drawValidationGraph draws %d sets of the size of the data", len(sets))
    return sets[0]


def judge_kriging(pod, U, z, bas, cond, labels):
    res = sut("getKrigingResult", pod.getKrigingResult)
    cov = res.getCovarianceModel()
    p = loo(cov, bas, U, z)
    e = z - p
    # residuals equal to 0 up to rounding for a deterministic signal
    w = q2_close("getQ2", float(sut("getQ2", pod.getQ2)), e, z, 1e-5)
    g = drawn(pod, z)
    a, b = np.lexsort((g[:, 1], g[:, 0])), np.lexsort((p, z))
    s = np.ptp(z)
    expect_all_close("signals of drawValidationGraph", g[a, 0], z[b], 1e-9, 1e-9 * s)
    if len(np.unique(z)) == len(z):
        expect_all_close("leave-one-out predictions of drawValidationGraph", g[a, 1], p[b], 1e-5,
                         1e-5 * s)
    fit = np.array(res.getMetaModel()(ot.Sample(U)))[:, 0]
    return Info(nontrivial=w < 0.9999 and np.abs(p - fit).max() > 0.01 * s, labels=labels)


@st.composite
def krig_cases(draw):
    c = draw(c12.cases())
    c["N"], c["S"] = 5, 3
    c["sizes"] = c["sizes"][:2]
    return c


def check_kriging(c):
    x, y, noise, sat, keep, det, sizes = c12.load(c)
    sh = boxcox_shift(y[keep])
    if c["boxcox"] is not False and any(
            t is not None and t + sh <= 0 for t in (noise, sat, det)):
        raise Reject("domain of Box Cox")
    pod = sut("KrigingPOD", otpod.KrigingPOD, x, col(y), det, noise, sat, c["boxcox"])
    pod.setVerbose(False)
    pod.setDefectSizes(sizes)
    z = y[keep]
    if c["boxcox"] is not False:
        f = ot.BoxCoxTransform([float(pod.getBoxCoxParameter())])
        z = np.array(f(ot.Sample(col(z + sh))))[:, 0]
    if np.ptp(z) < 1e-6:
        raise Reject("flat signals")
    xk = x[keep]
    mu, sd = xk.mean(axis=0), xk.std(axis=0, ddof=1)
    U = (xk - mu) / sd
    if c12.distribution(c) is not None:
        pod.setDistribution(c12.distribution(c))
    if c["basis"] != "default":
        pod.setBasis(c12.basis(c))
    if c["cov"] != "default":
        pod.setCovarianceModel(c12.covariance(c))
    pod.setInitialStartSize(c["start"])
    norm = c["user"] != "original"
    if c["user"] != "no":
        rs = np.random.RandomState((c["seed"] + 7) % 2 ** 32)
        zz = z + 0.2 * np.std(z) * rs.randn(len(z))
        cov = c12.covariance(c)
        if not norm:
            cov.setScale(list(np.array(cov.getScale()) * sd))
        sut("setKrigingResult", pod.setKrigingResult,
            c12.train(U if norm else xk, zz, cov, c12.basis(c)))
    pod.setSamplingSize(c["N"])
    pod.setSimulationSize(c["S"])
    fresh(c["seed"])
    sut("run", pod.run)
    return judge_kriging(pod, U if norm else xk, z, c12.basis(c), None,
                         ["dim %d" % c["dim"], c["user"], c["cov"], c["basis"],
                          "start %d" % c["start"], "boxcox %s" % c["boxcox"]])


@st.composite
def signal_cases(draw):
    return {"seed": draw(SEEDS), "n": draw(st.integers(14, 26)), "dim": draw(choice(2, 3)),
            "more": draw(choice(1, 2, 3)), "cens": draw(choice("none", "none", "both")),
            "boxcox": draw(choice(False, False, 0.5)), "start": draw(choice(0, 0, 3)),
            "sigma": draw(choice(0.0, 0.5)), "cov": draw(choice("exp", "matern", "default")),
            "basis": draw(choice("default", "linear", "square"))}


def check_signal(c):
    d = c["dim"]
    rs = np.random.RandomState(c["seed"] % 2 ** 32)
    x = np.empty((c["n"], d))
    x[:, 0] = rs.uniform(0.5, 3.5, c["n"])
    x[:, 1] = rs.uniform(-10, 10, c["n"])
    if d > 2:
        x[:, 2] = rs.normal(200, 40.0, c["n"])

    def f(v):
        return [10 + 4 * v[0] + 0.1 * v[1] + math.sin(v[1] / 4) + (
            0.02 * (v[2] - 200) if d > 2 else 0.0)]
    phys = ot.PythonFunction(d, 1, f)
    y = np.array([f(v)[0] for v in x]) + c["sigma"] * rs.randn(c["n"])
    s = np.sort(y)
    noise = float(0.5 * (s[1] + s[2])) if c["cens"] == "both" else None
    sat = float(0.5 * (s[-2] + s[-3])) if c["cens"] == "both" else None
    keep = np.array(split(x[:, 0], y, noise, sat)[0])
    det = float(np.median(y[keep]))
    pod = sut("AdaptiveSignalPOD", otpod.AdaptiveSignalPOD, x, col(y), phys, c["more"], det, noise,
              sat, c["boxcox"])
    pod.setVerbose(False)
    lo, hi = x[keep, 0].min(), x[keep, 0].max()
    pod.setDefectSizes([float(lo), float(0.5 * (lo + hi)), float(hi)])
    pod.setSamplingSize(20)
    pod.setSimulationSize(4)
    pod.setCandidateSize(15)
    pod.setInitialStartSize(c["start"])
    if c["cov"] != "default":
        pod.setCovarianceModel(c12.covariance(c))
    if c["basis"] != "default":
        pod.setBasis(c12.basis(c))
    fresh(c["seed"])
    sut("run", pod.run)
    X = np.array(sut("getInputDOE", pod.getInputDOE))
    expect(len(X) == len(keep) + c["more"], "%d points after enrichment", len(X))
    z = np.concatenate([y[keep], [f(v)[0] for v in X[len(keep):]]])
    if c["boxcox"] is not False:
        z = boxcox(z + boxcox_shift(y[keep]), c["boxcox"])
    U = (X - X.mean(axis=0)) / X.std(axis=0, ddof=1)
    return judge_kriging(pod, U, z, c12.basis(c), None,
                         ["signal", "dim %d" % d, c["cov"], c["basis"], "start %d" % c["start"]])


SUBS = [Sub("linear", lin_cases(), check_linear, 300, 20000),
        Sub("qr", lin_cases(), check_qr, 160, 6000),
        Sub("chaos", c11.cases(), check_chaos, 360, 15000),
        Sub("kriging", krig_cases(), check_kriging, 420, 15000),
        Sub("signal", signal_cases(), check_signal, 160, 5000)]
