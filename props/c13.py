"""C13: the adaptive signal POD enriches the design with true model evaluations."""
import math

import numpy as np
import openturns as ot
import otpod
from hypothesis import strategies as st
from scipy import stats

from harness import Info, Reject, Sub, Violation, expect, expect_all_close, fresh, sut
from props.common import SEEDS, boxcox_shift, choice, col, split
from props.c12 import basis, covariance, judge_curves, train

ID = "C13"
RULE = ("Seeded initial designs of dimension 2 or 3 (12 to 25 points), recording physical models, "
        "0 to 3 added points among 6 to 20 candidates, default or given distribution (with or "
        "without copula), covariance and basis, with or without optimised covariance parameters, "
        "thresholds, boxCox, verbosity. Non-trivial: at least one point is added.")


@st.composite
def cases(draw, more=3):
    return {"seed": draw(SEEDS), "n": draw(st.integers(12, 25)), "dim": draw(choice(2, 3)),
            "more": draw(st.integers(0 if more > 1 else 1, more)), "cand": draw(st.integers(6, 20)),
            "cens": draw(choice("none", "none", "low", "high", "both")),
            "boxcox": draw(choice(False, False, 0.5, 0.0, True)),
            "neg": draw(choice(False, False, True)),
            "dist": draw(choice("default", "given", "copula")),
            "basis": draw(choice("default", "constant", "linear")),
            "cov": draw(choice("default", "matern", "exp", "sqexp")),
            "start": draw(choice(0, 0, 2)), "wave": draw(choice(0.0, 1.0, 4.0)),
            "sizes": draw(st.lists(st.integers(0, 40), min_size=2, max_size=3, unique=True)),
            "det": draw(choice(0.5, 0.35, 0.65)), "N": draw(choice(30, 60)),
            "S": draw(choice(20, 40)), "conf": draw(choice(0.95, 0.6))}


def truth(c):
    """The physical model and the signals it adds to."""
    base = -8.0 if c["neg"] else 30.0

    def f(v):
        y = base + 4 * v[0] + 0.8 * v[1] + c["wave"] * math.sin(2 * v[0] + v[1])
        if len(v) > 2:
            y += 0.5 * (v[2] - 2)
        return y
    return f


def load(c):
    rs = np.random.RandomState(c["seed"] % 2 ** 32)
    n, d = c["n"], c["dim"]
    x = np.empty((n, d))
    x[:, 0] = rs.uniform(0.5, 3.5, n)
    x[:, 1] = rs.uniform(-1, 1, n)
    if d > 2:
        x[:, 2] = rs.uniform(1, 3, n)
    f = truth(c)
    y = np.array([f(v) for v in x])
    s = np.sort(y)
    noise = float(0.5 * (s[1] + s[2])) if c["cens"] in ("low", "both") else None
    sat = float(0.5 * (s[-2] + s[-3])) if c["cens"] in ("high", "both") else None
    keep = np.array(split(x[:, 0], y, noise, sat)[0])
    det = float(np.quantile(y[keep], c["det"]))
    lo, hi = x[keep, 0].min(), x[keep, 0].max()
    sizes = [float(min(hi, max(lo, lo + k / 40.0 * (hi - lo)))) for k in c["sizes"]]
    return x, y, noise, sat, keep, det, sizes, f


def distribution(c):
    if c["dist"] == "default":
        return None
    m = [ot.Uniform(0.6, 3.3), ot.Uniform(-0.9, 0.8)]
    if c["dim"] > 2:
        m.append(ot.TruncatedNormal(2.0, 0.4, 1.0, 3.0))
    if c["dist"] == "copula":
        R = ot.CorrelationMatrix(c["dim"])
        R[0, 1] = 0.5
        return ot.JointDistribution(m, ot.NormalCopula(R))
    return ot.JointDistribution(m)


def make(c):
    x, y, noise, sat, keep, det, sizes, f = load(c)
    sh = boxcox_shift(y[keep])
    if c["boxcox"] is not False and any(
            t is not None and t + sh <= 0 for t in (noise, sat, det)):
        raise Reject("domain of Box Cox")
    if len(keep) < 10:
        raise Reject("too few retained points")
    calls = []

    def physical(v):
        calls.append(list(v))
        return [f(v)]
    model = ot.PythonFunction(c["dim"], 1, physical)
    pod = sut("AdaptiveSignalPOD", otpod.AdaptiveSignalPOD, x, col(y), model, c["more"], det, noise,
              sat, c["boxcox"])
    sut("setVerbose", pod.setVerbose, False)
    sut("setDefectSizes", pod.setDefectSizes, sizes)
    sut("setCandidateSize", pod.setCandidateSize, c["cand"])
    sut("setSamplingSize", pod.setSamplingSize, c["N"])
    sut("setSimulationSize", pod.setSimulationSize, c["S"])
    sut("setInitialStartSize", pod.setInitialStartSize, c["start"])
    dist = distribution(c)
    if dist is not None:
        sut("setDistribution", pod.setDistribution, dist)
    if c["basis"] != "default":
        sut("setBasis", pod.setBasis, basis(c))
    if c["cov"] != "default":
        sut("setCovarianceModel", pod.setCovarianceModel, covariance(c))
    fresh(c["seed"])
    expect(not calls, "the physical model is called before run")
    # the initial design, before any run
    expect_all_close("initial input design", np.array(pod.getInputDOE()), x[keep], 1e-12)
    expect_all_close("initial output design", np.ravel(pod.getOutputDOE()), y[keep], 1e-6,
                     rounding(c, pod, y[keep], sh))
    try:
        pod.run()
    except Exception as e:
        if c["start"] and "MultiStart" in str(e):
            raise Reject("no local search of OpenTURNS succeeded")
        raise Violation("run raised %s: %s" % (type(e).__name__, e))
    return pod, x[keep], y[keep], det, sh, np.array(sorted(sizes)), dist, calls, f


def rounding(c, pod, y, sh):
    """Absolute rounding error of signals transformed and transformed back."""
    if c["boxcox"] is False:
        return 1e-9
    lam = float(pod.getBoxCoxParameter())
    with np.errstate(all="ignore"):
        t = y + sh
        z = np.where(lam == 0, np.log(t), (t ** lam - 1) / (lam or 1.0))
        e = float(np.max(1e-14 * (1 + np.abs(z)) * t ** (1 - lam)))
    if not e < 1e-2 * np.ptp(y):
        raise Reject("transformation not invertible in floating point")
    return 1e-6 + e


def transform(c, pod, y, det, sh):
    if c["boxcox"] is False:
        return y, det
    g = ot.BoxCoxTransform([float(pod.getBoxCoxParameter())])
    if (y + sh <= 0).any():
        raise Reject("domain of Box Cox")
    return np.array(g(ot.Sample(col(y + sh))))[:, 0], g([det + sh])[0]


def check(c):
    pod, x0, y0, det, sh, sizes, dist, calls, f = make(c)
    X = np.array(sut("getInputDOE", pod.getInputDOE))
    Y = np.ravel(sut("getOutputDOE", pod.getOutputDOE))
    n = len(x0)
    expect(X.shape == (n + c["more"], c["dim"]), "input design of shape %s, %d + %d expected",
           X.shape, n, c["more"])
    expect(len(Y) == n + c["more"], "output design of %d values", len(Y))
    expect_all_close("initial rows of the input design", X[:n], x0, 1e-12)
    expect_all_close("initial rows of the output design", Y[:n], y0, 1e-6, rounding(c, pod, y0, sh))
    sd = sut("getDistribution", pod.getDistribution)
    if dist is not None:
        expect(sd == dist, "getDistribution %s, given %s", sd, dist)
    else:
        for j in range(c["dim"]):
            b = [sizes.min(), sizes.max()] if j == 0 else [x0[:, j].min(), x0[:, j].max()]
            expect_all_close("default uniform bounds", list(sd.getMarginal(j).getParameter()), b,
                             1e-12)
    rg = sd.getRange()
    lo, hi = np.array(rg.getLowerBound()), np.array(rg.getUpperBound())
    added = X[n:]
    for i, v in enumerate(added):
        expect((v >= lo - 1e-9).all() and (v <= hi + 1e-9).all(),
               "added point %r outside the support", v.tolist())
        expect(abs(Y[n + i] - f(v)) <= 1e-6 * abs(f(v)) + rounding(c, pod, np.append(y0, f(v)), sh),
               "signal %r at the added point %r, the model gives %r", Y[n + i], v.tolist(), f(v))
        for w in added[:i]:
            expect(np.abs(v - w).max() > 1e-12, "point %r is added twice", v.tolist())
    expect(len(calls) == c["more"], "%d calls of the physical model for %d points", len(calls),
           c["more"])
    if calls:
        expect_all_close("points where the physical model is called", np.array(calls), added, 1e-12)
    # the final model
    z, dt = transform(c, pod, Y, det, sh)
    res = sut("getKrigingResult", pod.getKrigingResult)
    mu, s = X.mean(axis=0), X.std(axis=0, ddof=1)
    U = (X - mu) / s
    scale = np.ptp(z)
    cov = res.getCovarianceModel()
    want = ot.CovarianceModel(covariance(c))
    expect(cov.getImplementation().getClassName() == want.getImplementation().getClassName(),
           "covariance model %s, %s was asked", cov, want)
    if c["start"] == 0:
        expect_all_close("covariance parameters", list(cov.getParameter()),
                         list(want.getParameter()), 1e-12)
    ref = train(U, z, cov, basis(c))
    rs = np.random.RandomState((c["seed"] + 11) % 2 ** 32)
    probe = (np.column_stack([rs.uniform(X[:, j].min(), X[:, j].max(), 10)
                              for j in range(c["dim"])]) - mu) / s
    got = np.array(res.getMetaModel()(ot.Sample(probe)))[:, 0]
    tol = 2e-2 if c["start"] else 1e-4
    expect_all_close("final kriging prediction", got,
                     np.array(ref.getMetaModel()(ot.Sample(probe)))[:, 0], 0, tol * scale)
    judge_curves(c, pod, res, sd, sizes, dt, scale, (mu, s))
    return Info(nontrivial=c["more"] > 0,
                labels=["more %d" % c["more"], c["dist"], "boxcox %s" % c["boxcox"], c["cens"]])


def law_moments(X, z, cov, bas, T, sizes, dt, plug, N):
    """Criterion of the enriched model: integrated mean squared error of the POD."""
    mu, s = X.mean(axis=0), X.std(axis=0, ddof=1)
    # the covariance parameters are fitted again on the enriched design
    f = ot.GaussianProcessFitter(ot.Sample((X - mu) / s), ot.Sample(col(z)), cov, bas)
    f.run()
    a = ot.GaussianProcessRegression(f.getResult())
    a.run()
    res = a.getResult()
    cc = ot.GaussianProcessConditionalCovariance(res)
    g = stats.norm.ppf((np.arange(100) + 0.5) / 100)
    out = []
    for k, a in enumerate(sizes):
        P = T.copy()
        P[:, 0] = a
        t = ot.Sample((P - mu) / s)
        m = np.array(cc.getConditionalMean(t)).ravel()
        v = np.sqrt(np.maximum(np.array([cc.getConditionalMarginalVariance(t[i])
                                         for i in range(len(T))]).ravel(), 0))
        p = np.array([np.mean(m + u * v > dt) for u in g])
        out.append(p.var() + np.mean(p * (1 - p)) / N + (p.mean() - plug[k]) ** 2)
    return math.sqrt(np.mean(out))


def check_choice(c):
    """The first added point has a small criterion among the candidates."""
    # rough models: the fit of very smooth ones is ill conditioned
    c = dict(c, start=0, wave=c["wave"] or 2.0, cov="exp" if c["cov"] in ("default", "exp") else
             "matern", boxcox=c["boxcox"] if c["boxcox"] in (False, 0.5) else False, N=150, S=100, cand=c["cand"] // 2 + 3, sizes=[10, 20, 28],
             dist="default" if c["dist"] == "copula" else c["dist"])
    pod, x0, y0, det, sh, sizes, dist, calls, f = make(c)
    sd = sut("getDistribution", pod.getDistribution)
    if not sd.hasIndependentCopula():
        raise Reject("random candidates")
    cand = np.array(ot.LowDiscrepancyExperiment(ot.SobolSequence(), sd, c["cand"]).generate())
    X = np.array(pod.getInputDOE())
    d = np.abs(cand - X[len(x0)]).max(axis=1)
    if d.min() > 1e-9:
        raise Reject("other candidates")
    i = int(d.argmin())
    z, dt = transform(c, pod, y0, det, sh)
    mu, s = x0.mean(axis=0), x0.std(axis=0, ddof=1)
    cov, bas = ot.CovarianceModel(covariance(c)), basis(c)
    res = train((x0 - mu) / s, z, cov, bas)
    fresh(c["seed"] + 4)
    T = np.array(sd.getSample(150))
    plug = []
    for a in sizes:
        P = T.copy()
        P[:, 0] = a
        plug.append(np.mean(np.array(res.getMetaModel()(ot.Sample((P - mu) / s))) > dt))
    crit = []
    for v in cand:
        zz = np.append(z, res.getMetaModel()(list((v - mu) / s))[0])
        crit.append([law_moments(np.vstack([x0, v]), zz * (1 + u), cov, bas, T, sizes, dt, plug,
                                 c["N"]) for u in (0.0, 1e-12, -1e-12)])
    crit = np.array(crit)
    if (np.ptp(crit, axis=1) > 0.1 * crit.min(axis=1) + 1e-3).any():
        raise Reject("the fit of the covariance depends on rounding errors")
    crit = crit[:, 0]
    best = crit.min()
    # simulation error of the criterion
    slack = 0.3 * best + 0.05
    expect(crit[i] <= best + slack, "the added candidate has criterion %r, the best one %r",
           crit[i], best)
    return Info(nontrivial=bool(crit.max() > best + slack), labels=[c["dist"]])


SUBS = [Sub("run", cases(), check, 320, 8000),
        Sub("choice", cases(more=1), check_choice, 240, 6000)]
