"""C12: the kriging POD is the exceedance probability of the kriging model."""
import math

import numpy as np
import openturns as ot
import otpod
from hypothesis import strategies as st
from scipy import stats

from harness import Info, Reject, Sub, call1, expect, expect_all_close, expect_close, fresh, sut
from props.common import SEEDS, boxcox_shift, choice, col, split

ID = "C12"
RULE = ("Seeded data of dimension 2 or 3 (20 to 45 observations, smooth or noisy), thresholds, "
        "boxCox, default or given distribution (with or without copula), trend basis and covariance "
        "model, with or without optimised covariance parameters, or a kriging result supplied by "
        "the user (trained on normalised or original inputs), 2 to 4 sizes. Non-trivial: some "
        "computed POD is in (0.02, 0.98).")


@st.composite
def cases(draw):
    return {"seed": draw(SEEDS), "n": draw(st.integers(20, 45)), "dim": draw(choice(2, 3)),
            "sigma": draw(choice(0.3, 0.0, 1.0)), "curv": draw(choice(0.0, 0.5)),
            "cens": draw(choice("none", "none", "low", "high", "both")),
            "boxcox": draw(choice(False, False, 0.5, 0.0, True)),
            "neg": draw(choice(False, False, True)),
            "dist": draw(choice("default", "given", "copula")),
            "basis": draw(choice("default", "constant", "linear", "square")),
            "cov": draw(choice("default", "matern", "exp", "sqexp")),
            "start": draw(choice(0, 0, 0, 2, 6)),
            "user": draw(choice("no", "no", "normalised", "original")),
            "sizes": draw(st.lists(st.integers(0, 40), min_size=2, max_size=4, unique=True)),
            "det": draw(choice(0.5, 0.35, 0.65)), "N": draw(choice(100, 400)),
            "S": draw(choice(40, 150)), "conf": draw(choice(0.95, 0.9, 0.6, 0.3)),
            "rerun": draw(choice(False, False, True))}


def load(c):
    rs = np.random.RandomState(c["seed"] % 2 ** 32)
    n, d = c["n"], c["dim"]
    x = np.empty((n, d))
    x[:, 0] = rs.uniform(0.5, 3.5, n)
    x[:, 1] = rs.uniform(-10, 10, n)
    if d > 2:
        x[:, 2] = rs.normal(200, 40.0, n)
    y = 10 + 4 * x[:, 0] + c["curv"] * x[:, 0] ** 2 + 0.1 * x[:, 1] + np.sin(x[:, 1] / 4)
    if d > 2:
        y += 0.02 * (x[:, 2] - 200)
    y = y + c["sigma"] * rs.randn(n)
    if c["neg"]:
        y = y - y.mean()
    s = np.sort(y)
    noise = float(0.5 * (s[1] + s[2])) if c["cens"] in ("low", "both") else None
    sat = float(0.5 * (s[-2] + s[-3])) if c["cens"] in ("high", "both") else None
    keep = np.array(split(x[:, 0], y, noise, sat)[0])
    det = float(np.quantile(y[keep], c["det"]))
    lo, hi = x[keep, 0].min(), x[keep, 0].max()
    sizes = [float(min(hi, max(lo, lo + k / 40.0 * (hi - lo)))) for k in c["sizes"]]
    return x, y, noise, sat, keep, det, sizes


def distribution(c):
    if c["dist"] == "default":
        return None
    m = [ot.Uniform(0.4, 3.6), ot.Uniform(-9.0, 8.0)]
    if c["dim"] > 2:
        m.append(ot.Normal(205.0, 45.0))
    if c["dist"] == "copula":
        R = ot.CorrelationMatrix(c["dim"])
        R[c["dim"] - 2, c["dim"] - 1] = 0.9
        return ot.JointDistribution(m, ot.NormalCopula(R))
    return ot.JointDistribution(m)


def basis(c):
    d = c["dim"]
    if c["basis"] == "constant":
        return ot.ConstantBasisFactory(d).build()
    if c["basis"] == "linear":
        return ot.LinearBasisFactory(d).build()
    v = ["x%d" % i for i in range(d)]
    if c["basis"] == "square":
        # another span once the inputs are normalised
        return ot.Basis([ot.SymbolicFunction(v, ["1"]), ot.SymbolicFunction(v, [v[0] + "^2"])])
    return ot.Basis([ot.SymbolicFunction(v, ["1"]), ot.SymbolicFunction(v, [v[0]])])


def covariance(c):
    d = c["dim"]
    if c["cov"] == "matern":
        return ot.MaternModel([1.5] * d, [2.0], 1.5)
    if c["cov"] == "exp":
        return ot.AbsoluteExponential([2.0] * d, [1.5])
    if c["cov"] == "sqexp":
        return ot.SquaredExponential([0.8] * d, [1.3])
    return ot.SquaredExponential([1] * d)


def train(X, z, cov, bas):
    f = ot.GaussianProcessFitter(ot.Sample(X), ot.Sample(col(z)), cov, bas)
    f.setOptimizeParameters(False)
    f.run()
    a = ot.GaussianProcessRegression(f.getResult())
    a.run()
    return a.getResult()


def judge_curves(c, pod, res, dist, sizes, dt, scale, norm):
    """The POD curves are those of the kriging result res; number of sizes with 0 < POD < 1."""
    mu, sd = norm
    fresh(c["seed"] + 99)
    M = 2500
    T = np.array(dist.getSample(M))
    cc = ot.GaussianProcessConditionalCovariance(res)
    N, S = c["N"], c["S"]
    model = sut("getPODModel", pod.getPODModel)
    inner = 0
    vals = []
    confs = sorted(set([0.1, 0.5, 0.9, c["conf"]]))
    cl = {k: sut("getPODCLModel", pod.getPODCLModel, k) for k in confs}
    clv = {k: [] for k in confs}
    for a in sizes:
        T[:, 0] = a
        t = ot.Sample((T - mu) / sd)
        m = np.array(cc.getConditionalMean(t)).ravel()
        v = np.array([cc.getConditionalMarginalVariance(t[i]) for i in range(M)]).ravel()
        v = np.sqrt(np.maximum(v, 0))
        g = stats.norm.ppf((np.arange(800) + 0.5) / 800)
        crit = np.sort(np.where(v > 1e-12 * scale, (dt - m) / np.maximum(v, 1e-300),
                                np.where(m > dt, -np.inf, np.inf)))
        p = np.searchsorted(crit, g, side="left") / float(M)
        e = p.mean()
        tol = 6.5 * math.sqrt(p.var() / S + e * (1 - e) * (1.0 / N + 1.0 / M)) + 4.0 / N + 0.3 / S
        w = call1("POD", model, a)
        expect(0 <= w <= 1, "POD(%r) = %r", a, w)
        expect(abs(w - e) <= tol, "POD(%r) = %r, the kriging model gives %r +- %r", a, w, e, tol)
        vals.append(w)
        inner += 0.02 < e < 0.98
        # law of the estimator
        law = np.concatenate([np.clip(p + np.sqrt(p * (1 - p) / N) * h, 0, 1)
                              for h in stats.norm.ppf((np.arange(20) + 0.5) / 20)])
        law.sort()
        prev = None
        for k in confs:
            w = call1("POD CL", cl[k], a)
            expect(0 <= w <= 1, "POD CL(%r) = %r", a, w)
            clv[k].append(w)
            expect(prev is None or w <= prev + 1e-12, "POD CL(%r) increases with the level", a)
            prev = w
            r = 7 * math.sqrt(max(k * (1 - k), 0.01) / S) + 3.0 / S
            lo = np.quantile(law, max(0.0, 1 - k - r))
            hi = np.quantile(law, min(1.0, 1 - k + r))
            # error common to all the simulations
            sh1 = 6.5 * math.sqrt(max(lo * (1 - lo), 0.01) * (1.0 / N + 1.0 / M))
            sh2 = 6.5 * math.sqrt(max(hi * (1 - hi), 0.01) * (1.0 / N + 1.0 / M))
            expect(lo - sh1 <= w <= hi + sh2, "POD CL(%r) at confidence %r = %r outside [%r, %r]",
                   a, k, w, lo - sh1, hi + sh2)
    for i in range(len(sizes) - 1):
        for u in (0.25, 0.8):
            t = sizes[i] + u * (sizes[i + 1] - sizes[i])
            expect_close("POD between sizes", call1("POD", model, t),
                         vals[i] + u * (vals[i + 1] - vals[i]), 1e-7, 1e-9)
            for k in confs:
                expect_close("POD CL between sizes", call1("POD CL", cl[k], t),
                             clv[k][i] + u * (clv[k][i + 1] - clv[k][i]), 1e-7, 1e-9)
    return inner


def check(c):
    x, y, noise, sat, keep, det, sizes = load(c)
    sh = boxcox_shift(y[keep])
    if c["boxcox"] is not False and any(
            t is not None and t + sh <= 0 for t in (noise, sat, det)):
        raise Reject("domain of Box Cox")
    pod = sut("KrigingPOD", otpod.KrigingPOD, x, col(y), det, noise, sat, c["boxcox"])
    sut("setVerbose", pod.setVerbose, False)
    sut("setDefectSizes", pod.setDefectSizes, sizes)
    sizes = np.array(sorted(sizes))
    expect_all_close("getDefectSizes", np.ravel(pod.getDefectSizes()), sizes, 0, 1e-15)
    z, dt = y[keep], det
    if c["boxcox"] is not False:
        f = ot.BoxCoxTransform([float(pod.getBoxCoxParameter())])
        z, dt = np.array(f(ot.Sample(col(z + sh))))[:, 0], f([det + sh])[0]
    if np.ptp(z) < 1e-6:
        raise Reject("flat signals")
    xk = x[keep]
    mu, sd = xk.mean(axis=0), xk.std(axis=0, ddof=1)
    U = (xk - mu) / sd
    dist = distribution(c)
    if dist is not None:
        sut("setDistribution", pod.setDistribution, dist)
    if c["basis"] != "default":
        sut("setBasis", pod.setBasis, basis(c))
    if c["cov"] != "default":
        sut("setCovarianceModel", pod.setCovarianceModel, covariance(c))
    sut("setInitialStartSize", pod.setInitialStartSize, c["start"])
    norm = True
    user = None
    if c["user"] != "no":
        norm = c["user"] == "normalised"
        rs = np.random.RandomState((c["seed"] + 7) % 2 ** 32)
        zz = z + 0.2 * np.std(z) * rs.randn(len(z))
        cov = covariance(c)
        if not norm:
            cov.setScale(list(np.array(cov.getScale()) * sd))
        user = train(U if norm else xk, zz, cov, basis(c))
        sut("setKrigingResult", pod.setKrigingResult, user)
    if c["rerun"]:
        # a first run with other sizes must leave no trace
        pod.setDefectSizes([float(xk[:, 0].min()), float(np.median(xk[:, 0]))])
        pod.setSamplingSize(10)
        pod.setSimulationSize(5)
        fresh(c["seed"] + 1)
        sut("first run", pod.run)
        pod.setDefectSizes(sizes)
    sut("setSamplingSize", pod.setSamplingSize, c["N"])
    sut("setSimulationSize", pod.setSimulationSize, c["S"])
    fresh(c["seed"])
    sut("run", pod.run)
    res = sut("getKrigingResult", pod.getKrigingResult)
    rs = np.random.RandomState((c["seed"] + 11) % 2 ** 32)

    # the model
    scale = np.ptp(z)
    probe = np.column_stack([rs.uniform(xk[:, j].min(), xk[:, j].max(), 15)
                             for j in range(c["dim"])])
    tp = (probe - mu) / sd if norm else probe
    got = np.array(res.getMetaModel()(ot.Sample(tp)))[:, 0]
    if user is not None:
        expect_all_close("prediction of the supplied kriging", got,
                         np.array(user.getMetaModel()(ot.Sample(tp)))[:, 0], 1e-9, 1e-9 * scale)
    else:
        cov = res.getCovarianceModel()
        want = ot.CovarianceModel(covariance(c))
        expect(cov.getImplementation().getClassName() == want.getImplementation().getClassName(),
               "covariance model %s, %s was asked", cov, want)
        if c["start"] == 0:
            expect_all_close("covariance parameters", list(cov.getParameter()),
                             list(want.getParameter()), 1e-12)
        ref = train(U, z, cov, basis(c))
        # optimised models may be ill conditioned
        tol = 2e-2 if c["start"] else 1e-4
        expect_all_close("kriging prediction", got,
                         np.array(ref.getMetaModel()(ot.Sample(tp)))[:, 0], 0, tol * scale)
        if c["start"]:
            L = ot.GaussianProcessFitter(ot.Sample(U), ot.Sample(col(z)), want, basis(c))
            F = L.getReducedLogLikelihoodFunction()
            best = float(F(cov.getScale())[0])
            dim = F.getInputDimension()
            box = ot.JointDistribution([ot.Uniform(0.001, 50)] * dim)
            pts = ot.LowDiscrepancyExperiment(ot.SobolSequence(), box, c["start"]).generate()
            first = max(float(F(t)[0]) for t in pts)
            expect(min(cov.getScale()) >= 1e-3 * 0.999 and max(cov.getScale()) <= 50.001,
                   "scales %r", list(cov.getScale()))
            # the likelihood of a very smooth model is not computed accurately
            rough = c["sigma"] >= 0.3 and c["cov"] in ("exp", "matern")
            expect(not rough or best >= first - 0.5 - 1e-2 * abs(first),
                   "log-likelihood %r after optimisation, %r at the best starting point", best, first)
    # the distribution
    sdist = sut("getDistribution", pod.getDistribution)
    if dist is not None:
        expect(sdist == dist, "getDistribution %s, given %s", sdist, dist)
    else:
        for j in range(c["dim"]):
            if j == 0 and c["rerun"]:
                continue
            b = [sizes.min(), sizes.max()] if j == 0 else [xk[:, j].min(), xk[:, j].max()]
            expect_all_close("default uniform bounds", list(sdist.getMarginal(j).getParameter()),
                             b, 1e-12)
    inner = judge_curves(c, pod, res, dist or sdist, sizes, dt, scale,
                         (mu, sd) if norm else (0.0, 1.0))
    return Info(nontrivial=inner > 0,
                labels=["dim %d" % c["dim"], c["user"], c["dist"], c["cov"], c["basis"],
                        "start %d" % c["start"], "boxcox %s" % c["boxcox"]])


SUBS = [Sub("pod", cases(), check, 720, 12000)]
