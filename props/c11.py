"""C11: the chaos POD is the exceedance probability of the fitted expansion."""
import itertools
import math

import numpy as np
import openturns as ot
import otpod
from hypothesis import strategies as st
from scipy import stats

from harness import Info, Reject, Sub, call1, expect, expect_all_close, expect_close, fresh, sut
from props.common import SEEDS, boxcox_shift, choice, col, split
from props.c08 import rank_check

ID = "C11"
RULE = ("Seeded data of dimension 1 to 3 (20 to 70 observations, polynomial or not), thresholds, "
        "boxCox, default or given distribution (Normal, Uniform or Beta marginals, Normal copula), "
        "degree 1 to 4, default (LARS) or full least squares strategy or a result supplied by the "
        "user, 2 to 6 sizes given in any order. Non-trivial: some computed POD is in (0.02, 0.98).")


@st.composite
def cases(draw, maxdim=3):
    return {"seed": draw(SEEDS), "n": draw(st.integers(30, 70).flatmap(lambda n: choice(*[n] * 11 + [130]))), "dim": draw(st.integers(1, maxdim)),
            "sigma": draw(choice(0.5, 0.2, 1.5)), "curv": draw(choice(0.0, 0.6, -0.5)),
            "inter": draw(choice(0.0, 0.8)),
            "cens": draw(choice("none", "none", "low", "high", "both")),
            "boxcox": draw(choice(False, False, 0.5, 0.0, True)),
            "base": draw(choice(20, 20, -8)),
            "degree": draw(choice(2, 1, 3, 4)),
            "strategy": draw(choice("default", "full", "user")),
            "dist": draw(choice("default", "given", "copula")),
            "sizes": draw(st.lists(st.integers(0, 40), min_size=2, max_size=6, unique=True)),
            "det": draw(choice(0.5, 0.3, 0.7)), "N": draw(choice(400, 1000, 2500)),
            "redegree": draw(choice(False, False, True)),
            "conf": draw(choice(0.95, 0.9, 0.6, 0.3))}


def load(c):
    rs = np.random.RandomState(c["seed"] % 2 ** 32)
    n, d = c["n"], c["dim"]
    x = np.empty((n, d))
    x[:, 0] = rs.uniform(0.5, 3.5, n)
    for j in range(1, d):
        x[:, j] = rs.uniform(-1, 1, n) if j == 1 else rs.normal(2, 0.4, n)
    y = c["base"] + 4 * x[:, 0] + c["curv"] * x[:, 0] ** 2 + c["sigma"] * rs.randn(n)
    for j in range(1, d):
        y += (1.5 if j == 1 else -2.0) * x[:, j]
    if d > 1:
        y += c["inter"] * x[:, 0] * x[:, 1]
    s = np.sort(y)
    noise = float(0.5 * (s[1] + s[2])) if c["cens"] in ("low", "both") else None
    sat = float(0.5 * (s[-2] + s[-3])) if c["cens"] in ("high", "both") else None
    keep = np.array(split(x[:, 0], y, noise, sat)[0])
    det = float(np.quantile(y[keep], c["det"]))
    lo, hi = x[keep, 0].min(), x[keep, 0].max()
    ks = list(c["sizes"])
    if max(ks) - min(ks) < 16:
        # the default distribution is spread over the sizes: a very narrow one makes the basis
        # ill conditioned at the data
        ks.append(0 if min(ks) > 20 else 40)
    sizes = [float(min(hi, max(lo, lo + k / 40.0 * (hi - lo)))) for k in ks]
    return x, y, noise, sat, keep, det, sizes


def distribution(c, x):
    d = c["dim"]
    if c["dist"] == "default":
        return None
    m = [ot.Uniform(0.4, 3.6)]
    for j in range(1, d):
        m.append(ot.Uniform(-1.1, 1.2) if j == 1 else ot.Normal(2.1, 0.5))
    if c["dist"] == "copula" and d > 2:
        R = ot.CorrelationMatrix(d)
        R[1, 2] = 0.7
        return ot.JointDistribution(m, ot.NormalCopula(R))
    return ot.JointDistribution(m)


def basis_of(dist, d, degree):
    pol = [ot.StandardDistributionPolynomialFactory(dist.getMarginal(i)) for i in range(d)]
    enum = ot.LinearEnumerateFunction(d)
    return (ot.OrthogonalProductPolynomialFactory(pol, enum),
            enum.getStrataCumulatedCardinal(degree))


def transform(c, pod, y, keep, det):
    z, dt = y[keep], det
    if c["boxcox"] is not False:
        f = ot.BoxCoxTransform([float(pod.getBoxCoxParameter())])
        sh = boxcox_shift(z)
        z, dt = np.array(f(ot.Sample(col(z + sh))))[:, 0], f([det + sh])[0]
        if np.ptp(z) < 1e-7 * np.abs(z).max():
            raise Reject("transformed signals equal up to rounding")
    return z, dt


def prepare(c, sim):
    """A run object with everything needed to judge it."""
    x, y, noise, sat, keep, det, sizes = load(c)
    d = c["dim"]
    n = len(keep)
    terms = math.comb(d + c["degree"], d)
    if terms > n // 3:
        raise Reject("too many terms")
    pod = sut("PolynomialChaosPOD", otpod.PolynomialChaosPOD, x, col(y), det, noise, sat,
              c["boxcox"])
    pod.setVerbose(False)
    dist = distribution(c, x)
    if dist is not None and c["strategy"] == "user" and d > 2 and c["dist"] == "copula":
        raise Reject("dependent basis")
    if c["dist"] == "copula" and d > 2 and c["strategy"] == "full":
        raise Reject("dependent basis")
    sut("setDefectSizes", pod.setDefectSizes, sizes)
    sizes = sorted(sizes)
    expect_all_close("getDefectSizes", np.ravel(pod.getDefectSizes()), sizes, 0, 1e-15)
    if dist is not None:
        sut("setDistribution", pod.setDistribution, dist)
    z, dt = transform(c, pod, y, keep, det)
    sut("setSamplingSize", pod.setSamplingSize, c["N"])
    sut("setSimulationSize", pod.setSimulationSize, sim)
    xs = ot.Sample(x[keep])
    user = None
    sut("setDegree", pod.setDegree, c["degree"])
    if c["strategy"] != "default":
        dd = dist or ot.JointDistribution(
            [ot.Uniform(float(x[keep, j].min()), float(x[keep, j].max())) for j in range(d)])
        base, size = basis_of(dd, d, c["degree"])
        adapt = ot.FixedStrategy(base, size)
        if c["strategy"] == "full":
            sut("setAdaptiveStrategy", pod.setAdaptiveStrategy, adapt)
            sut("setProjectionStrategy", pod.setProjectionStrategy, ot.LeastSquaresStrategy())
        else:
            # an expansion of other (noisier) signals
            rs = np.random.RandomState((c["seed"] + 3) % 2 ** 32)
            zz = z + 0.3 * np.std(z) * rs.randn(n)
            algo = ot.FunctionalChaosAlgorithm(xs, ot.Sample(col(zz)), dd, adapt,
                                               ot.LeastSquaresStrategy())
            algo.run()
            user = algo.getResult()
            sut("setPolynomialChaosResult", pod.setPolynomialChaosResult, user)
    elif c["redegree"] and c["degree"] > 1:
        # a first run with another degree must leave no trace
        sut("setDegree", pod.setDegree, c["degree"] - 1)
        pod.setSamplingSize(20)
        pod.setSimulationSize(2)
        fresh(c["seed"] + 1)
        sut("first run", pod.run)
        pod.setDegree(c["degree"])
        pod.setSamplingSize(c["N"])
        pod.setSimulationSize(sim)
    fresh(c["seed"])
    sut("run", pod.run)
    res = sut("getPolynomialChaosResult", pod.getPolynomialChaosResult)
    return dict(pod=pod, x=x[keep], z=z, dt=dt, sizes=np.array(sizes), res=res, user=user,
                dist=dist, sut_dist=sut("getDistribution", pod.getDistribution), n=n)


def reduced(P):
    """Values of the reduced basis at the data, and the number of terms."""
    B = ot.ComposedFunction(ot.AggregatedFunction(P["res"].getReducedBasis()),
                            P["res"].getTransformation())
    return np.array(B(ot.Sample(P["x"])))


def check_curve(c):
    P = prepare(c, 2)
    pod, x, z, dt, sizes, res, n = [P[k] for k in ("pod", "x", "z", "dt", "sizes", "res", "n")]
    d = c["dim"]
    X = ot.Sample(x)
    pred = np.array(res.getMetaModel()(X))[:, 0]
    scale = np.ptp(z)
    # which expansion
    B = reduced(P)
    p = B.shape[1]
    if P["user"] is not None:
        expect_all_close("prediction of the supplied expansion", pred,
                         np.array(P["user"].getMetaModel()(X))[:, 0], 1e-9, 1e-9 * scale)
    else:
        if c["strategy"] == "full":
            # ordinary least squares on all the monomials of total degree <= degree
            u = (x - x.mean(axis=0)) / (x.std(axis=0) + 1e-300)
            cols = [np.prod(u ** np.array(e), axis=1)
                    for e in itertools.product(range(c["degree"] + 1), repeat=d)
                    if sum(e) <= c["degree"]]
            A = np.array(cols).T
            b = np.linalg.lstsq(A, z, rcond=None)[0]
            expect(p == A.shape[1], "the expansion has %d terms instead of %d", p, A.shape[1])
            expect_all_close("expansion at the data", pred, A @ b, 1e-6, 1e-6 * scale)
        else:
            expect(1 <= p <= math.comb(d + c["degree"], d), "the expansion has %d terms", p)
            G = B.T @ (z - pred)
            expect(np.abs(G).max() <= 1e-6 * scale * n * np.abs(B).max(),
                   "the residuals are not orthogonal to the basis: %r", G)
            _, size = basis_of(P["sut_dist"], d, c["degree"])
            st_ = sut("getAdaptiveStrategy", pod.getAdaptiveStrategy)
            expect(st_.getMaximumDimension() == size, "basis of dimension %d for degree %d",
                   st_.getMaximumDimension(), c["degree"])
    # which distribution
    sd = P["sut_dist"]
    if P["dist"] is not None:
        expect(sd == P["dist"], "getDistribution %s, given %s", sd, P["dist"])
    elif P["user"] is None:
        for j in range(d):
            lo = sizes.min() if j == 0 else x[:, j].min()
            hi = sizes.max() if j == 0 else x[:, j].max()
            if j == 0 and c["redegree"]:
                continue
            expect(sd.getMarginal(j).getName() == "Uniform", "default marginal %s",
                   sd.getMarginal(j))
            expect_all_close("default uniform bounds", list(sd.getMarginal(j).getParameter()),
                             [lo, hi], 1e-12)
    # the curve
    s = math.sqrt(((z - pred) ** 2).sum() / (n - p - 1))
    M = 1 if d == 1 else 12000
    ref_dist = P["dist"] if P["dist"] is not None else sd
    fresh(c["seed"] + 99)
    sample = ref_dist.getSample(M)
    model = sut("getPODModel", pod.getPODModel)
    inner = 0
    vals = []
    for a in sizes:
        T = np.array(sample)
        T[:, 0] = a
        m = np.array(res.getMetaModel()(ot.Sample(T)))[:, 0]
        q = stats.norm.sf((dt - m) / s)
        e, var = q.mean(), (q.var() / M if M > 1 else 0.0)
        v = call1("POD", model, a)
        tol = 6.5 * math.sqrt(e * (1 - e) / c["N"] + var) + 4.0 / c["N"]
        expect(0 <= v <= 1, "POD(%r) = %r", a, v)
        expect(abs(v - e) <= tol, "POD(%r) = %r, the expansion gives %r +- %r", a, v, e, tol)
        expect(abs(v * c["N"] - round(v * c["N"])) < 1e-6, "POD(%r) = %r is not a frequency over "
               "%d points", a, v, c["N"])
        inner += 0.02 < e < 0.98
        vals.append(v)
    for i in range(len(sizes) - 1):
        for w in (0.25, 0.5, 0.9):
            t = sizes[i] + w * (sizes[i + 1] - sizes[i])
            expect_close("POD between sizes", call1("POD", model, t),
                         vals[i] + w * (vals[i + 1] - vals[i]), 1e-7, 1e-9)
    return Info(nontrivial=inner > 0,
                labels=["dim %d" % d, c["strategy"], c["dist"], "boxcox %s" % c["boxcox"]])


def check_cl(c):
    """Law of the coefficients and quantiles of the curves."""
    c = dict(c, N=c["N"] // 10)
    N = 400
    P = prepare(c, N)
    pod, x, z, dt, sizes, res, n = [P[k] for k in ("pod", "x", "z", "dt", "sizes", "res", "n")]
    pred = np.array(res.getMetaModel()(ot.Sample(x)))[:, 0]
    B = reduced(P)
    p = B.shape[1]
    dof = n - p - 1
    s2 = ((z - pred) ** 2).sum() / dof
    coef = np.ravel(np.array(res.getCoefficients()))
    law = sut("getCoefficientDistribution", pod.getCoefficientDistribution)
    expect(law.getDimension() == p, "law of %d coefficients for %d terms", law.getDimension(), p)
    expect_all_close("mean of the coefficients", list(law.getMean()), coef, 1e-9,
                     1e-12 * np.abs(coef).max())
    cov = np.array(law.getCovariance())
    want = np.linalg.inv(B.T @ B)
    k = np.trace(cov) / np.trace(want)
    expect_all_close("covariance of the coefficients", cov, k * want, 1e-5,
                     1e-7 * np.abs(k * want).max())
    # inverse chi square scale
    u = stats.chi2.cdf(dof * s2 / k, dof)
    expect(1e-10 < u < 1 - 1e-10, "the variance of the coefficients %r is not compatible with "
           "the residual variance %r and %d degrees of freedom", k, s2, dof)
    # curves
    M = 500
    fresh(c["seed"] + 12345)
    co = np.array(law.getSample(M))
    rd = P["dist"] if P["dist"] is not None else P["sut_dist"]
    F = ot.ComposedFunction(ot.AggregatedFunction(res.getReducedBasis()), res.getTransformation())
    rs = np.random.RandomState((c["seed"] + 9) % 2 ** 32)
    ref = np.empty((M, len(sizes)))
    T0 = np.array(rd.getSample(100000 if c["dim"] > 1 else 1))
    BT = []
    for a in sizes:
        T = T0.copy()
        T[:, 0] = a
        BT.append(np.array(F(ot.Sample(T))))
    for i in range(M):
        k_ = rs.randint(0, len(T0), c["N"])
        for j in range(len(sizes)):
            ref[i, j] = np.mean(BT[j][k_] @ co[i] + math.sqrt(s2) * rs.randn(c["N"]) > dt)
    confs = sorted(set([0.2, 0.5, 0.9, c["conf"]]))
    prev = None
    inner = False
    for conf in confs:
        m = sut("getPODCLModel", pod.getPODCLModel, conf)
        v = np.array([call1("POD CL", m, a) for a in sizes])
        expect((v >= 0).all() and (v <= 1).all(), "values outside [0, 1]: %r", v)
        if prev is not None:
            expect((v <= prev + 1e-12).all(), "the curve at %r exceeds that at a lower level", conf)
        prev = v
        for j in range(len(sizes)):
            rank_check("POD CL(%r) at confidence %r" % (sizes[j], conf), v[j], ref[:, j], conf, N)
            inner |= 0.02 < ref[:, j].mean() < 0.98
        for i in range(len(sizes) - 1):
            t = sizes[i] + 0.3 * (sizes[i + 1] - sizes[i])
            expect_close("POD CL between sizes", call1("POD CL", m, t),
                         v[i] + 0.3 * (v[i + 1] - v[i]), 1e-7, 1e-9)
    return Info(nontrivial=inner, labels=["dim %d" % c["dim"], c["strategy"], c["dist"]])


SUBS = [Sub("curve", cases(), check_curve, 480, 12000),
        Sub("confidence", cases(), check_cl, 240, 6000)]
