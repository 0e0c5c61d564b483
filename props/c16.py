"""C16: the perturbation law indices reweight the failure sample."""
import itertools
import math

import numpy as np
import openturns as ot
import otpod
from hypothesis import strategies as st
from scipy import integrate, optimize, stats

from harness import (Info, Reject, Sub, Violation, expect, expect_all_close, expect_close, fresh,
                     must_raise, sut)
from props.common import SEEDS, choice, col
from props.c12 import train

ID = "C16"
RULE = ("Seeded chaos, kriging (normalised or original inputs) and adaptive signal PODs with 2 or 3 "
        "parameters beside the defect, at various locations and scales, default Uniform or given "
        "Uniform and Normal marginals, mean or variance perturbations, scaled or not, 1 to 4 deltas "
        "common or per parameter, some of them null, 2 to 4 sizes, possibly after another run of the "
        "same object, 200 to 1500 simulations. "
        "Non-trivial: at least one computed index whose perturbed probability differs from the "
        "unperturbed one.")


@st.composite
def cases(draw, what=("mean", "variance"), kinds=("chaos", "chaos", "original", "normalised")):
    k = draw(st.integers(1, 4))
    dim = draw(choice(3, 4))
    return {"seed": draw(SEEDS), "n": draw(st.integers(30, 45)), "dim": dim,
            "kind": draw(choice(*kinds)),
            "sigma": draw(choice(0.4, 0.1, 0.8)), "eff": draw(choice(1.0, 2.5)),
            "boxcox": draw(choice(False, False, 0.5)),
            "dist": draw(choice("default", "uniform", "normal", "mixed")),
            # location of the parameters, in half-widths, and their half-width
            "loc": draw(choice(0, 3, -5, 60)), "scale": draw(choice(1.0, 0.01, 25.0)),
            "what": draw(choice(*what)), "scaled": draw(st.booleans()),
            "common": draw(st.booleans()),
            # targets on an integer grid, 0 being the null perturbation
            "t": [[draw(st.integers(-10, 10)) for _ in range(dim - 1)] for _ in range(k)],
            "ints": draw(choice(False, False, False, True)),
            "sizes": draw(st.lists(st.integers(0, 40), min_size=2, max_size=4, unique=True)),
            "det": draw(choice(0.5, 0.4, 0.6)), "N": draw(choice(400, 200, 1500)),
            # an earlier run of the same object, its parameters being more dispersed
            "former": draw(choice(0, 0, 4, 12)),
            "level": draw(choice(0.95, 0.9, 0.5))}


def load(c):
    rs = np.random.RandomState(c["seed"] % 2 ** 32)
    n, d = c["n"], c["dim"]
    u = rs.uniform(-1, 1, (n, d))
    x = np.empty((n, d))
    x[:, 0] = 2 + 1.5 * u[:, 0]
    y = 30 + 2 * x[:, 0] + c["sigma"] * rs.randn(n)
    for j in range(1, d):
        x[:, j] = c["scale"] * (c["loc"] + u[:, j])
        y += c["eff"] * (1.0, -0.6, 0.4)[j - 1] * u[:, j]
    y += 0.5 * u[:, 1] * u[:, 2]
    det = float(np.quantile(y, c["det"]))
    lo, hi = x[:, 0].min(), x[:, 0].max()
    sizes = [float(min(hi, max(lo, lo + k / 40.0 * (hi - lo)))) for k in c["sizes"]]
    return x, y, det, sizes


def parameters(c):
    """Marginals of the parameters other than the defect."""
    m = []
    for j in range(1, c["dim"]):
        a, s = c["scale"] * c["loc"], c["scale"]
        if c["dist"] == "normal" or (c["dist"] == "mixed" and j % 2 == 0):
            m.append(ot.Normal(a + 0.1 * s, 0.5 * s))
        else:
            m.append(ot.Uniform(a - 0.9 * s, a + s))
    return m


# --------------------------------------------------------------------------
# reference perturbed densities
# --------------------------------------------------------------------------
def tilt(fun, target, lo=-80.0, hi=80.0):
    return optimize.brentq(lambda l: fun(l) - target, lo, hi, xtol=1e-13, rtol=1e-13)


def langevin(l):
    return l / 3 if abs(l) < 1e-3 else 1 / math.tanh(l) - 1 / l


def square(l):
    """Mean of u^2 under the density proportional to exp(l u^2) on [-1, 1]."""
    m = max(l, 0.0)
    k = [integrate.quad(lambda u: u ** e * math.exp(l * u * u - m), 0, 1, epsabs=1e-13,
                        epsrel=1e-12)[0] for e in (2, 0)]
    return k[0] / k[1]


def ratio(what, marg, value):
    """Function of a vector: perturbed over original density; None if there is none."""
    p = list(marg.getParameter())
    if marg.getImplementation().getClassName() == "Normal":
        m, s = p
        if what == "mean":
            return lambda x: np.exp(((x - m) ** 2 - (x - value) ** 2) / (2 * s * s))
        if not 0.3 < value / s ** 2 < 1.6:
            raise Reject("variance far from the original one")
        return lambda x: s / math.sqrt(value) * np.exp(
            0.5 * (x - m) ** 2 * (1 / s ** 2 - 1 / value))
    a, b = p
    c, h = 0.5 * (a + b), 0.5 * (b - a)
    if what == "mean":
        t = (value - c) / h
        if abs(t) > 0.85:
            raise Reject("mean out of the support")
        if abs(t) < 1e-13:
            return lambda x: np.ones_like(x)
        if abs(t) < 1e-3:
            l = 3 * t
            return lambda x: np.exp(l * (x - c) / h) / (1 + l * l / 6)
        l = tilt(langevin, t)
        return lambda x: np.exp(l * (x - c) / h) * l / math.sinh(l)
    t = value / h ** 2
    if not 0.25 / 3 < t < 2.2 / 3:
        raise Reject("variance far from the original one")
    if abs(3 * t - 1) < 1e-12:
        return lambda x: np.ones_like(x)
    l = tilt(square, t)
    z = integrate.quad(lambda u: math.exp(l * u * u), 0, 1, epsrel=1e-12)[0]
    return lambda x: np.exp(l * ((x - c) / h) ** 2) / z


def deltas(c, dist):
    """(argument given to the class, matrix of the perturbed means or variances)."""
    d = c["dim"] - 1
    mean, std = np.array(dist.getMean()), np.array(dist.getStandardDeviation())
    g = np.array(c["t"], dtype=float)
    if c["what"] == "mean":
        if c["scaled"]:
            D = g / 8.0
            if c["ints"]:
                D = np.sign(g).astype(int)
            if c["common"]:
                D = D[:, 0]
                V = D[:, None] * std + mean
            else:
                V = D * std + mean
        else:
            V = mean + g / 8.0 * std
            if c["common"]:
                # the same new mean for all
                if np.ptp(mean) > 0.5 * std.min():
                    raise Reject("no common mean")
                V = np.repeat(V[:, :1], d, axis=1)
                D = V[:, 0]
            else:
                D = V
    else:
        f = 1 + g / 20.0
        if c["scaled"]:
            if np.abs(mean).min() < 1e-2 * std.min():
                raise Reject("no coefficient of variation")
            D = (f - 1) * std / mean
            if c["common"]:
                D = D[:, 0]
                V = (D[:, None] * mean + std) ** 2
            else:
                V = (D * mean + std) ** 2
        else:
            V = (f * std) ** 2
            if c["common"]:
                V = np.repeat(V[:, :1], d, axis=1)
                D = V[:, 0]
            else:
                D = V
    return D, V


def pod_of(c, x, y, det):
    """POD object and the independent evaluation of its model on (size, parameters)."""
    d = c["dim"]
    fresh(c["seed"])
    kind = c["kind"]
    if kind == "adaptive":
        phys = ot.PythonFunction(d, 1, lambda v: [float(
            30 + 2 * v[0] + sum(c["eff"] * (1.0, -0.6, 0.4)[j - 1] * (v[j] / c["scale"] - c["loc"])
                                for j in range(1, d)))])
        pod = otpod.AdaptiveSignalPOD(x, col(y), phys, 1, det, None, None, c["boxcox"])
        pod.setCandidateSize(6)
    elif kind == "chaos":
        pod = otpod.PolynomialChaosPOD(x, col(y), det, None, None, c["boxcox"])
        pod.setDegree(2)
    else:
        pod = otpod.KrigingPOD(x, col(y), det, None, None, c["boxcox"])
    pod.setVerbose(False)
    pod.setDefectSizes([x[:, 0].min(), x[:, 0].max()])
    pod.setSamplingSize(20)
    pod.setSimulationSize(5)
    z, dt = y, det
    if c["boxcox"] is not False:
        f = ot.BoxCoxTransform([c["boxcox"]])
        z, dt = np.array(f(ot.Sample(col(z))))[:, 0], f([det])[0]
    mu, sd = x.mean(axis=0), x.std(axis=0, ddof=1)
    cov = ot.MaternModel([1.3] * d, [1.0], 2.5)
    bas = ot.LinearBasisFactory(d).build()
    if kind in ("normalised", "adaptive"):
        pod.setCovarianceModel(cov)
        pod.setBasis(bas)
        pod.setInitialStartSize(0)
    if kind == "original":
        cov.setScale(list(1.3 * sd))
        pod.setKrigingResult(train(x, z, cov, bas))
    if c["dist"] != "default":
        pod.setDistribution(ot.JointDistribution([ot.Uniform(0.4, 3.6)] + parameters(c)))
    sut("run", pod.run)
    if kind == "chaos":
        res = pod.getPolynomialChaosResult()
    else:
        res = pod.getKrigingResult()
    mm = res.getMetaModel()
    if kind == "adaptive":
        X = np.array(pod.getInputDOE())
        mu, sd = X.mean(axis=0), X.std(axis=0, ddof=1)
    norm = kind in ("normalised", "adaptive")

    def f(a, T):
        U = np.column_stack([np.full(len(T), a), T])
        if norm:
            U = (U - mu) / sd
        return np.array(mm(ot.Sample(U)))[:, 0]
    return pod, f, dt, np.ptp(z)


def formerly(c, pli, sizes, dist):
    """A run of the same object with other settings."""
    wide = []
    for j in range(c["dim"] - 1):
        m, s = dist.getMarginal(j).getMean()[0], dist.getMarginal(j).getStandardDeviation()[0]
        wide.append(ot.Normal(m, c["former"] * s))
    pli.setDistribution(ot.JointDistribution(wide))
    if c["seed"] % 2:
        pli.setDefectSizes([sizes[0]] + sizes[:1 + c["seed"] // 2 % 2])
    fresh(c["seed"] + 2)
    try:
        pli.run()
    except Exception:
        pass


def check(c):
    x, y, det, sizes = load(c)
    pod, f, dt, scale = pod_of(c, x, y, det)
    d = c["dim"] - 1
    dist = ot.JointDistribution([pod.getDistribution().getMarginal(j + 1) for j in range(d)])
    set_dist = c["seed"] % 3 == 0
    if set_dist:
        dist = ot.JointDistribution(parameters(c))
    D, V = deltas(c, dist)
    R = [[ratio(c["what"], dist.getMarginal(j), V[i, j]) for j in range(d)] for i in range(len(V))]
    cls = otpod.PLIMean if c["what"] == "mean" else otpod.PLIVariance
    arg = D.tolist() if c["seed"] % 2 else D.copy()
    keep = np.array(D)
    default = c["scaled"] and c["seed"] % 5 < 2
    pli = sut(cls.__name__, cls, pod, arg) if default else sut(cls.__name__, cls, pod, arg,
                                                               c["scaled"])
    expect(pli.getSamplingSize() == 10000, "default sampling size %r", pli.getSamplingSize())
    if c["former"] and c["seed"] % 2:
        pli.setSamplingSize(150)
        formerly(c, pli, sizes, dist)
    sut("setSamplingSize", pli.setSamplingSize, c["N"])
    sut("setDefectSizes", pli.setDefectSizes, sizes)
    if c["former"] and c["seed"] % 2 == 0:
        # same sizes, same number of simulations, only the distribution changes
        formerly(c, pli, sizes, dist)
    if set_dist or c["former"]:
        sut("setDistribution", pli.setDistribution, dist)
    expect_all_close("getDefectSizes", np.ravel(pli.getDefectSizes()), sorted(sizes), 1e-15)
    gd = pli.getDistribution()
    for j in range(d):
        expect(ot.Distribution(gd.getMarginal(j)) == ot.Distribution(dist.getMarginal(j)),
               "parameter %d follows %s instead of %s", j, gd.getMarginal(j), dist.getMarginal(j))
    fresh(c["seed"] + 1)
    sut("run", pli.run)
    expect(np.array_equal(np.array(arg), keep), "the deltas given are modified")
    sizes = sorted(sizes)
    I = np.array(sut("getIndices", pli.getIndices))
    k = len(V)
    expect(I.shape == (k, d, len(sizes)), "indices of shape %r", I.shape)
    for sel in itertools.product((False, True), repeat=3):
        ix = [r.randint(s) if on else None for r, s, on in
              zip([np.random.RandomState(c["seed"] % 1000 + q) for q in range(3)], I.shape, sel)]
        want = I[tuple(slice(None) if i is None else i for i in ix)]
        got = np.array(sut("getIndices%r" % (ix,), pli.getIndices, *ix))
        expect(got.shape == want.shape and np.array_equal(got, want, equal_nan=True),
               "getIndices%r = %r instead of %r", ix, got, want)
    uniform_var = c["what"] == "variance" and any(
        dist.getMarginal(j).getImplementation().getClassName() == "Uniform" for j in range(d))
    tol = 2e-3 if uniform_var else 1e-6
    nontrivial = computed = 0
    rs = np.random.RandomState((c["seed"] + 77) % 2 ** 32)
    ot.RandomGenerator.SetSeed((c["seed"] + 7777) % 2 ** 31)
    T0 = np.array(dist.getSample(20000))
    for q, a in enumerate(sizes):
        hit0 = f(a, T0) > dt
        p0 = hit0.mean()
        e0 = 7 * math.sqrt((p0 * (1 - p0) + 1e-3) / len(T0))
        if np.isnan(I[:, :, q]).any():
            expect(np.isnan(I[:, :, q]).all(), "some indices only are NaN at size %r", a)
            # the number of exceedances is at most N / 1000, or at least N - N / 1000
            m = math.floor(c["N"] * 1e-3 + 1e-9)
            pr = max(stats.binom.cdf(m, c["N"], max(p0 - e0, 0)),
                     stats.binom.cdf(m, c["N"], max(1 - p0 - e0, 0)))
            expect(pr > 1e-9, "NaN indices at size %r where the probability is %r", a, p0)
            must_raise("getPLIObject(%d)" % q, pli.getPLIObject, q)
            must_raise("drawIndices(%d)" % q, pli.drawIndices, q)
            continue
        computed += 1
        obj = sut("getPLIObject", pli.getPLIObject, q)
        Pd = np.array(sut("getPerturbedProbabilityEstimate", obj.getPerturbedProbabilityEstimate))
        expect_all_close("indices of the object", np.array(obj.getIndices()), I[:, :, q], 1e-15)
        expect_all_close("perturbed means or variances", np.array(obj.getDeltaSample()), V, 1e-9,
                         1e-9 * c["scale"])
        expect(Pd.shape == (k, d) and np.isfinite(Pd).all() and (Pd > 0).all(),
               "perturbed probabilities %r", Pd)
        try:
            H = np.array(obj.function.getInputHistory())
        except AttributeError:
            H = None
        if H is not None:
            expect(H.shape == (c["N"], d), "%r Monte Carlo points instead of %d", H.shape, c["N"])
            for j in range(d):
                u = np.array(dist.getMarginal(j).computeCDF(ot.Sample(H[:, j:j + 1])))[:, 0]
                pv = stats.kstest(u, "uniform").pvalue
                expect(pv > 1e-9, "the Monte Carlo sample does not follow %s",
                       dist.getMarginal(j))
            v = f(a, H)
            if (np.abs(v - dt) < 1e-9 * scale).any():
                raise Reject("signal equal to detection up to rounding")
            F = H[v > dt]
            P = len(F) / float(c["N"])
            expect(abs(P - p0) <= e0 + 7 * math.sqrt((p0 * (1 - p0) + 1e-3) / c["N"]),
                   "probability %r at size %r, %r was expected", P, a, p0)
            expect(1e-3 < P < 0.999, "indices at size %r where the probability is %r", a, P)
        ci = sut("computeConfidenceInterval", obj.computeConfidenceInterval, c["level"])
        if c["level"] == 0.95:
            ci2 = obj.computeConfidenceInterval()
            expect(np.array_equal(np.array(ci), np.array(ci2)), "default confidence level")
        ci = np.array(ci)
        expect(ci.shape == (d, k, 2), "confidence intervals of shape %r", ci.shape)
        zq = stats.norm.ppf(0.5 + c["level"] / 2)
        for i in range(k):
            for j in range(d):
                what = "%s of parameter %d, delta %d, size %r" % (c["what"], j, i, a)
                w0 = R[i][j](T0[:, j]) * hit0
                se = w0.std() * (1 / math.sqrt(len(w0)) + 1 / math.sqrt(c["N"]))
                if hit0.sum() > 400 and w0.max() < 0.02 * c["N"]:
                    expect(abs(Pd[i, j] - w0.mean()) <= 8 * se + 5 * w0.max() / c["N"] + 1e-3,
                           "perturbed probability %r (%s), %r was expected", Pd[i, j], what,
                           w0.mean())
                if H is None:
                    continue
                w = R[i][j](F[:, j])
                want = w.sum() / c["N"]
                expect_close("perturbed probability (%s)" % what, Pd[i, j], want, tol, 1e-12)
                g = Pd[i, j]
                # the index is continuous at Pd = P
                idx = (g - P) / P if g >= P else (g - P) / g
                expect_close("index (%s)" % what, I[i, j, q], idx, 1e-9, 1e-9)
                if c["t"][i][0 if c["common"] else j] == 0 and not (
                        c["common"] and not c["scaled"]):
                    expect(abs(I[i, j, q]) <= (2e-3 if uniform_var else 1e-9),
                           "index %r of a null perturbation (%s)", I[i, j, q], what)
                var = (w ** 2).sum() / c["N"] - g ** 2
                cov = np.array([[P * (1 - P), g * (1 - P)], [g * (1 - P), var]])
                gr = np.array([-1 / g, P / g ** 2]) if g < P else np.array([-g / P ** 2, 1 / P])
                s2 = float(gr @ cov @ gr) / c["N"]
                # the variance cancels near the null perturbation
                mag = float(np.abs(gr) @ np.abs(cov) @ np.abs(gr)) / c["N"]
                lo, hi = ci[j, i]
                expect(lo <= I[i, j, q] <= hi, "%r is not in its interval [%r, %r]", I[i, j, q],
                       lo, hi)
                expect_close("centre of the interval (%s)" % what, 0.5 * (lo + hi), I[i, j, q],
                             1e-6, 1e-6)
                got = ((hi - lo) / (2 * zq)) ** 2
                expect(abs(got - s2) <= 3 * tol * mag + 1e-6 * s2,
                       "variance %r of the index (%s), %r was expected", got, what, s2)
                nontrivial += abs(g - P) > 1e-3
    return Info(nontrivial=nontrivial > 0,
                labels=[c["kind"], c["what"], c["dist"], "scaled %s" % c["scaled"]] +
                (["some size without index"] if computed < len(sizes) else []))


# --------------------------------------------------------------------------
@st.composite
def invalid(draw):
    c = draw(cases())
    c.update(flaw=draw(choice("copula", "marginal", "columns", "negative", "pod", "none", "late")),
             other=draw(st.integers(0, 4)), where=draw(st.integers(0, 2)))
    return c


def other_marginal(c, j):
    a, s = c["scale"] * c["loc"], c["scale"]
    return [ot.Triangular(a - s, a, a + s), ot.TruncatedNormal(a, s, a - s, a + s),
            ot.Exponential(1.0 / s, a - s), ot.Logistic(a, 0.3 * s),
            ot.Beta(2.0, 2.0, a - s, a + s)][c["other"]]


def check_invalid(c):
    """What the perturbations are not defined for is rejected, at the latest by the run."""
    x, y, det, sizes = load(c)
    pod, f, dt, scale = pod_of(c, x, y, det)
    d = c["dim"] - 1
    cls = otpod.PLIMean if c["what"] == "mean" else otpod.PLIVariance
    marg = parameters(c)
    dist = ot.JointDistribution(marg)
    D, V = deltas(c, dist)
    for i in range(len(V)):
        for j in range(d):
            ratio(c["what"], dist.getMarginal(j), V[i, j])
    pr = [float(np.mean(f(a, np.array(dist.getSample(2000))) > dt)) for a in sizes]
    if not any(0.05 < p < 0.95 for p in pr):
        raise Reject("nothing computed")
    flaw = c["flaw"]

    def go(delta, scaled, dist):
        pli = cls(pod, delta, scaled)
        pli.setSamplingSize(300)
        pli.setDefectSizes(sizes)
        pli.setDistribution(dist)
        fresh(c["seed"] + 1)
        pli.run()
        return pli
    if flaw == "none":
        # the same calls are valid
        sut("valid run", go, D, c["scaled"], dist)
    elif flaw == "copula":
        r = ot.CorrelationMatrix(d)
        r[0, d - 1] = 0.5
        must_raise("run with dependent parameters", go, D, c["scaled"],
                   ot.JointDistribution(marg, ot.NormalCopula(r)))
    elif flaw == "marginal":
        k = c["where"] % d
        marg[k] = other_marginal(c, k)
        new = ot.JointDistribution(marg)
        m = new.getMean()[k] if c["what"] == "mean" else new.getCovariance()[k, k]
        # means or variances different from the original ones
        V = np.array(V)
        V[:, k] = m * (1 + 1e-3) + 1e-3 * c["scale"]
        must_raise("run with %s" % marg[k], go, V, False, new)
    elif flaw == "columns":
        k = d + 1 if c["where"] else d - 1
        if k == 1:
            k = d + 2
        must_raise("%d columns of deltas for %d parameters" % (k, d), go,
                   np.ones((2, k)) * 0.7, c["scaled"], dist)
    elif flaw == "negative":
        if c["what"] == "mean":
            raise Reject("any mean is valid")
        V = np.array(V)
        V[c["where"] % len(V), c["where"] % d] = [0.0, -0.5, -3.0][c["where"]]
        must_raise("variances %r" % V.tolist(), go, V, False, dist)
    elif flaw == "pod":
        u = otpod.UnivariateLinearModelPOD(x[:, :1], col(y), det)
        must_raise("%s of a linear POD" % cls.__name__, cls, u, D, c["scaled"])
    else:
        pli = cls(pod, D, c["scaled"])
        k = c["where"]
        must_raise("getPLIObject before run", pli.getPLIObject, 0)
        must_raise("drawIndices before run", pli.drawIndices, 0)
        pli.setSamplingSize(300)
        pli.setDefectSizes(sizes)
        pli.setDistribution(dist)
        fresh(c["seed"] + 1)
        sut("run", pli.run)
        must_raise("getPLIObject of size %d" % (len(sizes) + k), pli.getPLIObject, len(sizes) + k)
    return Info(nontrivial=flaw != "none", labels=[flaw])


SUBS = [Sub("mean", cases(what=("mean",)), check, 240, 6000),
        Sub("variance", cases(what=("variance",)), check, 160, 4000),
        Sub("adaptive", cases(kinds=("adaptive",)), check, 24, 400),
        Sub("invalid", invalid(), check_invalid, 160, 3000)]
