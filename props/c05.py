"""C05: the hypothesis tests report the p-values of their definitions."""
import math

import numpy as np
import openturns as ot
import otpod
from hypothesis import strategies as st
from scipy import stats

from harness import Info, Reject, Sub, expect, expect_close, sut
from props.common import LAMBDAS, choice, col, factory, uni_cases, uni_data

ID = "C05"
RULE = ("Seeded linear data of 8 to 60 observations, homo- or heteroscedastic, with or "
        "without autocorrelation, any order, no, one or two thresholds, five residual "
        "factories, with or without a fixed Box Cox parameter. Non-trivial: at least one "
        "p-value of each of the seven tests lies in (0.001, 0.999) or the data are censored.")


@st.composite
def cases(draw):
    c = draw(uni_cases(nmin=8, nmax=60, boxcox=("off", "off", "fixed")))
    c["lam"] = draw(choice(*LAMBDAS))
    c["fact"] = draw(choice("normal", "uniform", "logistic", "laplace", "gumbel"))
    c["structure"] = draw(choice("none", "hetero", "auto", "curved"))
    return c


def zero_mean(r):
    n = len(r)
    t = r.mean() / math.sqrt(r.var(ddof=1) / n)
    return 2 * stats.t.sf(abs(t), n - 1)


def breusch_pagan(x, r):
    u = r ** 2
    a = np.vstack([np.ones_like(x), x]).T
    b = np.linalg.lstsq(a, u, rcond=None)[0]
    e = u - a @ b
    r2 = 1 - (e ** 2).sum() / ((u - u.mean()) ** 2).sum()
    return stats.chi2.sf(len(x) * r2, 1)


def durbin_watson(x, r):
    """Normal approximation (Durbin and Watson 1950): exact mean and variance of d."""
    n = len(r)
    d = (np.diff(r) ** 2).sum() / (r ** 2).sum()
    A = np.zeros((n, n))
    for i in range(n - 1):
        A[i, i] += 1
        A[i + 1, i + 1] += 1
        A[i, i + 1] -= 1
        A[i + 1, i] -= 1
    X = np.vstack([np.ones(n), x]).T
    M = np.eye(n) - X @ np.linalg.pinv(X)
    MA = M @ A
    P = np.trace(MA)
    Q = np.trace(MA @ MA)
    k = n - 2
    mean = P / k
    var = 2 * (Q - P * mean) / (k * (k + 2))
    return 2 * stats.norm.sf(abs(d - mean) / math.sqrt(var)), var


_HMC = {}


def hmc_law(n):
    """Reference sample of the statistic under the null hypothesis (sorted)."""
    if n not in _HMC:
        rs = np.random.RandomState(12345 + n)
        z = rs.randn(40000, n)
        z -= z.mean(axis=1)[:, None]
        k = n // 2
        s = (z[:, :k] ** 2).sum(axis=1) / (z ** 2).sum(axis=1)
        _HMC[n] = np.sort(s)
    return _HMC[n]


def harrison(r):
    n = len(r)
    k = n // 2
    s = (r[:k] ** 2).sum() / (r ** 2).sum()
    return np.searchsorted(hmc_law(n), s, side="right") / 40000.0


def kolmogorov(r, d):
    s = np.sort(r)
    n = len(s)
    f = np.array([d.computeCDF(float(t)) for t in s])
    D = max((np.arange(1, n + 1) / n - f).max(), (f - np.arange(n) / n).max())
    return stats.kstwo.sf(D, n)


def check(c):
    x, y, noise, sat, keep, lo, hi = uni_data(c)
    if c["structure"] == "hetero":
        rs = np.random.RandomState(c["seed"] % 2 ** 32)
        y[keep] = y[keep] + 0.0
        amp = (x - x.min()) / np.ptp(x)
        y = y + 0.3 * c["sigma"] * amp * rs.randn(len(x))
    elif c["structure"] == "auto":
        y = y + c["sigma"] * np.sin(np.arange(len(x)))
    elif c["structure"] == "curved":
        y = y + c["b1"] * ((x - x.min()) / np.ptp(x)) ** 2
    bc = False
    if c["boxcox"] == "fixed":
        y = y - y.min() + 1.0
        bc = c["lam"]
    if c["structure"] != "none" or bc is not False:
        s = np.unique(y)
        noise = float(s[1]) if noise is not None else None
        sat = float(s[-2]) if sat is not None else None
    from props.common import ols, split
    keep, lo, hi = split(x, y, noise, sat)
    if len(keep) < 8 or len(np.unique(x[keep])) < 3:
        raise Reject("not enough data")
    z = y[keep]
    if bc is not False:
        z = np.array([ot.BoxCoxTransform([bc])([float(t)])[0] for t in z])
    if not ols(x[keep], z)[2] > 1e-5 * (1 + np.abs(z).max()):
        raise Reject("perfect fit")
    an = sut("UnivariateLinearModelAnalysis", otpod.UnivariateLinearModelAnalysis, col(x), col(y),
             noise, sat, factory(c["fact"]), bc)
    ncase = 1 if noise is None and sat is None else 2
    res = np.array(an.getResiduals())
    acc = {"ZeroMean": an.getZeroMeanPValue, "BreuschPagan": an.getBreuschPaganPValue,
           "DurbinWatson": an.getDurbinWatsonPValue, "HarrisonMcCabe": an.getHarrisonMcCabePValue,
           "AndersonDarling": an.getAndersonDarlingPValue,
           "CramerVonMises": an.getCramerVonMisesPValue, "Kolmogorov": an.getKolmogorovPValue}
    vals = {k: [float(t) for t in sut("get%sPValue" % k, f)] for k, f in acc.items()}
    dists = an.getResidualsDistribution()
    xk = x[keep]
    middle = 0
    for j in range(ncase):
        r = res[:, j].astype(float)
        b = (an.getIntercept()[j], an.getSlope()[j])
        expect(np.abs(r - (z - b[0] - b[1] * xk)).max() <= 1e-7 * (1 + np.abs(z).max()),
               "the residuals are not those of the fit")
        case = ("uncensored", "censored")[j]
        for k, v in vals.items():
            expect(len(v) == ncase, "%s has %d values, expected %d", k, len(v), ncase)
            expect(-1e-12 <= v[j] <= 1 + 1e-12, "%s p-value %s is %r", case, k, v[j])
            middle += 0.001 < v[j] < 0.999
        if r.var() > 0 and np.abs(r).max() > 0:
            expect_close(case + " zero mean p-value", vals["ZeroMean"][j], zero_mean(r), 1e-6, 1e-7)
        expect_close(case + " Breusch Pagan p-value", vals["BreuschPagan"][j],
                     breusch_pagan(xk, r), 1e-5, 1e-7)
        dw, var = durbin_watson(xk, r)
        if var > 1e-6:
            expect_close(case + " Durbin Watson p-value", vals["DurbinWatson"][j], dw, 1e-5, 1e-7)
        p = harrison(r)
        tol = 6 * math.sqrt(max(p * (1 - p), 0.002) * (1 / 1000.0 + 1 / 40000.0)) + 1e-3
        expect(abs(vals["HarrisonMcCabe"][j] - p) <= tol,
               "%s Harrison McCabe p-value %r, expected %r +- %r", case,
               vals["HarrisonMcCabe"][j], p, tol)
        R = ot.Sample(col(r))
        expect_close(case + " Anderson Darling p-value", vals["AndersonDarling"][j],
                     ot.NormalityTest.AndersonDarlingNormal(R).getPValue(), 1e-6, 1e-9)
        expect_close(case + " Cramer Von Mises p-value", vals["CramerVonMises"][j],
                     ot.NormalityTest.CramerVonMisesNormal(R).getPValue(), 1e-6, 1e-9)
        d = factory(c["fact"]).build(R)
        for q in (0.2, 0.7):
            t = float(np.quantile(r, q))
            expect_close(case + " residual distribution", dists[j].computeCDF(t), d.computeCDF(t),
                         1e-5, 1e-6)
        expect_close(case + " Kolmogorov p-value", vals["Kolmogorov"][j], kolmogorov(r, d), 1e-4,
                     1e-5)
    return Info(nontrivial=ncase == 2 or middle >= 6,
                labels=[c["cens"], c["structure"], c["fact"], "boxcox " + c["boxcox"]])


SUBS = [Sub("pvalues", cases(), check, 1600, 40000)]
