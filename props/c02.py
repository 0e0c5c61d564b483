"""C02: the uncensored linear analysis is the least squares fit of the retained data."""
import numpy as np
import openturns as ot
import otpod
from hypothesis import strategies as st

from harness import Info, Reject, Sub, expect, expect_all_close, expect_close, sut
from props.common import (LAMBDAS, boxcox, boxcox_shift, choice, col, factory, ols, uni_cases,
                          uni_data)

ID = "C02"
RULE = ("Seeded linear data of 8 to 80 observations (free intercept, slope, noise law and "
        "scale, size offset, rounding giving ties, sorted or not, positive or not), no, one "
        "or two thresholds (possibly equal to a signal), six residual factories. "
        "Non-trivial: sizes not sorted or censored or non-normal factory.")


@st.composite
def cases(draw):
    c = draw(uni_cases(nmin=8, nmax=80))
    c["fact"] = draw(choice("default", "normal", "uniform", "logistic", "laplace", "gumbel"))
    c["scale"] = draw(choice(1.0, 1e-3, 1e4, -1.0))
    c["xoff"] = draw(choice(0.0, 0.0, 100.0, -2.0))
    c["type"] = draw(choice("list", "array", "sample"))
    return c


def check(c):
    x, y, noise, sat, keep, lo, hi = uni_data(c)
    x = x + c["xoff"]
    k = c["scale"]
    y = y * k
    if noise is not None:
        noise *= k
    if sat is not None:
        sat *= k
    if k < 0:
        noise, sat = sat, noise
    X, Y = col(x), col(y)
    if c["type"] == "array":
        X, Y = np.array(X), np.array(Y)
    elif c["type"] == "sample":
        X, Y = ot.Sample(X), ot.Sample(Y)
    fact = None if c["fact"] == "default" else factory(c["fact"])
    an = sut("UnivariateLinearModelAnalysis", otpod.UnivariateLinearModelAnalysis, X, Y,
             noise, sat, fact)
    b0, b1, s, r = ols(x[keep], y[keep])
    ncase = 1 if noise is None and sat is None else 2
    scale = np.abs(y[keep]).max() + abs(b1) * np.abs(x).max() + abs(b0)
    rtol, atol = 1e-7, 1e-9 * scale
    for name, f, want in (("intercept", an.getIntercept, b0), ("slope", an.getSlope, b1),
                          ("standard error", an.getStandardError, s)):
        v = sut(name, f)
        expect(len(v) == ncase, "%s has %d values, expected %d", name, len(v), ncase)
        a = atol * (1 if name != "slope" else 1 / np.ptp(x))
        expect_close(name + " (uncensored)", v[0], want, rtol, a)
    res = np.array(sut("getResiduals", an.getResiduals))
    expect(res.shape == (len(keep), ncase), "residuals of shape %s, expected %s", res.shape,
           (len(keep), ncase))
    expect_all_close("residuals (uncensored)", res[:, 0], r, rtol, 10 * atol)
    r2 = sut("getR2", an.getR2)
    expect(len(r2) == ncase, "R2 has %d values", len(r2))
    expect_close("R2 (uncensored)", r2[0], 1 - np.var(r) / np.var(y[keep]), 1e-7, 1e-9)
    d = sut("getResidualsDistribution", an.getResidualsDistribution)
    expect(len(d) == ncase, "%d residual distributions", len(d))
    f = ot.NormalFactory() if fact is None else factory(c["fact"])
    want = f.build(ot.Sample(col(r)))
    expect(d[0].getImplementation().getClassName() == want.getImplementation().getClassName(),
           "distribution %s, expected %s", d[0], want)
    for t in np.linspace(r.min() - s, r.max() + s, 9):
        expect_close("residual distribution at %r" % t, d[0].computeCDF(t), want.computeCDF(t),
                     1e-5, 1e-6)
    # accessors
    expect((np.array(an.getInputSample())[:, 0] == x).all(), "getInputSample differs")
    expect((np.array(an.getOutputSample())[:, 0] == y).all(), "getOutputSample differs")
    expect(an.getNoiseThreshold() == noise, "getNoiseThreshold: %r, given %r",
           an.getNoiseThreshold(), noise)
    expect(an.getSaturationThreshold() == sat, "getSaturationThreshold: %r, given %r",
           an.getSaturationThreshold(), sat)
    expect(an.getBoxCoxParameter() is None, "Box Cox parameter %r without Box Cox",
           an.getBoxCoxParameter())
    return Info(nontrivial=c["order"] == "random" or ncase == 2 or c["fact"] != "default",
                labels=[c["cens"], c["fact"]])


@st.composite
def bc_cases(draw):
    c = draw(uni_cases(nmin=12, nmax=50, boxcox=("fixed", "fixed", "optimal")))
    c["lam"] = draw(choice(*LAMBDAS))
    c["type"] = draw(choice("list", "array", "sample"))
    return c


def check_boxcox(c):
    """With Box Cox: the fit of the transformed signals, and the accessors give the originals."""
    x, y, noise, sat, keep, lo, hi = uni_data(c)
    X, Y = col(x), col(y)
    if c["type"] == "array":
        X, Y = np.array(X), np.array(Y)
    elif c["type"] == "sample":
        X, Y = ot.Sample(X), ot.Sample(Y)
    try:
        an = otpod.UnivariateLinearModelAnalysis(X, Y, noise, sat, ot.NormalFactory(),
                                                 True if c["boxcox"] == "optimal" else c["lam"])
    except Exception as e:
        raise Reject("the analysis is rejected: %s" % e)
    expect((np.array(an.getInputSample())[:, 0] == x).all(), "getInputSample differs")
    expect((np.array(an.getOutputSample())[:, 0] == y).all(), "getOutputSample differs")
    expect(an.getNoiseThreshold() == noise, "getNoiseThreshold: %r, given %r",
           an.getNoiseThreshold(), noise)
    expect(an.getSaturationThreshold() == sat, "getSaturationThreshold: %r, given %r",
           an.getSaturationThreshold(), sat)
    lam = float(an.getBoxCoxParameter())
    if c["boxcox"] == "fixed":
        expect(lam == c["lam"], "getBoxCoxParameter: %r, given %r", lam, c["lam"])
    elif abs(lam) < 1e-3:
        raise Reject("the parameter is close to 0")
    z = boxcox(y[keep] + boxcox_shift(y[keep]), lam)
    if np.ptp(z) < 1e-4:
        raise Reject("transformed signals equal up to rounding")
    b0, b1, s, r = ols(x[keep], z)
    sc = np.abs(z).max() + abs(b0) + abs(b1) * np.abs(x).max()
    expect_close("intercept", an.getIntercept()[0], b0, 1e-6, 1e-8 * sc)
    expect_close("slope", an.getSlope()[0], b1, 1e-6, 1e-8 * sc / np.ptp(x))
    expect_close("standard error", an.getStandardError()[0], s, 1e-6, 1e-8 * sc)
    expect_all_close("residuals", np.array(an.getResiduals())[:, 0], r, 1e-6, 1e-8 * sc)
    return Info(nontrivial=True, labels=["boxcox %s" % c["bcsign"]])


SUBS = [Sub("ols", cases(), check, 1600, 40000),
        Sub("boxcox", bc_cases(), check_boxcox, 240, 10000)]
