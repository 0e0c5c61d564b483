"""C03: the censored regression maximises the censored likelihood."""
import math

import numpy as np
import openturns as ot
import otpod
from hypothesis import strategies as st

from harness import Info, Reject, Sub, call1, expect, expect_all_close, expect_close, sut
from props.common import (LAMBDAS, best_censored, boxcox, boxcox_shift, censored_loglik,
                          choice, col, ols, uni_cases, uni_data)

ID = "C03"
RULE = ("Seeded linear data of 12 to 60 observations, censored below, above or on both "
        "sides (1 to 4 distinct signals on each side, threshold possibly equal to a "
        "signal), half of them with a fixed Box Cox parameter, the others "
        "in any units. Non-trivial: at least one "
        "observation is censored and the censored fit differs from least squares.")


@st.composite
def cases(draw):
    c = draw(uni_cases(nmin=12, nmax=60, cens=("low", "high", "both"),
                       boxcox=("off", "fixed")))
    c["lam"] = draw(choice(*LAMBDAS))
    # units of the sizes and of the signals
    c["ux"] = draw(choice(1.0, 1.0, 1e-3, 25.4, 1e4))
    c["uy"] = draw(choice(1.0, 1.0, 1e-4, 1e-2, 300.0, 1e6))
    return c


def units(c):
    """Factors of the sizes and signals given to the classes."""
    return (1.0, 1.0) if c["boxcox"] == "fixed" else (c["ux"], c["uy"])


def times(t, u):
    return None if t is None else t * u


def tdata(c):
    x, y, noise, sat, keep, lo, hi = uni_data(c)
    n0, s0 = noise, sat
    yt, nt, st_ = y, noise, sat
    if c["boxcox"] == "fixed":
        sh = boxcox_shift(y[keep])
        f = ot.BoxCoxTransform([c["lam"]])
        t = lambda v: f([float(v) + sh])[0]
        yt = np.array([t(v) if i in set(keep.tolist()) else np.nan for i, v in enumerate(y)])
        nt = None if noise is None else t(noise)
        st_ = None if sat is None else t(sat)
        _, _, sd, _ = ols(x[keep], yt[keep])
        if not sd > 1e-4:
            raise Reject("degenerate scale after Box Cox")
    return x, y, noise, sat, keep, lo, hi, yt, nt, st_


def check(c):
    x, y, noise, sat, keep, lo, hi, yt, nt, st_ = tdata(c)
    bc = c["lam"] if c["boxcox"] == "fixed" else False
    ux, uy = units(c)
    an = sut("UnivariateLinearModelAnalysis", otpod.UnivariateLinearModelAnalysis, col(ux * x),
             col(uy * y), times(noise, uy), times(sat, uy), None, bc)
    b0, b1, s = (sut("accessor", f)[1] for f in
                 (an.getIntercept, an.getSlope, an.getStandardError))
    b0, b1, s = b0 / uy, b1 * ux / uy, s / uy
    expect(s > 0, "the censored standard error is %r", s)
    ll = censored_loglik((b0, b1, s), x[keep], yt[keep], x[lo], x[hi], nt, st_)
    o = ols(x[keep], yt[keep])
    best, arg = best_censored([(b0, b1, s), o[:3]], x[keep], yt[keep], x[lo], x[hi], nt, st_)
    # the optimiser in use stops on simplex sizes of 1e-4 in the parameters and the
    # likelihood; a wrong likelihood is off by much more
    expect(ll >= best - 2e-2,
           "censored log-likelihood %r at (%r, %r, %r), %r is reached at %r",
           ll, b0, b1, s, best, tuple(float(t) for t in arg))
    res = np.array(an.getResiduals())[:, 1] / uy
    want = yt[keep] - (b0 + b1 * x[keep])
    expect_all_close("censored residuals", res, want, 1e-9, 1e-9 * (1 + np.abs(yt[keep]).max()))
    # the POD class uses the same parameters (no residual hypothesis)
    det = float(np.quantile(y[keep], 0.6))
    pod = sut("UnivariateLinearModelPOD", otpod.UnivariateLinearModelPOD, col(ux * x), col(uy * y),
              det * uy, times(noise, uy), times(sat, uy), None, bc)
    sut("run", pod.run)
    sh = boxcox_shift(y[keep]) if bc is not False else 0.0
    dt = det if bc is False else ot.BoxCoxTransform([c["lam"]])([det + sh])[0]
    for t in np.linspace(x.min(), x.max(), 6):
        v = call1("POD model", pod.getPODModel(), t * ux)
        thr = dt - (b0 + b1 * t)
        eps = 0.02 * s
        up = np.mean(want > thr - eps)
        dn = np.mean(want > thr + eps)
        expect(dn - 1e-9 <= v <= up + 1e-9,
               "POD(%r) = %r, the censored parameters give between %r and %r", t, v, dn, up)
    return Info(nontrivial=(len(lo) or len(hi)) and abs(b1 - o[1]) > 1e-3 * abs(o[1]),
                labels=[c["cens"], "boxcox " + c["boxcox"]] +
                (["other units"] if units(c) != (1, 1) else []))


@st.composite
def gauss(draw):
    c = draw(cases())
    return c


def check_gauss(c):
    """With a normal hypothesis the POD is the Gaussian formula with the censored fit."""
    x, y, noise, sat, keep, lo, hi, yt, nt, st_ = tdata(c)
    bc = c["lam"] if c["boxcox"] == "fixed" else False
    det = float(np.quantile(y[keep], 0.5))
    an = sut("UnivariateLinearModelAnalysis", otpod.UnivariateLinearModelAnalysis, col(x),
             col(y), noise, sat, None, bc)
    b0, b1, s = (f()[1] for f in (an.getIntercept, an.getSlope, an.getStandardError))
    pod = sut("UnivariateLinearModelPOD", otpod.UnivariateLinearModelPOD, col(x), col(y), det,
              noise, sat, ot.NormalFactory(), bc)
    sut("setSimulationSize", pod.setSimulationSize, 5)
    sut("run", pod.run)
    sh = boxcox_shift(y[keep]) if bc is not False else 0.0
    dt = det if bc is False else ot.BoxCoxTransform([c["lam"]])([det + sh])[0]
    xm = x[keep].mean()
    sxx = ((x[keep] - xm) ** 2).sum()
    for t in np.linspace(x.min(), x.max(), 5):
        v = call1("POD model", pod.getPODModel(), t)
        sd = s * math.sqrt(1 + 1.0 / len(keep) + (t - xm) ** 2 / sxx)
        want = ot.DistFunc.pNormal((dt - b0 - b1 * t) / sd, True)
        expect_close("Gaussian POD at %r with the censored fit" % t, v, want, 1e-2, 1e-2)
    return Info(nontrivial=bool(len(lo) or len(hi)), labels=[c["cens"]])


SUBS = [Sub("mle", cases(), check, 400, 12000), Sub("gauss", gauss(), check_gauss, 250, 6000)]
