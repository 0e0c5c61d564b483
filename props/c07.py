"""C07: the linear POD is the probability that the signal exceeds detection."""
import math

import numpy as np
import openturns as ot
import otpod
from hypothesis import strategies as st

from harness import (Info, Reject, Sub, call1, expect, expect_close, fresh, must_raise, sut)
from props.common import (LAMBDAS, best_censored, boxcox_shift, choice, col, factory, grid,
                          ols, uni_cases, uni_data)

ID = "C07"
RULE = ("Seeded linear data (3 to 60 observations without resampling, 16 or more with), any "
        "slope sign, thresholds, fixed Box Cox parameter, seven residual hypotheses, detection "
        "inside or outside the signals, sizes inside and outside the observed range. "
        "Non-trivial: some evaluated POD lies strictly between 0.01 and 0.99.")

FACTS = ("none", "none", "normal", "normal", "logistic", "uniform", "laplace", "gumbel", "kernel")


@st.composite
def cases(draw, small=False):
    fact = draw(choice(*FACTS))
    if small:
        fact = draw(choice("none", "normal"))
        c = draw(uni_cases(nmin=3, nmax=8, cens=("none",)))
    else:
        c = draw(uni_cases(nmin=16, nmax=60, boxcox=("off", "off", "fixed")))
    c["fact"] = fact
    c["lam"] = draw(choice(*LAMBDAS))
    c["neg"] = draw(choice(False, False, False, True))
    c["det"] = draw(choice(0.5, 0.3, 0.8, -0.2, 1.2))
    c["via"] = draw(st.booleans())
    return c


def params(c, x, y, noise, sat, keep, lo, hi, det):
    """Reference fit: intercept, slope, standard error, residuals, detection."""
    z = y[keep]
    nt, st_, dt = noise, sat, det
    if c["boxcox"] == "fixed":
        sh = boxcox_shift(z)
        f = ot.BoxCoxTransform([c["lam"]])
        if det + sh <= 0:
            raise Reject("detection outside the domain of Box Cox")
        z = np.array([f([float(t) + sh])[0] for t in z])
        nt = None if noise is None else f([noise + sh])[0]
        st_ = None if sat is None else f([sat + sh])[0]
        dt = f([det + sh])[0]
    b0, b1, s, r = ols(x[keep], z)
    if not s > 1e-6 * (1 + np.abs(z).max()):
        raise Reject("perfect fit")
    return b0, b1, s, r, dt, z


def check(c):
    if c["n"] < 12:
        from props.common import make_linear
        x, y = make_linear(c)
        keep, lo, hi = np.arange(len(x)), [], []
        noise = sat = None
        if len(np.unique(x)) < 2 or not ols(x, y)[2] > 1e-5:
            raise Reject("perfect fit")
    else:
        x, y, noise, sat, keep, lo, hi = uni_data(c)
    if c["neg"]:
        # decreasing signal
        y = y.max() + y.min() - y
        if noise is not None or sat is not None:
            raise Reject("no censoring with decreasing signals")
    span = np.ptp(y[keep])
    det = float(np.quantile(y[keep], c["det"])) if 0 <= c["det"] <= 1 else \
        float(y[keep].min() + c["det"] * span)
    det = round(det, 6)
    bc = c["lam"] if c["boxcox"] == "fixed" else False
    b0, b1, s, r, dt, z = params(c, x, y, noise, sat, keep, lo, hi, det)
    X, Y = col(x), col(y)
    cens = noise is not None or sat is not None
    an = None
    if cens or (c["via"] and len(keep) >= 8):
        an = sut("analysis", otpod.UnivariateLinearModelAnalysis, X, Y, noise, sat,
                 factory(c["fact"]), bc)
    if cens:
        # the censored fit itself is the object of C03
        b0, b1, s = (f()[1] for f in (an.getIntercept, an.getSlope, an.getStandardError))
        r = z - (b0 + b1 * x[keep])
    pods = []
    resampled = c["fact"] not in ("none", "normal")

    def run(pod):
        pod.setVerbose(False)
        pod.setSimulationSize(2)
        fresh(c["seed"])
        if resampled:
            try:
                pod.run()
            except Exception as e:
                if "build" in str(e) or "singular" in str(e).lower() or "scale" in str(e).lower():
                    raise Reject("degenerate bootstrap resample")
                raise
        else:
            sut("run", pod.run)
        return pod

    pods.append(("data", c["fact"], run(sut("UnivariateLinearModelPOD",
                 otpod.UnivariateLinearModelPOD, X, Y, det, noise, sat, factory(c["fact"]), bc))))
    if an is not None:
        # an analysis always has a residual hypothesis, normal by default
        pods.append(("analysis", "normal" if c["fact"] == "none" else c["fact"],
                     run(sut("UnivariateLinearModelPOD(analysis)", otpod.UnivariateLinearModelPOD,
                             analysis=an, detection=det))))
        must_raise("UnivariateLinearModelPOD(analysis and data)", otpod.UnivariateLinearModelPOD,
                   X, Y, det, analysis=an)
    n = len(keep)
    xm = x[keep].mean()
    sxx = ((x[keep] - xm) ** 2).sum()
    inner = 0
    w = np.ptp(x)
    pts = sorted(set([float(t) for t in np.linspace(x.min(), x.max(), 7)] +
                     [float(x.min() - 0.5 * w), float(x.max() + 0.5 * w)] +
                     [float((dt - b0 + q * s) / b1) for q in (-1, 0, 1) if abs(b1) > 1e-9]))
    tol = 0.02 if cens else 1e-9
    for origin, fact, pod in pods:
        prev = None
        model = sut("getPODModel", pod.getPODModel)
        if fact not in ("none", "normal"):
            law = factory(fact).build(ot.Sample(col(r)))
        for t in pts:
            v = call1("POD model", model, t)
            what = "POD(%r) [%s, %s]" % (t, fact, origin)
            expect(-1e-12 <= v <= 1 + 1e-12, "%s = %r is not a probability", what, v)
            m = dt - (b0 + b1 * t)
            if fact == "none":
                eps = tol * s + 1e-9 * (abs(dt) + abs(b0) + abs(b1 * t))
                up, dn = np.sum(r > m - eps) / n, np.sum(r > m + eps) / n
                expect(dn - 1e-9 <= v <= up + 1e-9, "%s = %r, the residuals give %r", what, v, dn)
            elif fact == "normal":
                sd = s * math.sqrt(1 + 1.0 / n + (t - xm) ** 2 / sxx)
                want = ot.DistFunc.pNormal(m / sd, True)
                expect_close(what, v, want, 1e-7 if not cens else 2e-2, 1e-7 if not cens else 5e-3)
            else:
                want = law.computeComplementaryCDF(m)
                if cens:
                    lo_, hi_ = (law.computeComplementaryCDF(m + 0.02 * s),
                                law.computeComplementaryCDF(m - 0.02 * s))
                    expect(lo_ - 1e-2 <= v <= hi_ + 1e-2, "%s = %r, expected %r", what, v, want)
                else:
                    expect_close(what, v, want, 1e-5, 1e-5)
            if 0.01 < v < 0.99:
                inner += 1
            if prev is not None and b1 > 0 and fact != "normal":
                expect(v >= prev - 1e-9, "%s = %r decreases (%r before)", what, v, prev)
            prev = v
        expect_close("R2 [%s]" % origin, sut("getR2", pod.getR2), 1 - np.var(r) / np.var(z), 1e-6,
                     1e-6 if not cens else 1e-3)
    return Info(nontrivial=inner > 0, labels=[c["fact"], c["cens"], "boxcox " + c["boxcox"]]
                + (["from analysis"] if an is not None else [])
                + (["n < 12"] if c["n"] < 12 else []))


SUBS = [Sub("formula", cases(), check, 1200, 30000),
        Sub("small", cases(small=True), check, 600, 15000)]
