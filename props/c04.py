"""C04: Box Cox uses the given parameter, or the likelihood optimum, everywhere."""
import numpy as np
import openturns as ot
import otpod
from hypothesis import strategies as st
from scipy import optimize

from harness import (Info, Reject, Sub, Violation, call1, expect, expect_all_close,
                     expect_close, fresh, sut)
from props.common import (LAMBDAS, SEEDS, boxcox, boxcox_loglik, boxcox_shift, choice, col,
                          factory, ols, split, uni_cases, uni_data)

ID = "C04"
RULE = ("Positive, null and negative signals (univariate or 2 inputs), no, one or two "
        "thresholds, boxCox False, True or a float in {-0.5..2, 0}, every class. The run is "
        "compared with a plain run on signals, thresholds and detection transformed by hand. "
        "Non-trivial: Box Cox enabled.")


@st.composite
def uni(draw):
    c = draw(uni_cases(nmin=12, nmax=50, boxcox=("fixed", "fixed", "true", "off")))
    c["bcsign"] = draw(choice("positive", "any", "zero"))
    c["lam"] = draw(choice(*LAMBDAS))
    c["det"] = draw(choice(0.3, 0.5, 0.7))
    c["fact"] = draw(choice("none", "normal", "logistic", "uniform"))
    return c


def arg(c):
    return {"fixed": c["lam"], "true": True, "off": False}[c["boxcox"]]


def prepare(c):
    x, y, noise, sat, keep, lo, hi = uni_data(c)
    if c["bcsign"] == "zero":
        d = y[keep].min()
        y = y - d
        noise = None if noise is None else noise - d
        sat = None if sat is None else sat - d
        keep2, lo, hi = split(x, y, noise, sat)
        if list(keep2) != list(keep):
            raise Reject("rounding")
    det = float(np.quantile(y[keep], c["det"]))
    domain(c, y[keep], noise, sat)
    return x, y, noise, sat, keep, det


def domain(c, y, noise, sat):
    """Thresholds must be positive once shifted, as Box Cox requires."""
    sh = boxcox_shift(y)
    if c["boxcox"] != "off" and any(t is not None and t + sh <= 0 for t in (noise, sat)):
        raise Reject("threshold outside the domain of Box Cox")


def transform(lam, shift):
    f = ot.BoxCoxTransform([lam])
    return lambda v: f([float(v) + shift])[0]


def check_lambda(what, obj, c, y):
    """The reported parameter is the given one, the optimum or None."""
    lam = sut(what + ".getBoxCoxParameter", obj.getBoxCoxParameter)
    if c["boxcox"] == "off":
        expect(lam is None, "%s: Box Cox parameter %r although it is not enabled", what, lam)
        return None
    lam = float(lam)
    if c["boxcox"] == "fixed":
        expect(lam == c["lam"], "%s: Box Cox parameter %r, %r was given", what, lam, c["lam"])
        return lam
    z = y + boxcox_shift(y)
    g = np.linspace(-5, 5, 201)
    ll = np.array([boxcox_loglik(z, t) for t in g])
    i = int(np.argmax(ll))
    r = optimize.minimize_scalar(lambda t: -boxcox_loglik(z, t), bracket=None,
                                 bounds=(g[max(0, i - 1)], g[min(200, i + 1)]), method="bounded")
    best = max(ll[i], -r.fun)
    got = boxcox_loglik(z, lam)
    # the optimum may lie outside the range a local search explores
    expect(got >= best - 1e-2 or abs(lam) > 4.5,
           "%s: Box Cox log-likelihood %r at %r, %r is reached at %r", what, got, lam, best,
           float(r.x))
    return lam


def manual(c, lam, x, y, noise, sat, keep, det):
    """Data, thresholds and detection transformed by hand."""
    if lam is None:
        return y, noise, sat, det, 0.0
    sh = boxcox_shift(y[keep])
    t = transform(lam, sh)
    z = y.copy()
    ks = set(int(i) for i in keep)
    nt = None if noise is None else t(noise)
    st_ = None if sat is None else t(sat)
    for i in range(len(y)):
        if i in ks:
            z[i] = t(y[i])
        elif noise is not None and y[i] <= noise:
            z[i] = nt - 1.0
        else:
            z[i] = st_ + 1.0
    expect_all_close("OpenTURNS transformation", z[keep], boxcox(y[keep] + sh, lam), 1e-5, 1e-6)
    sd = np.std(z[keep])
    if not np.isfinite(z).all() or not sd > 1e-6 * (1 + np.abs(z[keep]).max()):
        raise Reject("degenerate transformation")
    k2, _, _ = split(x if x.ndim == 1 else x[:, 0], z, nt, st_)
    if list(k2) != list(keep):
        raise Reject("transformation not injective at this precision")
    return z, nt, st_, t(det), sh


def check_analysis(c):
    x, y, noise, sat, keep, det = prepare(c)
    fact = ot.NormalFactory()
    fresh(c["seed"])
    an = sut("UnivariateLinearModelAnalysis(boxCox=%r)" % arg(c),
             otpod.UnivariateLinearModelAnalysis, col(x), col(y), noise, sat, fact, arg(c))
    lam = check_lambda("analysis", an, c, y[keep])
    z, nt, st_, _, _ = manual(c, lam, x, y, noise, sat, keep, det)
    _, _, sd, _ = ols(x[keep], z[keep])
    if not sd > 1e-6:
        raise Reject("degenerate")
    fresh(c["seed"])
    ref = otpod.UnivariateLinearModelAnalysis(col(x), col(z), nt, st_, fact, False)
    for name in ("getIntercept", "getSlope", "getStandardError", "getR2", "getKolmogorovPValue",
                 "getAndersonDarlingPValue", "getZeroMeanPValue"):
        a = np.array(sut(name, getattr(an, name)))
        b = np.array(getattr(ref, name)())
        expect_all_close(name + " with Box Cox %r" % arg(c), a, b, 1e-6, 1e-7)
    expect_all_close("residuals with Box Cox", np.array(an.getResiduals()),
                     np.array(ref.getResiduals()), 1e-6, 1e-7 * (1 + np.abs(z[keep]).max()))
    # the user's own data are returned, not the transformed ones
    expect((np.array(an.getOutputSample())[:, 0] == y).all(), "getOutputSample is transformed")
    expect(an.getNoiseThreshold() == noise and an.getSaturationThreshold() == sat,
           "the thresholds are transformed")
    return Info(nontrivial=c["boxcox"] != "off", labels=[c["boxcox"], c["bcsign"], c["cens"]])


def check_linear(c):
    x, y, noise, sat, keep, det = prepare(c)
    X, Y = col(x), col(y)

    def build(Y, det, noise, sat, bc, via):
        fresh(c["seed"])
        if via:
            an = otpod.UnivariateLinearModelAnalysis(X, Y, noise, sat, factory(c["fact"]), bc)
            fresh(c["seed"])
            pod = otpod.UnivariateLinearModelPOD(analysis=an, detection=det)
        else:
            pod = otpod.UnivariateLinearModelPOD(X, Y, det, noise, sat, factory(c["fact"]), bc)
        pod.setVerbose(False)
        pod.setSimulationSize(6)
        fresh(c["seed"])
        pod.run()
        return pod

    via = c["fact"] != "none" and c["klo"] % 2 == 0
    resampled = c["fact"] not in ("none", "normal")
    try:
        pod = build(Y, det, noise, sat, arg(c), via)
    except Exception as e:
        if resampled:
            # a bootstrap resample may be degenerate; the run by hand must then fail too
            if c["boxcox"] != "fixed":
                raise Reject("bootstrap")
            z, nt, st_, dt, _ = manual(c, c["lam"], x, y, noise, sat, keep, det)
            try:
                build(col(z), dt, nt, st_, False, via)
            except Exception:
                raise Reject("bootstrap")
        raise Violation("UnivariateLinearModelPOD(boxCox=%r) raised %s" % (arg(c), e))
    lam = check_lambda("linear POD", pod, c, y[keep])
    z, nt, st_, dt, _ = manual(c, lam, x, y, noise, sat, keep, det)
    ref = build(col(z), dt, nt, st_, False, via)
    # with an optimised parameter each bootstrap resample has its own
    cl = c["boxcox"] != "true" or c["fact"] == "normal"
    for t in np.linspace(x.min(), x.max(), 6):
        a, b = call1("POD", pod.getPODModel(), t), call1("POD", ref.getPODModel(), t)
        if c["fact"] == "none":
            ok = abs(a - b) <= 1.0 / len(keep) + 1e-9 if c["det"] else a == b
            expect(ok, "POD(%r) with Box Cox: %r, by hand: %r", t, a, b)
        else:
            expect_close("POD(%r) with Box Cox vs by hand" % t, a, b, 1e-5, 1e-6)
        if cl and c["fact"] != "none":
            a = call1("POD CL", pod.getPODCLModel(0.9), t)
            b = call1("POD CL", ref.getPODCLModel(0.9), t)
            expect_close("POD at confidence 0.9 at %r with Box Cox vs by hand" % t, a, b, 1e-4,
                         1e-5)
    expect_close("R2 with Box Cox", pod.getR2(), ref.getR2(), 1e-6, 1e-7)
    return Info(nontrivial=c["boxcox"] != "off",
                labels=[c["boxcox"], c["bcsign"], c["cens"], c["fact"]])


# --------------------------------------------------------------------------
@st.composite
def multi(draw):
    return {"seed": draw(SEEDS), "n": draw(st.integers(20, 36)),
            "cls": draw(choice("chaos", "kriging", "qr", "signal")),
            "boxcox": draw(choice("fixed", "fixed", "true", "off")),
            "lam": draw(choice(*LAMBDAS)),
            "sign": draw(choice("positive", "any", "zero")),
            "cens": draw(choice("none", "low", "high", "both")),
            "det": draw(choice(0.4, 0.5, 0.6))}


def check_multi(c):
    rs = np.random.RandomState(c["seed"] % 2 ** 32)
    n = c["n"]
    x = rs.uniform(0.5, 3, (n, 2))
    y = 4 * x[:, 0] + x[:, 1] ** 2 + 0.3 * rs.randn(n)
    if c["sign"] == "positive":
        y = y - y.min() + 2.0
    elif c["sign"] == "any":
        y = y - np.quantile(y, 0.3)
    s = np.sort(y)
    noise = 0.5 * (s[1] + s[2]) if c["cens"] in ("low", "both") else None
    sat = 0.5 * (s[-2] + s[-3]) if c["cens"] in ("high", "both") else None
    keep, _, _ = split(x, y, noise, sat)
    keep = np.array(keep)
    if c["sign"] == "zero":
        d = y[keep].min()
        y = y - d
        noise = None if noise is None else noise - d
        sat = None if sat is None else sat - d
    det = float(np.quantile(y[keep], c["det"]))
    domain(c, y[keep], noise, sat)
    sizes = np.linspace(x[keep, 0].min(), x[keep, 0].max(), 4)[1:-1]

    def model_of(t):
        def f(v):
            return [t(4 * v[0] + v[1] ** 2 + 1.5)]
        return ot.PythonFunction(2, 1, f)

    def build(Y, det, noise, sat, bc, t):
        fresh(c["seed"])
        k = c["cls"]
        if k == "qr":
            pod = otpod.QuantileRegressionPOD(col(x[:, 0]), Y, det, noise, sat, bc)
            pod.setQuantile([0.4, 0.6])
            pod.setSimulationSize(2)
        elif k == "chaos":
            pod = otpod.PolynomialChaosPOD(x, Y, det, noise, sat, bc)
            pod.setDegree(2)
        elif k == "kriging":
            pod = otpod.KrigingPOD(x, Y, det, noise, sat, bc)
        else:
            pod = otpod.AdaptiveSignalPOD(x, Y, model_of(t), 2, det, noise, sat, bc)
            pod.setCandidateSize(20)
        pod.setVerbose(False)
        if k != "qr":
            pod.setDefectSizes(sizes)
            pod.setSamplingSize(40)
            pod.setSimulationSize(6)
        if k in ("kriging", "signal"):
            pod.setInitialStartSize(0)
        fresh(c["seed"])
        pod.run()
        return pod

    if c["cls"] == "qr":
        try:
            pod = build(col(y), det, noise, sat, arg(c), float)
        except Exception:
            return Info(nontrivial=False, labels=["qr without crossing"])
    else:
        pod = sut("%s(boxCox=%r)" % (c["cls"], arg(c)), build, col(y), det, noise, sat, arg(c),
                  float)
    if c["cls"] == "signal":
        # the parameter is that of the enriched design: check the given one only
        lam = sut("getBoxCoxParameter", pod.getBoxCoxParameter)
        if c["boxcox"] == "off":
            expect(lam is None, "Box Cox parameter %r although it is not enabled", lam)
        elif c["boxcox"] == "fixed":
            expect(lam == c["lam"], "Box Cox parameter %r, %r was given", lam, c["lam"])
    else:
        lam = check_lambda(c["cls"], pod, c, y[keep])
    z, nt, st_, dt, sh = manual(c, lam, x, y, noise, sat, keep, det)
    t = float if lam is None else transform(lam, sh)
    try:
        ref = build(col(z), dt, nt, st_, False, t)
    except Exception as e:
        if c["cls"] == "qr" and c["boxcox"] == "true":
            raise Reject("a bootstrap resample without crossing")
        raise Violation("the run by hand raised %s, the Box Cox run did not" % e)
    pts = sizes if c["cls"] != "qr" else np.linspace(0.1, x[keep, 0].max() - 1e-6, 5)
    for u in pts:
        a, b = call1("POD", pod.getPODModel(), u), call1("POD", ref.getPODModel(), u)
        expect_close("%s POD(%r) with Box Cox vs by hand" % (c["cls"], u), a, b, 1e-4, 1e-5)
        if c["cls"] != "qr" or c["boxcox"] != "true":
            m1, m2 = pod.getPODCLModel(0.8), ref.getPODCLModel(0.8)
            try:
                b = m2([float(u)])[0]
            except Exception:
                continue
            a = call1("POD CL", m1, u)
            expect_close("%s POD at confidence 0.8 at %r with Box Cox vs by hand" % (c["cls"], u),
                         a, b, 1e-4, 1e-5)
    return Info(nontrivial=c["boxcox"] != "off",
                labels=[c["cls"], c["boxcox"], c["sign"], c["cens"]])


SUBS = [Sub("analysis", uni(), check_analysis, 400, 10000),
        Sub("linear", uni(), check_linear, 800, 20000),
        Sub("multi", multi(), check_multi, 240, 5000)]
