"""C10: the quantile regression POD interpolates the quantile crossing sizes."""
import math

import numpy as np
import openturns as ot
import otpod
from hypothesis import strategies as st
from statsmodels.regression.quantile_regression import QuantReg

from harness import Info, Reject, Sub, Violation, call1, expect, expect_close, fresh, sut
from props.common import (LAMBDAS, SEEDS, boxcox, boxcox_loglik, boxcox_shift, check_loss, choice,
                          col, qr_crossings, qr_optimum, split)
from props.c08 import rank_check

ID = "C10"
RULE = ("Seeded univariate data of 20 to 60 observations, heteroscedastic or not, sorted or not, "
        "thresholds, boxCox off, fixed or optimised, 1 to 6 quantiles given unsorted, as a list, "
        "array or tuple. Non-trivial: at least two quantiles with distinct crossing sizes "
        "inside the interval.")


@st.composite
def cases(draw, boot=False):
    qs = draw(st.lists(st.integers(2, 18), min_size=1, max_size=6, unique=True))
    return {"seed": draw(SEEDS), "n": draw(st.integers(20, 60).flatmap(lambda n: choice(*[n] * 11 + [130]))),
            "hetero": draw(choice(0.0, 0.5)), "sigma": draw(choice(0.5, 1.0, 2.0)),
            "cens": draw(choice("none", "none", "low", "high", "both")),
            "boxcox": draw(choice("off", "off", "fixed", "true")),
            "lam": draw(choice(*LAMBDAS)), "det": draw(choice(0.5, 0.4, 0.6)),
            "neg": draw(choice(False, False, True)),
            "order": draw(choice("random", "increasing", "decreasing")),
            "qtype": draw(choice("list", "array", "tuple")),
            "q": qs[:2] if boot else qs, "conf": draw(choice(0.95, 0.9, 0.5, 0.2))}


def load(c):
    rs = np.random.RandomState(c["seed"] % 2 ** 32)
    n = c["n"]
    x = rs.uniform(0.3, 4.0, n)
    y = 3 + 5 * x + c["sigma"] * (1 + c["hetero"] * x) * rs.randn(n)
    if c["order"] != "random":
        k = np.argsort(x)
        if c["order"] == "decreasing":
            k = k[::-1]
        x, y = x[k], y[k]
    y = y - y.min() + 1.0
    if c["neg"]:
        y = y - 6.0
    s = np.sort(y)
    noise = float(0.5 * (s[1] + s[2])) if c["cens"] in ("low", "both") else None
    sat = float(0.5 * (s[-2] + s[-3])) if c["cens"] in ("high", "both") else None
    keep, _, _ = split(x, y, noise, sat)
    det = float(np.quantile(y[keep], c["det"]))
    sh = boxcox_shift(y[keep])
    if c["boxcox"] != "off" and any(t is not None and t + sh <= 0 for t in (noise, sat, det)):
        raise Reject("domain of Box Cox")
    return x, y, noise, sat, np.array(keep), det, sh


def quantiles(c):
    q = [k / 20.0 for k in c["q"]]
    a = {"list": list, "tuple": tuple, "array": np.array}[c["qtype"]](q)
    return a, sorted(q)


def make(c, x, y, det, noise, sat, sim):
    pod = sut("QuantileRegressionPOD", otpod.QuantileRegressionPOD, col(x), col(y), det, noise, sat,
              {"off": False, "fixed": c["lam"], "true": True}[c["boxcox"]])
    pod.setVerbose(False)
    a, q = quantiles(c)
    sut("setQuantile(%r)" % (a,), pod.setQuantile, a)
    got = np.array(sut("getQuantile", pod.getQuantile), dtype=float)
    expect(got.shape == (len(q),) and np.allclose(got, q, 0, 1e-15), "getQuantile %r, given %r",
           got, a)
    pod.setSimulationSize(sim)
    return pod, q


def transformed(c, pod, y, keep, det, sh):
    z, dt = y[keep], det
    if c["boxcox"] == "off":
        expect(pod.getBoxCoxParameter() is None, "Box Cox parameter without Box Cox")
        return z, dt
    lam = float(pod.getBoxCoxParameter())
    if c["boxcox"] == "fixed":
        expect(lam == c["lam"], "Box Cox parameter %r, %r was given", lam, c["lam"])
    else:
        g = [boxcox_loglik(z + sh, t) for t in np.linspace(-4, 4, 161)]
        expect(boxcox_loglik(z + sh, lam) >= max(g) - 5e-2 or abs(lam) > 4,
               "the Box Cox parameter %r is not that of the data", lam)
    f = ot.BoxCoxTransform([lam])
    return np.array(f(ot.Sample(col(z + sh))))[:, 0], f([det + sh])[0]


def unstable(X, z, p, kw):
    """The iterative fit cycles: its result depends on rounding errors."""
    rs = np.random.RandomState(0)
    b = QuantReg(z, X).fit(p, **kw).params
    for _ in range(6):
        zz = z * (1 + 1e-13 * rs.randn(len(z)))
        if not np.allclose(QuantReg(zz, X).fit(p, **kw).params, b, 1e-5, 1e-8):
            return True
    return False


def outside(model, dmax, what):
    """The curve is not defined beyond the largest retained size."""
    for t in (dmax * 1.001 + 1e-3, 1.2 * dmax):
        try:
            v = float(model([t])[0])
        except Exception:
            continue
        expect(not np.isfinite(v), "%s(%r) = %r beyond the largest retained size %r", what, t, v,
               dmax)


def check_curve(c):
    x, y, noise, sat, keep, det, sh = load(c)
    sim = c["seed"] % 2
    pod, q = make(c, x, y, det, noise, sat, sim)
    xk = x[keep]
    dmax = xk.max()
    lam = c["lam"]
    fresh(c["seed"])
    try:
        pod.run()
    except Exception as e:
        if sim:
            raise Reject("resample without crossing")
        if c["boxcox"] == "true":
            raise Reject("no crossing")
        z, dt = y[keep], det
        if c["boxcox"] == "fixed":
            f = ot.BoxCoxTransform([lam])
            z, dt = np.array(f(ot.Sample(col(z + sh))))[:, 0], f([det + sh])[0]
        w = [qr_crossings(xk, z, 1 - p, dt) for p in q]
        expect(not all(1e-6 < t < dmax - 1e-6 for v in w for t in v),
               "run raised %s although the lines meet detection at %r", e, w)
        raise Reject("no crossing")
    z, dt = transformed(c, pod, y, keep, det, sh)
    if np.ptp(z) < 1e-2:
        raise Reject("signals below the tolerance of the iterative fit")
    w = np.array([qr_crossings(xk, z, 1 - p, dt) for p in q])
    if not (w > 1e-6).all() or not (w < dmax - 1e-9).all():
        raise Reject("no crossing")
    if len(q) > 1 and np.diff(np.sort(w, axis=0), axis=0).min() < 1e-6 * dmax:
        raise Reject("equal crossing sizes")
    model = pod.getPODModel()
    refs = []
    for j in range(2):
        xs = np.concatenate([[0.0], w[:, j], [dmax]])
        ys = np.concatenate([[0.0], q, [max(q)]])
        k = np.argsort(xs, kind="stable")
        refs.append((xs[k], ys[k]))
    pts = np.unique(np.concatenate([np.linspace(0, dmax - 1e-9, 12), w[:, 0], w[:, 1]]))
    scale = dmax
    good = [True, True]
    worst = None
    for t in pts:
        v = call1("POD", model, t)
        expect(-1e-9 <= v <= 1, "POD(%r) = %r", t, v)
        for j in range(2):
            lo = np.interp(t - 2e-4 * scale, *refs[j])
            hi = np.interp(t + 2e-4 * scale, *refs[j])
            m = np.interp(t, *refs[j])
            if not min(lo, hi, m) - 1e-3 <= v <= max(lo, hi, m) + 1e-3:
                good[j] = False
                if j == 0 and worst is None:
                    worst = (t, v, m)
    labels = [c["cens"], "boxcox " + c["boxcox"], c["qtype"]]
    if not (good[0] or good[1]):
        # the iterative fit may cycle, and then depends on rounding errors
        X = np.vstack([np.ones(len(xk)), xk]).T
        expect(any(unstable(X, z, 1 - p, {"max_iter": 300, "p_tol": 1e-2}) for p in q),
               "POD(%r) = %r, the crossing sizes %r of the quantiles %r give %r",
               *((worst or (0, 0, 0))[:2] + (w.tolist(), q) + ((worst or (0, 0, 0))[2],)))
        labels.append("cycling fit")
    # the curve on the domain
    expect_close("POD(0)", call1("POD", model, 0.0), 0.0, 0, 1e-12)
    expect_close("POD at the largest size", call1("POD", model, dmax), max(q), 1e-9, 1e-9)
    outside(model, dmax, "POD")
    if sim:
        outside(sut("getPODCLModel", pod.getPODCLModel, c["conf"]), dmax, "POD CL")
    # pseudo R2
    for p in q + [0.5, 0.37]:
        r2 = float(sut("getR2(%r)" % p, pod.getR2, p))
        X = np.vstack([np.ones(len(xk)), xk]).T
        ref = QuantReg(z, X).fit(p)
        L0 = check_loss(z - np.percentile(z, 100 * p), p)
        a = 1 - check_loss(z - X @ ref.params, p) / L0
        b = 1 - qr_optimum(xk, z, p)[0] / L0
        expect(abs(r2 - a) <= 1e-4 or abs(r2 - b) <= 1e-4 or (r2 <= b + 1e-4 and unstable(X, z, p, {})),
               "pseudo R2 at %r is %r, expected %r", p, r2, a)
    return Info(nontrivial=len(q) >= 2 and np.ptp(w[:, 0]) > 1e-3,
                labels=labels)


def inverse(m, p, dmax):
    a, b = 0.0, float(dmax)
    for _ in range(50):
        t = 0.5 * (a + b)
        if float(m([t])[0]) < p:
            a = t
        else:
            b = t
    return b


def check_boot(c):
    """The curve at confidence level uses the quantiles of the bootstrap crossing sizes."""
    x, y, noise, sat, keep, det, sh = load(c)
    c = dict(c)
    if c["boxcox"] == "true":
        c["boxcox"] = "fixed"
    N, M = 150, 250
    pod, q = make(c, x, y, det, noise, sat, N)
    fresh(c["seed"])
    try:
        pod.run()
    except Exception:
        raise Reject("no crossing")
    rs = np.random.RandomState((c["seed"] + 5) % 2 ** 32)
    n = len(x)
    dmax = x[keep].max()
    ref = np.zeros((M, len(q)))
    f = ot.BoxCoxTransform([c["lam"]])
    for i in range(M):
        k = rs.randint(0, n, n)
        kk, _, _ = split(x[k], y[k], noise, sat)
        xx, z, dt = x[k][kk], y[k][kk], det
        if c["boxcox"] == "fixed":
            z, dt = np.array(f(ot.Sample(col(z + sh))))[:, 0], f([det + sh])[0]
        X = np.vstack([np.ones(len(xx)), xx]).T
        for j, p in enumerate(q):
            b = QuantReg(z, X).fit(1 - p, max_iter=300, p_tol=1e-2).params
            ref[i, j] = (dt - b[0]) / b[1]
    if not (ref > 0.02 * dmax).all() or not (ref < 0.98 * dmax).all():
        raise Reject("crossing sizes not inside")
    if (np.diff(ref, axis=1) <= 0).any():
        raise Reject("crossing lines")
    outside(sut("getPODModel", pod.getPODModel), dmax, "POD")
    grid = np.linspace(0.0, dmax - 1e-9, 60)
    curves = {}
    for conf in sorted(set([0.1, 0.5, 0.9, c["conf"]])):
        m = sut("getPODCLModel", pod.getPODCLModel, conf)
        v = np.array([call1("POD CL", m, t) for t in grid])
        expect((np.diff(v) >= -1e-9).all(), "the curve at confidence %r decreases", conf)
        curves[conf] = v
        outside(m, dmax, "POD CL")
        for j, p in enumerate(q):
            # the plateau starts at the largest size searched
            b = inverse(m, p - (1e-9 if j == len(q) - 1 else 0), dmax)
            rank_check("size of POD %r at confidence %r" % (p, conf), b, ref[:, j], 1 - conf, N)
    prev = None
    for conf in sorted(curves):
        if prev is not None:
            expect((curves[conf] <= curves[prev] + 1e-9).all(),
                   "the curve at confidence %r exceeds the one at %r", conf, prev)
        prev = conf
    return Info(nontrivial=True, labels=[c["cens"], "boxcox " + c["boxcox"]])


SUBS = [Sub("curve", cases(), check_curve, 960, 20000),
        Sub("bootstrap", cases(boot=True), check_boot, 96, 2000)]
