"""C08: the linear POD at confidence level."""
import math

import numpy as np
import openturns as ot
import otpod
from hypothesis import strategies as st
from scipy import stats

from harness import Info, Reject, Sub, Violation, call1, expect, expect_close, fresh, sut
from props.common import (LAMBDAS, boxcox_shift, choice, col, factory, make_linear, ols,
                          uni_cases, uni_data)

ID = "C08"
RULE = ("Seeded linear data with thresholds and fixed Box Cox parameter, confidence levels in "
        "(0.01, 0.995). Binomial: closed form at sizes covering every number of detected "
        "residuals. Gaussian and bootstrap: the rank of the value in an independent simulation. "
        "Histories: sequences of setSimulationSize, run and getPODCLModel. Non-trivial: some "
        "value lies in (0.01, 0.99).")
CONF = (0.95, 0.9, 0.5, 0.05, 0.99, 0.8, 0.25, 0.995)


@st.composite
def binom(draw):
    if draw(st.booleans()):
        c = draw(uni_cases(nmin=3, nmax=11, cens=("none",)))
    else:
        c = draw(uni_cases(nmin=12, nmax=60, boxcox=("off", "fixed")))
    c["lam"] = draw(choice(*LAMBDAS))
    c["det"] = draw(choice(0.5, 0.3, 0.8))
    c["conf"] = draw(st.lists(choice(*CONF), min_size=2, max_size=3, unique=True))
    return c


def load(c):
    if c["n"] < 12:
        x, y = make_linear(c)
        if not ols(x, y)[2] > 1e-5:
            raise Reject("perfect fit")
        noise = sat = None
        keep = np.arange(len(x))
    else:
        x, y, noise, sat, keep, lo, hi = uni_data(c)
    det = float(np.quantile(y[keep], c["det"]))
    z, dt = y[keep], det
    bc = False
    if c["boxcox"] == "fixed":
        bc = c["lam"]
        sh = boxcox_shift(z)
        f = ot.BoxCoxTransform([c["lam"]])
        z = np.array([f([float(t) + sh])[0] for t in z])
        dt = f([det + sh])[0]
    b0, b1, s, r = ols(x[keep], z)
    if not s > 1e-6 * (1 + np.abs(z).max()):
        raise Reject("perfect fit")
    if noise is not None or sat is not None:
        an = otpod.UnivariateLinearModelAnalysis(col(x), col(y), noise, sat, None, bc)
        b0, b1, s = (f()[1] for f in (an.getIntercept, an.getSlope, an.getStandardError))
        r = z - (b0 + b1 * x[keep])
    return x, y, noise, sat, keep, det, dt, bc, z, b0, b1, s, r


def check_binom(c):
    x, y, noise, sat, keep, det, dt, bc, z, b0, b1, s, r = load(c)
    cens = noise is not None or sat is not None
    pod = sut("UnivariateLinearModelPOD", otpod.UnivariateLinearModelPOD, col(x), col(y), det,
              noise, sat, None, bc)
    sut("run", pod.run)
    n = len(keep)
    rs = np.sort(r)
    gaps = np.diff(rs)
    known = []
    inner = 0
    conf = sorted(c["conf"])
    models = {q: sut("getPODCLModel", pod.getPODCLModel, q) for q in conf}
    if len(conf) > 2:
        models[0.95] = sut("getPODCLModel()", pod.getPODCLModel)
        conf = sorted(set(conf + [0.95]))
    emp = ot.UserDefined(ot.Sample(col(r)))
    # a threshold between two residuals gives every possible count
    if abs(b1) < 1e-9:
        raise Reject("flat")
    thr = [rs[0] - s, rs[-1] + s]
    tolr = 0.02 * s if cens else 1e-7 * (s + abs(dt) + abs(b0))
    for i in range(n - 1):
        if gaps[i] > 4 * tolr:
            thr.append(0.5 * (rs[i] + rs[i + 1]))
    if len(thr) > 14:
        k = np.random.RandomState(c["seed"] % 2 ** 32).permutation(len(thr) - 2)[:12]
        thr = thr[:2] + [thr[2 + j] for j in k]
    for t in thr:
        size = (dt - t - b0) / b1
        count = int(np.sum(r > t))
        trunc = math.trunc(n * emp.computeComplementaryCDF(t))
        prev = None
        for q in conf:
            v = call1("POD CL", models[q], size)
            what = "POD at confidence %r at %r (%d of %d residuals above)" % (q, size, count, n)
            expect(-1e-12 <= v <= 1 + 1e-12, "%s = %r is not a probability", what, v)
            ok = False
            if count < n:
                want = 1 - stats.beta.ppf(q, n - count, count + 1)
                ok = abs(v - want) <= 1e-6
            else:
                want = (1 - q) ** (1.0 / n)
                ok = abs(v - want) <= 1e-9
                if not ok and trunc == n and abs(v - q ** (1.0 / n)) <= 1e-9:
                    known.append("all-detected")
                    ok = True
            if not ok and trunc == count - 1:
                w2 = 1 - stats.beta.ppf(q, n - trunc, trunc + 1)
                if abs(v - w2) <= 1e-6:
                    known.append("truncated-count")
                    ok = True
            expect(ok, "%s = %r, expected %r", what, v, want)
            if 0.01 < v < 0.99:
                inner += 1
            if count < n and prev is not None:
                expect(v <= prev + 1e-9, "%s = %r increases with the level (%r)", what, v, prev)
            prev = v
    return Info(nontrivial=inner > 0, known=sorted(set(known)),
                labels=[c["cens"], "boxcox " + c["boxcox"]])


# --------------------------------------------------------------------------
@st.composite
def gauss(draw):
    if draw(st.booleans()):
        c = draw(uni_cases(nmin=4, nmax=11, cens=("none",)))
    else:
        c = draw(uni_cases(nmin=12, nmax=60, boxcox=("off", "off", "fixed")))
    c["lam"] = draw(choice(*LAMBDAS))
    c["det"] = draw(choice(0.5, 0.3, 0.8))
    c["sim"] = draw(choice(400, 1000, 1500))
    return c


def rank_check(what, v, ref, q, N):
    """v is a (1-q)-quantile of N draws of the law sampled by ref."""
    M = len(ref)
    lo = np.mean(ref < v - 1e-9 - 1e-6 * abs(v))
    hi = np.mean(ref <= v + 1e-9 + 1e-6 * abs(v))
    p = 1 - q
    tol = 7 * math.sqrt(max(q * p, 0.005) * (1.0 / N + 1.0 / M)) + 3.0 / N
    expect(lo - tol <= p <= hi + tol,
           "%s = %r has rank [%r, %r] in the simulated law instead of %r +- %r", what, v, lo, hi,
           p, tol)
    return tol < min(p, q)


def check_gauss(c):
    x, y, noise, sat, keep, det, dt, bc, z, b0, b1, s, r = load(c)
    cens = noise is not None or sat is not None
    pod = sut("UnivariateLinearModelPOD", otpod.UnivariateLinearModelPOD, col(x), col(y), det,
              noise, sat, ot.NormalFactory(), bc)
    sut("setSimulationSize", pod.setSimulationSize, c["sim"])
    fresh(c["seed"])
    sut("run", pod.run)
    n = len(keep)
    rs = np.random.RandomState((c["seed"] + 77) % 2 ** 32)
    M = 20000
    xm = x[keep].mean()
    sxx = ((x[keep] - xm) ** 2).sum()
    sig = s * np.sqrt((n - 2) / rs.chisquare(n - 2, M))
    mid = (b0 + b1 * xm) + sig / math.sqrt(n) * rs.randn(M)
    slope = b1 + sig / math.sqrt(sxx) * rs.randn(M)
    inner = 0
    for t in np.linspace(x.min(), x.max(), 4):
        ref = stats.norm.sf((dt - (mid + slope * (t - xm))) / sig)
        prev = None
        for q in (0.05, 0.5, 0.9, 0.95):
            v = call1("POD CL", sut("getPODCLModel", pod.getPODCLModel, q), t)
            what = "Gaussian POD at confidence %r at %r" % (q, t)
            expect(-1e-12 <= v <= 1 + 1e-12, "%s = %r is not a probability", what, v)
            rank_check(what, v, ref, q, c["sim"])
            expect(prev is None or v <= prev + 1e-9, "%s = %r increases with the level (%r)", what,
                   v, prev)
            prev = v
            inner += 0.01 < v < 0.99
    return Info(nontrivial=inner > 0, labels=[c["cens"], "boxcox " + c["boxcox"]])


# --------------------------------------------------------------------------
@st.composite
def boot(draw):
    c = draw(uni_cases(nmin=24, nmax=50, cens=("none", "none", "none", "low", "both"),
                       boxcox=("off", "off", "fixed", "true")))
    c["yround"] = None
    c["xround"] = None
    c["lam"] = draw(choice(0.0, 0.3, 0.5, 1.0))
    c["det"] = draw(choice(0.5, 0.3, 0.8))
    c["fact"] = draw(choice("logistic", "uniform", "laplace", "gumbel", "kernel"))
    return c


def check_boot(c):
    if c["cens"] != "none" or c["boxcox"] == "true":
        # the reference is the class itself on each resample, which has its own shift
        c = dict(c, bcsign="positive")
    x, y, noise, sat, keep, lo, hi = uni_data(c)
    sh = boxcox_shift(y[keep])
    det = float(np.quantile(y[keep], c["det"]))
    bc = {"off": False, "fixed": c["lam"], "true": True}[c["boxcox"]]
    cens = noise is not None or sat is not None
    slow = cens or c["boxcox"] == "true"
    N = 120 if slow else 400
    M = 150 if slow else 1200

    def build(xx, yy, sim):
        pod = otpod.UnivariateLinearModelPOD(col(xx), col(yy), det, noise, sat,
                                             factory(c["fact"]), bc)
        pod.setVerbose(False)
        pod.setSimulationSize(sim)
        pod.run()
        return pod

    fresh(c["seed"])
    try:
        pod = build(x, y, N)
    except Exception as e:
        if "build" in str(e) or "starting" in str(e):
            raise Reject("degenerate bootstrap resample")
        raise Violation("run raised %s: %s" % (type(e).__name__, e))
    pts = np.linspace(x.min(), x.max(), 4)
    rs = np.random.RandomState((c["seed"] + 99) % 2 ** 32)
    ref = np.zeros((M, len(pts)))
    n = len(x)
    for i in range(M):
        k = rs.randint(0, n, n)
        if slow:
            # the curve of the resample, by the class itself (its formula is C07)
            p = build(x[k], y[k], 0)
            ref[i] = [p.getPODModel()([float(t)])[0] for t in pts]
        else:
            z, dt = y[k], det
            if bc is not False:
                f = ot.BoxCoxTransform([bc])
                z = np.array(f(ot.Sample(col(z + sh))))[:, 0]
                dt = f([det + sh])[0]
            a = np.vstack([np.ones(n), x[k]]).T
            b = np.linalg.lstsq(a, z, rcond=None)[0]
            law = factory(c["fact"]).build(ot.Sample(col(z - a @ b)))
            ref[i] = [law.computeComplementaryCDF(float(dt - b[0] - b[1] * t)) for t in pts]
    inner = 0
    for j, t in enumerate(pts):
        prev = None
        for q in (0.1, 0.5, 0.9):
            v = call1("POD CL", sut("getPODCLModel", pod.getPODCLModel, q), t)
            what = "bootstrap POD at confidence %r at %r" % (q, t)
            expect(-1e-12 <= v <= 1 + 1e-12, "%s = %r is not a probability", what, v)
            rank_check(what, v, ref[:, j], q, N)
            expect(prev is None or v <= prev + 1e-9, "%s = %r increases with the level", what, v)
            prev = v
            inner += 0.01 < v < 0.99
    return Info(nontrivial=inner > 0, labels=[c["cens"], "boxcox " + c["boxcox"], c["fact"]])


# --------------------------------------------------------------------------
@st.composite
def history(draw):
    c = draw(uni_cases(nmin=16, nmax=30, cens=("none",)))
    c["fact"] = draw(choice("none", "normal", "logistic"))
    c["steps"] = draw(st.lists(st.tuples(choice("size", "run", "cl", "detect"),
                                         st.integers(1, 40)), min_size=2, max_size=8))
    return c


def check_history(c):
    """The curves are those of the last run, whatever is set afterwards."""
    x, y, noise, sat, keep, lo, hi = uni_data(c)
    det = float(np.quantile(y, 0.5))

    def new():
        p = otpod.UnivariateLinearModelPOD(col(x), col(y), det, None, None, factory(c["fact"]))
        p.setVerbose(False)
        p.setSimulationSize(7)
        return p

    pod = new()
    size, sim, done = 7, None, None
    pts = [float(t) for t in np.linspace(x.min(), x.max(), 4)]
    k = 0
    try:
        for op, a in [("run", 0)] + c["steps"]:
            if op == "size":
                sut("setSimulationSize", pod.setSimulationSize, a)
                size = a
                expect(pod.getSimulationSize() == a, "getSimulationSize differs")
            elif op == "run":
                k += 1
                fresh(c["seed"] + k)
                pod.run()
                ref = new()
                ref.setSimulationSize(size)
                fresh(c["seed"] + k)
                ref.run()
                done = {q: [ref.getPODCLModel(q)([t])[0] for t in pts] for q in (0.2, 0.9)}
                sim = size
            if op in ("cl", "size", "run"):
                for q in (0.2, 0.9):
                    m = sut("getPODCLModel after %s" % op, pod.getPODCLModel, q)
                    for t, w in zip(pts, done[q]):
                        expect_close("POD at confidence %r at %r after %s" % (q, t, op),
                                     call1("POD CL", m, t), w, 1e-9, 1e-12)
                if sim == 1 and c["fact"] != "none":
                    expect(done[0.2] == done[0.9], "one simulation gives several curves")
            if op == "detect":
                try:
                    v = pod.computeDetectionSize(0.5, 0.9)
                except Exception as e:
                    if "does not" not in str(e):
                        raise Violation("computeDetectionSize raised %s" % e)
    except (Violation, Reject):
        raise
    except Exception as e:
        if c["fact"] == "logistic" and "build" in str(e):
            raise Reject("degenerate resample")
        raise Violation("history raised %s: %s" % (type(e).__name__, e))
    return Info(nontrivial=sum(1 for s in c["steps"] if s[0] in ("size", "run")) >= 1,
                labels=[c["fact"]])


SUBS = [Sub("binomial", binom(), check_binom, 800, 20000),
        Sub("gauss", gauss(), check_gauss, 240, 6000),
        Sub("bootstrap", boot(), check_boot, 72, 1500),
        Sub("history", history(), check_history, 240, 6000)]
