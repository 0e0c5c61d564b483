"""Shared generators and reference computations (independent of otpod)."""
import math

import numpy as np
from hypothesis import strategies as st
from scipy import optimize, stats

from harness import Reject

SEEDS = st.integers(min_value=0, max_value=2 ** 31 - 2)


def grid(lo, hi, den=8):
    """Floats on a grid k/den: short, exactly representable, prone to ties."""
    return st.integers(min_value=int(lo * den), max_value=int(hi * den)).map(
        lambda k: k / float(den)
    )


def choice(*xs):
    return st.sampled_from(list(xs))


@st.composite
def linear_data(draw, nmin=3, nmax=60, positive=None, small_noise=False):
    """Univariate data y = b0 + b1 x + noise.  Everything needed to rebuild it."""
    small = draw(st.booleans())
    n = draw(st.integers(nmin, min(nmax, max(12, nmin + 8)) if small else nmax))
    if nmax >= 50 and draw(st.integers(0, 11)) == 11:
        # a large sample
        n = draw(choice(130, 300))
    case = {
        "n": n,
        "seed": draw(SEEDS),
        "b0": draw(grid(-20, 40, 4)),
        "b1": draw(choice(43.0, 10.0, 5.0, 20.0, 2.0, 0.5, 100.0)),
        "sigma": draw(choice(1.0, 0.1, 2.0, 4.0) if not small_noise else choice(0.1, 0.5, 1.0)),
        "xlo": draw(choice(0.1, 0.0, 1.0, 3.0)),
        "xw": draw(choice(0.5, 1.0, 4.0)),
        # rounding creates ties in sizes and signals
        "xround": draw(choice(None, 1, 2)),
        "yround": draw(choice(None, 0, 1, 2)),
        "order": draw(choice("random", "increasing", "decreasing")),
        "noise": draw(choice("normal", "uniform", "skew")),
    }
    if positive:
        case["positive"] = True
    return case


def make_linear(case):
    """(x, y) numpy arrays of length n."""
    rs = np.random.RandomState(case["seed"] % (2 ** 32))
    n = case["n"]
    x = case["xlo"] + case["xw"] * rs.rand(n)
    if case["xround"] is not None:
        x = np.round(x, case["xround"])
    # at least two distinct sizes
    x[0] = case["xlo"]
    x[-1] = case["xlo"] + case["xw"]
    if case["noise"] == "normal":
        e = rs.randn(n)
    elif case["noise"] == "uniform":
        e = rs.uniform(-1.7, 1.7, n)
    else:
        e = rs.exponential(1.0, n) - 1.0
    y = case["b0"] + case["b1"] * x + case["sigma"] * e
    if case["yround"] is not None:
        y = np.round(y, case["yround"])
    if case.get("positive"):
        y = y - y.min() + 0.5 + abs(case["b0"])
    if case["order"] != "random":
        k = np.argsort(x, kind="stable")
        if case["order"] == "decreasing":
            k = k[::-1]
        x, y = x[k], y[k]
    return x.copy(), y.copy()


def col(v):
    return [[float(t)] for t in v]


# --------------------------------------------------------------------------
# reference computations
# --------------------------------------------------------------------------
def ols(x, y):
    """Intercept, slope, residual standard deviation (n-2), residuals.
    Exact rational-like computation in long double."""
    x = np.asarray(x, dtype=np.longdouble)
    y = np.asarray(y, dtype=np.longdouble)
    mx, my = x.mean(), y.mean()
    sxx = ((x - mx) ** 2).sum()
    b1 = ((x - mx) * (y - my)).sum() / sxx
    b0 = my - b1 * mx
    r = y - (b0 + b1 * x)
    n = len(x)
    s = np.sqrt((r ** 2).sum() / (n - 2)) if n > 2 else np.longdouble("nan")
    return float(b0), float(b1), float(s), np.array(r, dtype=float)


def split(x, y, noise, sat):
    """Retained, noisy and saturated data, by the definition."""
    keep, lo, hi = [], [], []
    for i, v in enumerate(y):
        isl = noise is not None and v <= noise
        ish = sat is not None and v >= sat
        if isl:
            lo.append(i)
        if ish:
            hi.append(i)
        if not isl and not ish:
            keep.append(i)
    return keep, lo, hi


def boxcox(y, lam):
    y = np.asarray(y, dtype=float)
    # OpenTURNS switches to the series in the neighbourhood of lambda = 0
    if abs(lam) < 1e-12:
        return np.log(y)
    return np.expm1(lam * np.log(y)) / lam


def boxcox_shift(y):
    """The documented-by-use shift: signals that are not all positive are moved."""
    m = float(np.min(y))
    return -m + 100.0 if m <= 0 else 0.0


def boxcox_loglik(y, lam):
    """Profile log-likelihood of the Box Cox parameter (no trend), up to a constant."""
    y = np.asarray(y, dtype=float)
    t = boxcox(y, lam)
    v = np.var(t)
    if not v > 0:
        return -np.inf
    return -0.5 * len(y) * math.log(v) + (lam - 1.0) * np.log(y).sum()


def censored_loglik(theta, x, y, xlo, xhi, noise, sat):
    """Berens log-likelihood with low and high censored data."""
    b0, b1, s = theta
    if not s > 0:
        return -np.inf
    ll = stats.norm.logpdf(y, b0 + b1 * x, s).sum()
    if len(xlo):
        ll += stats.norm.logcdf((noise - (b0 + b1 * xlo)) / s).sum()
    if len(xhi):
        ll += stats.norm.logsf((sat - (b0 + b1 * xhi)) / s).sum()
    return float(ll)


def best_censored(start, x, y, xlo, xhi, noise, sat):
    """Maximise the censored likelihood from several starts (log sigma)."""
    mx = float(np.mean(x))

    def f(u):
        s = math.exp(min(max(u[2], -40.0), 40.0))
        return -censored_loglik((u[0] - u[1] * mx, u[1], s), x, y, xlo, xhi, noise, sat)

    best = np.inf
    arg = None
    for b0, b1, s in start:
        u = np.array([b0 + b1 * mx, b1, math.log(s)])
        for _ in range(3):
            r = optimize.minimize(f, u, method="Nelder-Mead",
                                  options={"maxiter": 4000, "maxfev": 4000,
                                           "xatol": 1e-8, "fatol": 1e-9})
            u = r.x
            if r.fun < best - 1e-9:
                best, arg = r.fun, r.x
            else:
                break
    u = arg
    return -best, (u[0] - u[1] * mx, u[1], math.exp(u[2]))


# --------------------------------------------------------------------------
# censoring and Box Cox options of univariate cases
# --------------------------------------------------------------------------
@st.composite
def uni_cases(draw, nmin=10, nmax=60, cens=("none", "low", "high", "both"),
              boxcox=("off",), **kw):
    """Univariate data with thresholds and a Box Cox option."""
    c = draw(linear_data(nmin=nmin, nmax=nmax, **kw))
    c["cens"] = draw(choice(*cens))
    c["klo"] = draw(choice(1, 2, 3, 4, 12, 40))
    c["khi"] = draw(choice(1, 2, 3, 4, 12, 40))
    c["equal"] = draw(st.booleans())
    c["boxcox"] = draw(choice(*boxcox))
    if c["boxcox"] != "off":
        # sign of the signals: all positive, or shifted by the library before Box Cox
        c["bcsign"] = draw(choice("positive", "any", "mixed"))
    return c


LAMBDAS = (0.0, 0.3, 1.0, 0.5, -0.2, 2.0, -0.5, 1.5)


def uni_data(c, need=8):
    """(x, y, noise, sat, keep, lo, hi); Reject when too few data are retained."""
    x, y = make_linear(c)
    if c.get("boxcox", "off") != "off" and c.get("bcsign", "positive") == "positive":
        y = y - y.min() + 1.0 + 0.05 * abs(c["b0"])
    elif c.get("boxcox", "off") != "off" and c["bcsign"] == "mixed":
        # as many negative as positive signals
        y = y - round(float(np.median(y)), 2)
    s = np.unique(y)
    noise = sat = None
    if len(s) < 8:
        raise Reject("not enough distinct signals")
    if c["cens"] in ("low", "both"):
        k = min(c["klo"], len(s) // 4)
        noise = float(s[k - 1]) if c["equal"] else float(0.5 * (s[k - 1] + s[k]))
    if c["cens"] in ("high", "both"):
        k = min(c["khi"], len(s) // 4)
        sat = float(s[-k]) if c["equal"] else float(0.5 * (s[-k] + s[-k - 1]))
    keep, lo, hi = split(x, y, noise, sat)
    if len(keep) < need or len(np.unique(x[keep])) < 3:
        raise Reject("not enough retained data")
    if c.get("boxcox", "off") != "off":
        sh = boxcox_shift(y[keep])
        if any(t is not None and t + sh <= 0 for t in (noise, sat)):
            raise Reject("threshold outside the domain of Box Cox")
    _, _, sd, _ = ols(x[keep], y[keep])
    if not sd > 1e-6 * (np.abs(y).max() + 1e-300):
        raise Reject("perfect fit")
    return x, y, noise, sat, np.array(keep), np.array(lo, dtype=int), np.array(hi, dtype=int)


def factory(name):
    import openturns as ot

    return {"none": lambda: None, "normal": ot.NormalFactory, "uniform": ot.UniformFactory,
            "weibull": ot.WeibullMinFactory, "logistic": ot.LogisticFactory,
            "kernel": ot.KernelSmoothing, "student": ot.StudentFactory,
            "laplace": ot.LaplaceFactory, "gumbel": ot.GumbelFactory}[name]()


# --------------------------------------------------------------------------
# quantile regression
# --------------------------------------------------------------------------
def check_loss(r, q):
    return float(np.sum(np.where(r >= 0, q * r, (q - 1) * r)))


def qr_optimum(x, y, q):
    """Smallest check loss of a line, by linear programming."""
    n = len(x)
    c = np.concatenate([np.zeros(4), q * np.ones(n), (1 - q) * np.ones(n)])
    A = np.zeros((n, 4 + 2 * n))
    A[:, 0], A[:, 1], A[:, 2], A[:, 3] = 1, -1, x, -x
    A[:, 4:4 + n] = np.eye(n)
    A[:, 4 + n:] = -np.eye(n)
    m, s = float(np.mean(y)), float(np.ptp(y))
    r = optimize.linprog(c, A_eq=A, b_eq=(np.asarray(y) - m) / s, bounds=(0, None), method="highs")
    if r.x is None:
        raise Reject("the linear program of the oracle has no solution")
    return float(r.fun) * s, (m + s * (r.x[0] - r.x[1]), s * (r.x[2] - r.x[3]))


def qr_through(x, y, q, a, d):
    """Smallest check loss of a line through (a, d): weighted median of the slopes."""
    u = x - a
    v = y - d
    k = np.abs(u) > 1e-12
    s = np.unique(v[k] / u[k])
    return min(check_loss(v - b * u, q) for b in s)


def qr_fits(x, y, q):
    """Quantile lines of the iterative fit (statsmodels) at the tolerances in use."""
    from statsmodels.regression.quantile_regression import QuantReg

    X = np.vstack([np.ones(len(x)), x]).T
    return [QuantReg(np.asarray(y, dtype=float), X).fit(q, **kw).params
            for kw in ({"max_iter": 300, "p_tol": 1e-2}, {})]


def qr_crossings(x, y, q, d):
    """Sizes at which the q quantile line of (x, y) equals d, for these fits."""
    return [(d - b[0]) / b[1] if b[1] != 0 else np.nan for b in qr_fits(x, y, q)]


def qr_crossing_ok(x, y, q, d, a, scale):
    """a is the crossing of an admissible fit."""
    for w in qr_crossings(x, y, q, d):
        if abs(a - w) <= 2e-4 * scale:
            return True
    o, b = qr_optimum(x, y, q)
    return qr_through(x, y, q, a, d) <= o * (1 + 1e-6) + 1e-12
