"""C01: the censoring split is an exact partition of the data."""
import numpy as np
import openturns as ot
import otpod
from hypothesis import strategies as st

from harness import Info, Sub, Violation, expect, sut
from props.common import SEEDS, choice, grid, split

ID = "C01"
RULE = ("Cases are drawn by Hypothesis: 1 to 40 rows (possibly repeated 9 times with other sizes) of 1 to 4 input columns on a "
        "grid (ties), signals of any sign, thresholds None, 0, negative, equal to an "
        "observed signal or free, five container types. Non-trivial: at least one "
        "threshold given and the data fall in at least two of the three classes.")


@st.composite
def cases(draw):
    n = draw(st.integers(1, 40))
    dim = draw(st.integers(1, 4))
    vals = draw(st.lists(grid(-6, 6, 2), min_size=n, max_size=n))
    if draw(st.booleans()):
        vals = [v * 1e3 + 0.125 for v in vals]

    def thr():
        k = draw(st.integers(0, 5))
        if k == 0:
            return None
        if k == 1:
            return draw(choice(0.0, 0, -0.0))
        if k in (2, 3):
            return draw(st.sampled_from(vals))
        return draw(grid(-8, 8, 2))

    noise, sat = thr(), thr()
    if noise is not None and sat is not None and noise > sat:
        noise, sat = sat, noise
    return {
        "x": [draw(st.lists(grid(-3, 3, 2), min_size=dim, max_size=dim)) for _ in range(n)]
        if dim * n <= 40 else [[float(i) + 0.5 * j for j in range(dim)] for i in range(n)],
        "y": vals, "noise": noise, "sat": sat,
        "kind": draw(choice("sample", "array", "list", "mixed", "fortran")),
        "seed": 0,
        # the rows repeated, the sizes being different
        "rep": draw(choice(1, 1, 1, 1, 9)),
    }


def check(c):
    x = np.array(c["x"], dtype=float)
    y = np.tile(np.array(c["y"], dtype=float), c["rep"])
    x = np.vstack([x + k for k in range(c["rep"])])
    n, dim = x.shape
    if c["kind"] == "sample":
        X, Y = ot.Sample(x), ot.Sample(np.vstack(y))
    elif c["kind"] == "array":
        X, Y = x.copy(), np.vstack(y).copy()
    elif c["kind"] == "list":
        X, Y = x.tolist(), np.vstack(y).tolist()
    elif c["kind"] == "fortran":
        X, Y = np.asfortranarray(x), np.vstack(y).copy()
    else:
        X, Y = ot.Sample(x), np.vstack(y).copy()
    out = sut("filterCensoredData", otpod.DataHandling.filterCensoredData, X, Y,
              c["noise"], c["sat"])
    expect(len(out) == 4, "filterCensoredData must return 4 samples")
    keep, lo, hi = split(x, y, c["noise"], c["sat"])
    got = [np.array(o, dtype=float) for o in out]
    want = [x[keep], x[lo], x[hi], np.vstack(y)[keep]]
    for name, g, w in zip(("uncensored inputs", "noisy inputs", "saturated inputs",
                           "uncensored signals"), got, want):
        expect(len(g) == len(w), "%s: %d rows, expected %d", name, len(g), len(w))
        if len(w):
            expect(g.shape == w.shape and (g == w).all(),
                   "%s: got %s, expected %s", name, g.tolist(), w.tolist())
    # the caller's data are untouched
    expect((np.array(X, dtype=float) == x).all(), "the input data were modified")
    expect((np.array(Y, dtype=float) == np.vstack(y)).all(), "the signals were modified")
    parts = sum(1 for p in (keep, lo, hi) if p)
    labels = []
    if any(v == c["noise"] or v == c["sat"] for v in y):
        labels.append("signal equal to a threshold")
    if (c["noise"] is None) != (c["sat"] is None):
        labels.append("one sided")
    if c["noise"] == 0 or c["sat"] == 0:
        labels.append("zero threshold")
    return Info(nontrivial=parts >= 2 and (c["noise"] is not None or c["sat"] is not None),
                labels=labels)


# the POD classes and the analysis must use the same partition -------------
@st.composite
def users(draw):
    n = draw(st.integers(20, 40))
    seed = draw(SEEDS)
    q = draw(st.integers(0, 4))
    return {"n": n, "seed": seed, "lo": draw(choice(None, 1, 2, 3)),
            "hi": draw(choice(None, 1, 2, 3)), "shift": draw(choice(0.0, -3.0, 5.0)),
            "round": draw(choice(0, 1)), "equal": draw(st.booleans()),
            "cls": draw(choice("linear", "analysis", "kriging", "chaos", "qr", "signal",
                               "hitmiss"))}


def check_users(c):
    """The retained data each class works on are the uncensored rows."""
    rs = np.random.RandomState(c["seed"] % 2 ** 32)
    n = c["n"]
    x = np.round(rs.uniform(0.5, 3, (n, 2)), 3)
    y = np.round(4 * x[:, 0] + x[:, 1] + 0.8 * rs.randn(n) + c["shift"], c["round"])
    s = np.unique(y)
    noise = sat = None
    if c["lo"] is not None:
        noise = float(s[c["lo"] - 1]) if c["equal"] else float(s[c["lo"] - 1]) + 0.03
    if c["hi"] is not None:
        sat = float(s[-c["hi"]]) if c["equal"] else float(s[-c["hi"]]) - 0.03
    keep, lo, hi = split(x, y, noise, sat)
    det = float(np.median(y))
    if len(keep) < 12 or len(np.unique(x[keep, 0])) < 4:
        return Info(nontrivial=False)
    X1, Y = [[v] for v in x[:, 0]], [[v] for v in y]
    k = c["cls"]
    lab = [k]
    if k == "analysis":
        an = sut("UnivariateLinearModelAnalysis", otpod.UnivariateLinearModelAnalysis,
                 X1, Y, noise, sat)
        res = np.array(an.getResiduals()[0] if isinstance(an.getResiduals(), (list, tuple))
                       else an.getResiduals())
        r = res[:, 0] if res.ndim == 2 else res
        expect(len(r) == len(keep), "analysis keeps %d observations, expected %d",
               len(r), len(keep))
        return Info(labels=lab, nontrivial=bool(lo or hi))
    if k == "hitmiss":
        yb = (y > det).astype(float)
        # hit/miss signals are censored on the raw values
        pod = sut("AdaptiveHitMissPOD", otpod.AdaptiveHitMissPOD, x, Y, None, 0, det,
                  noise, sat)
        got = np.array(sut("getInputDOE", pod.getInputDOE))
        expect(got.shape == x[keep].shape and (got == x[keep]).all(),
               "hit/miss design differs from the uncensored rows")
        return Info(labels=lab, nontrivial=bool(lo or hi))
    if k == "signal":
        pod = sut("AdaptiveSignalPOD", otpod.AdaptiveSignalPOD, x, Y,
                  ot.SymbolicFunction(["a", "b"], ["a"]), 0, det, noise, sat)
        got = np.array(sut("getInputDOE", pod.getInputDOE))
        gy = np.array(sut("getOutputDOE", pod.getOutputDOE))
        expect(got.shape == x[keep].shape and (got == x[keep]).all(),
               "adaptive design differs from the uncensored rows")
        expect(gy.shape == (len(keep), 1) and (gy[:, 0] == y[keep]).all(),
               "adaptive signals differ from the uncensored rows")
        return Info(labels=lab, nontrivial=bool(lo or hi))
    if k in ("kriging", "chaos"):
        cl = otpod.KrigingPOD if k == "kriging" else otpod.PolynomialChaosPOD
        pod = sut(cl.__name__, cl, x, Y, det, noise, sat)
        ds = np.array(sut("getDefectSizes", pod.getDefectSizes))
        expect(abs(ds[0] - x[keep, 0].min()) < 1e-12 and abs(ds[-1] - x[keep, 0].max()) < 1e-12,
               "default sizes span [%r, %r], the uncensored sizes span [%r, %r]",
               float(ds[0]), float(ds[-1]), float(x[keep, 0].min()), float(x[keep, 0].max()))
        pod.setVerbose(False)
        pod.setSimulationSize(3)
        pod.setSamplingSize(5)
        if k == "kriging":
            pod.setInitialStartSize(0)
        else:
            pod.setDegree(1)
        sut("run", pod.run)
        r = (pod.getKrigingResult() if k == "kriging" else pod.getPolynomialChaosResult())
        ys = np.array(r.getOutputSample())[:, 0]
        expect(len(ys) == len(keep) and (ys == y[keep]).all(),
               "the metamodel is not trained on the uncensored signals")
        return Info(labels=lab, nontrivial=bool(lo or hi))
    if k == "linear":
        # no residual hypothesis: the POD curve counts the retained observations
        pod = sut("UnivariateLinearModelPOD", otpod.UnivariateLinearModelPOD, X1, Y, det,
                  noise, sat)
        sut("run", pod.run)
        m = len(keep)
        for t in np.linspace(x[:, 0].min(), x[:, 0].max(), 7):
            v = float(pod.getPODModel()([float(t)])[0])
            expect(abs(v * m - round(v * m)) < 1e-6,
                   "POD %r is not a multiple of 1/%d (retained observations)", v, m)
        return Info(labels=lab, nontrivial=bool(lo or hi))
    if k == "qr":
        pod = sut("QuantileRegressionPOD", otpod.QuantileRegressionPOD, X1, Y, det, noise, sat)
        pod.setVerbose(False)
        pod.setSimulationSize(2)
        pod.setQuantile([0.5])
        try:
            pod.run()
        except Exception:
            return Info(nontrivial=False, labels=["qr without crossing"])
        fig, ax = sut("drawLinearModel", pod.drawLinearModel, 0.5)
        pts = np.array(ax.get_lines()[0].get_xydata())
        expect(pts.shape == (len(keep), 2) and (pts[:, 0] == x[keep, 0]).all()
               and (pts[:, 1] == y[keep]).all(),
               "quantile regression is not performed on the uncensored rows")
        return Info(labels=lab, nontrivial=bool(lo or hi))


SUBS = [
    Sub("split", cases(), check, 6000, 120000),
    Sub("users", users(), check_users, 400, 6000),
]
