"""C14: the adaptive hit/miss POD labels, selects and predicts consistently."""
import math

import numpy as np
import openturns as ot
import otpod
from hypothesis import strategies as st
from sklearn.ensemble import ExtraTreesClassifier
from sklearn.metrics import confusion_matrix
from sklearn.svm import SVC

from harness import (Info, Reject, Sub, Violation, call1, expect, expect_all_close, expect_close,
                     fresh, sut)
from props.common import SEEDS, choice, col, split

ID = "C14"
RULE = ("Seeded initial designs of dimension 2 or 3 (25 to 60 points) with hits and misses, signal "
        "or 0/1 physical models (recorded), signals possibly equal to the detection value, 0 to 12 "
        "added points among 30 to 150 candidates, random forests of various parameters or SVC, "
        "probability intervals, default or given distribution (with or without copula), "
        "thresholds. Non-trivial: points are added and some computed POD is in (0.02, 0.98).")


@st.composite
def cases(draw):
    return {"seed": draw(SEEDS), "n": draw(st.integers(25, 60)), "dim": draw(choice(2, 3)),
            "more": draw(choice(3, 0, 1, 5, 7, 10, 12)), "cand": draw(st.integers(30, 150)),
            "binary": draw(choice(False, True)), "round": draw(choice(None, 0, 0)),
            "cens": draw(choice("none", "none", "low", "both")),
            "trees": draw(choice(10, 20, 5)), "depth": draw(choice(None, 3)),
            "split": draw(choice(2, 2, 7)),
            "svc": draw(choice([1.0, "poly", 3], [0.3, "poly", 2], [5.0, "rbf", 3],
                               [2.0, "linear", 1], None)),
            "state": draw(st.integers(0, 3)), "clf": draw(choice("rf", "rf", "rf", "svc")),
            "pmin": draw(choice(0.45, 0.2, 0.3, 0.6)), "pw": draw(choice(0.07, 0.2, 0.4)),
            "dist": draw(choice("default", "given", "copula")),
            "sizes": draw(st.lists(st.integers(0, 40), min_size=2, max_size=5, unique=True)),
            "det": draw(choice(0.5, 0.35, 0.65)), "N": draw(choice(200, 500)),
            "conf": draw(choice(0.95, 0.6, 0.3))}


def load(c):
    rs = np.random.RandomState(c["seed"] % 2 ** 32)
    n, d = c["n"], c["dim"]
    x = np.empty((n, d))
    x[:, 0] = rs.uniform(0.5, 3.5, n)
    x[:, 1] = rs.uniform(-1, 1, n)
    if d > 2:
        x[:, 2] = rs.uniform(1, 3, n)

    def f(v):
        y = 30 + 4 * v[0] + 1.6 * v[1] + (0.5 * (v[2] - 2) if len(v) > 2 else 0.0)
        return float(y if c["round"] is None else np.round(y, c["round"]))
    y = np.array([f(v) for v in x])
    s = np.unique(y)
    noise = sat = None
    if not c["binary"]:
        if c["cens"] in ("low", "both"):
            noise = float(0.5 * (s[0] + s[1]))
        if c["cens"] == "both":
            sat = float(0.5 * (s[-1] + s[-2]))
    keep = np.array(split(x[:, 0], y, noise, sat)[0])
    # equal to an observed signal
    det = float(np.sort(y[keep])[int(c["det"] * len(keep))])
    lo, hi = x[keep, 0].min(), x[keep, 0].max()
    sizes = [float(min(hi, max(lo, lo + k / 40.0 * (hi - lo)))) for k in c["sizes"]]
    hit = (y > det)[keep]
    if min(hit.sum(), len(hit) - hit.sum()) < 6 or len(keep) < 15:
        raise Reject("almost no hit or no miss")
    return x, y, noise, sat, keep, det, sizes, f


def distribution(c):
    if c["dist"] == "default":
        return None
    m = [ot.Uniform(0.6, 3.3), ot.Uniform(-0.9, 0.8)]
    if c["dim"] > 2:
        m.append(ot.TruncatedNormal(2.0, 0.4, 1.0, 3.0))
    if c["dist"] == "copula":
        R = ot.CorrelationMatrix(c["dim"])
        R[0, 1] = 0.5
        return ot.JointDistribution(m, ot.NormalCopula(R))
    return ot.JointDistribution(m)


def forest(c):
    return ExtraTreesClassifier(n_estimators=c["trees"], max_depth=c["depth"], min_samples_split=c["split"],
                                random_state=c["state"])


def make(c, L, more):
    x, y, noise, sat, keep, det, sizes, f = L
    calls = []

    def physical(v):
        calls.append(list(v))
        return [float(f(v) > det) if c["binary"] else f(v)]
    model = ot.PythonFunction(c["dim"], 1, physical)
    out = (y > det).astype(float) if c["binary"] else y
    pod = sut("AdaptiveHitMissPOD", otpod.AdaptiveHitMissPOD, x, col(out), model, more,
              None if c["binary"] else det, noise, sat)
    sut("setVerbose", pod.setVerbose, False)
    sut("setDefectSizes", pod.setDefectSizes, sizes)
    sut("setClassifierType", pod.setClassifierType, c["clf"])
    if c["clf"] == "rf":
        sut("setClassifierParameters", pod.setClassifierParameters,
            [[c["trees"]], [c["depth"]], [c["split"]], [c["state"]]])
    elif c["svc"] is not None:
        sut("setClassifierParameters", pod.setClassifierParameters,
            [[c["svc"][0]], [c["svc"][1]], [c["svc"][2]], [True]])
    sut("setCandidateSize", pod.setCandidateSize, c["cand"])
    sut("setSamplingSize", pod.setSamplingSize, c["N"])
    sut("setPMin", pod.setPMin, c["pmin"])
    sut("setPMax", pod.setPMax, min(1.0, c["pmin"] + c["pw"]))
    dist = distribution(c)
    if dist is not None:
        sut("setDistribution", pod.setDistribution, dist)
    fresh(c["seed"])
    sut("run", pod.run)
    X = np.array(sut("getInputDOE", pod.getInputDOE))
    Y = np.ravel(sut("getOutputDOE", pod.getOutputDOE))
    n = len(keep)
    expect(X.shape == (n + more, c["dim"]), "input design of shape %s, %d + %d points expected",
           X.shape, n, more)
    expect(len(Y) == n + more, "%d labels for %d points", len(Y), n + more)
    expect_all_close("initial rows of the design", X[:n], x[keep], 1e-12)
    expect((Y[:n] == (y[keep] > det)).all(), "initial labels %r, the signals %r and detection %r",
           Y[:n], y[keep], det)
    sd = sut("getDistribution", pod.getDistribution)
    if dist is not None:
        expect(sd == dist, "getDistribution %s, given %s", sd, dist)
    else:
        srt = sorted(sizes)
        for j in range(c["dim"]):
            b = [srt[0], srt[-1]] if j == 0 else [x[keep, j].min(), x[keep, j].max()]
            expect_all_close("default uniform bounds", list(sd.getMarginal(j).getParameter()), b,
                             1e-12)
    rg = sd.getRange()
    lo, hi = np.array(rg.getLowerBound()), np.array(rg.getUpperBound())
    for v, l in zip(X[n:], Y[n:]):
        expect((v >= lo - 1e-9).all() and (v <= hi + 1e-9).all(),
               "added point %r outside the support", v.tolist())
        expect(l == float(f(v) > det), "label %r of the added point %r whose signal is %r for "
               "detection %r", l, v.tolist(), f(v), det)
    if more:
        known = np.array(calls)
        for v in X[n:]:
            expect(len(known) and np.abs(known - v).max(axis=1).min() < 1e-12,
                   "the physical model was not called at the added point %r", v.tolist())
    return pod, X, Y, sd, n


def check(c):
    L = load(c)
    x, y, noise, sat, keep, det, sizes, f = L
    pod, X, Y, sd, n = make(c, L, c["more"])
    sizes = np.array(sorted(sizes))
    clf = sut("getClassifier", pod.getClassifier)
    fresh(c["seed"] + 1)
    M = 3000
    T = np.array(sd.getSample(M))
    pred = lambda P: np.array(clf(np.array(P)))[:, 1]
    conf = None
    lo, hi = c["pmin"], min(1.0, c["pmin"] + c["pw"])
    if c["more"]:
        conf = np.array(sut("getConfusionMatrix", pod.getConfusionMatrix), dtype=float)
        expect(conf.shape == (2, 2), "confusion matrix %r", conf)
        expect(np.isfinite(conf).all(), "confusion matrix %r", conf.tolist())
        expect_all_close("sums of the columns of the confusion matrix", conf.sum(axis=0),
                         [1.0, 1.0], 1e-9)
        expect((conf >= 0).all() and (conf <= 1).all(), "confusion matrix %r", conf)
    # candidates
    cand = None
    if sd.hasIndependentCopula():
        cand = np.array(ot.LowDiscrepancyExperiment(ot.SobolSequence(), sd, c["cand"]).generate())
        for v in X[n:]:
            if np.abs(cand - v).max(axis=1).min() > 1e-9:
                cand = None
                break
    if c["clf"] == "rf":
        first = forest(c).fit(X[:n], Y[:n].astype(int))
        full = forest(c).fit(X, Y.astype(int))
        base = full.predict_proba(T[:300])[:, 1]
        if conf is not None:
            c10, c11 = conf[1, 0], conf[1, 1]
            if abs(c11 - c10) < 1e-6:
                raise Reject("uninformative classifier")
            base = np.clip((base - c10) / (c11 - c10), 0, 1)
        expect_all_close("final classifier", pred(T[:300]), base, 1e-7, 1e-9)
        if c["more"] and c["more"] <= 5:
            m = confusion_matrix(Y.astype(int), first.predict_proba(X)[:, 1] >= 0.5).astype(float)
            k = m.sum(axis=0) > 0
            expect_all_close("confusion matrix", conf[:, k], (m[:, k] / m.sum(axis=0)[k]), 1e-9,
                             1e-12)
        # selection
        if cand is not None and c["more"]:
            p = first.predict_proba(cand)[:, 1]
            if ((p >= lo) & (p < hi)).any():
                q = first.predict_proba(X[n:n + min(5, c["more"])])[:, 1]
                expect(((q >= lo) & (q < hi)).all(), "first points added with probabilities %r, "
                       "the interval is [%r, %r)", q, lo, hi)
        if c["more"] > 5:
            pod5, X5, Y5, _, _ = make(c, L, 5)
            if c["more"] <= 10:
                # mean over the classifiers of the run, whose predicted classes all exist
                ms = [confusion_matrix(Y.astype(int), g[:, 1] >= 0.5).astype(float) for g in (
                    first.predict_proba(X), np.array(sut("getClassifier", pod5.getClassifier)(X)))]
                if all((m.sum(axis=0) > 0).all() for m in ms):
                    expect_all_close("confusion matrix", conf,
                                     np.mean([m / m.sum(axis=0) for m in ms], axis=0), 1e-9, 1e-12)
            if cand is not None:
                expect_all_close("first points added", X[:n + 5], X5, 1e-12)
                p5 = sut("getClassifier", pod5.getClassifier)
                p = np.array(p5(cand))[:, 1]
                if ((p >= lo) & (p < hi)).any():
                    q = np.array(p5(X[n + 5:n + 10]))[:, 1]
                    expect(((q >= lo) & (q < hi)).all(), "following points added with "
                           "probabilities %r, the interval is [%r, %r)", q, lo, hi)
    else:
        # the probabilities of a SVC are a monotonic function of its decision function
        C, kernel, degree = c["svc"] or [1.0, "poly", 3]
        m = SVC(C=C, kernel=kernel, degree=degree, gamma="auto", coef0=1).fit(X, Y.astype(int))
        g = m.decision_function(T[:300])
        o = np.argsort(g)
        # equal up to the tolerance of the optimiser
        q = pred(T[:300])[o]
        up, down = np.maximum.accumulate(q), np.minimum.accumulate(q)
        e = min(np.max(up - q), np.max(q - down))
        expect(e < 0.02, "the probabilities of the SVC are not monotonic along the decision "
               "function of the SVC fitted on the final design: gap %r", float(e))
    # curves
    model = sut("getPODModel", pod.getPODModel)
    confs = sorted(set([0.1, 0.5, 0.9, c["conf"]]))
    cl = {k: sut("getPODCLModel", pod.getPODCLModel, k) for k in confs}
    inner = 0
    vals = []
    N = c["N"]
    for a in sizes:
        T[:, 0] = a
        p = pred(T)
        e = p.mean()
        v = call1("POD", model, a)
        tol = 6.5 * math.sqrt(p.var() * (1.0 / N + 1.0 / M)) + 6.0 / N
        expect(0 <= v <= 1, "POD(%r) = %r", a, v)
        expect(abs(v - e) <= tol, "POD(%r) = %r, the classifier gives %r +- %r", a, v, e, tol)
        vals.append(v)
        inner += 0.02 < e < 0.98
        prev = None
        srt = np.sort(p)
        for k in confs:
            w = call1("POD CL", cl[k], a)
            expect(0 <= w <= 1, "POD CL(%r) = %r", a, w)
            expect(prev is None or w <= prev + 1e-12, "POD CL(%r) increases with the level", a)
            prev = w
            r = 7 * math.sqrt(max(k * (1 - k), 0.01) * (1.0 / N + 1.0 / M)) + 3.0 / N
            l = srt[max(0, int((1 - k - r) * M) - 1)] if 1 - k - r > 0 else 0.0
            h = srt[min(M - 1, int((1 - k + r) * M) + 1)] if 1 - k + r < 1 else 1.0
            expect(l - 1e-9 <= w <= h + 1e-9, "POD CL(%r) at confidence %r = %r outside [%r, %r]",
                   a, k, w, l, h)
    for i in range(len(sizes) - 1):
        t = sizes[i] + 0.3 * (sizes[i + 1] - sizes[i])
        expect_close("POD between sizes", call1("POD", model, t),
                     vals[i] + 0.3 * (vals[i + 1] - vals[i]), 1e-7, 1e-9)
    return Info(nontrivial=c["more"] > 0 and inner > 0,
                labels=["more %d" % c["more"], c["clf"], c["dist"], c["cens"],
                        "binary" if c["binary"] else "signal"])


SUBS = [Sub("run", cases(), check, 1600, 30000)]
