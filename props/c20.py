"""C20: figures show the computed curves and are saved where asked."""
import contextlib
import math
import os
import shutil
import tempfile

import matplotlib.pyplot as plt
import numpy as np
import openturns as ot
import otpod
from hypothesis import strategies as st

from harness import (Info, Reject, Sub, Violation, expect, expect_all_close, expect_close, fresh,
                     must_raise, sut)
from props import builders, c16
from props.common import (LAMBDAS, SEEDS, boxcox, boxcox_loglik, boxcox_shift, check_loss, choice,
                          col, factory, ols, qr_optimum, uni_cases, uni_data)

ID = "C20"
RULE = ("Every draw method of every class, on seeded data, with all the options (levels, interval, "
        "number of points, model, labels, file name or none, file type). The lines, collections, "
        "images and legends of the returned axes are read back. Non-trivial: the figure holds at "
        "least one computed curve or point set, compared value by value.")


class Folder(object):
    """Current directory replaced by a scratch one; the files found there at the end."""

    def __enter__(self):
        self.here = os.getcwd()
        self.tmp = tempfile.mkdtemp(prefix="otpodverif")
        os.chdir(self.tmp)
        return self

    def files(self):
        return sorted(os.path.relpath(os.path.join(a, f), self.tmp)
                      for a, _, fs in os.walk(self.tmp) for f in fs)

    def __exit__(self, *a):
        os.chdir(self.here)
        shutil.rmtree(self.tmp)


HEAD = {"png": b"\x89PNG", "pdf": b"%PDF", "svg": b"<?xml"}


def draw(what, method, name, *args, **kw):
    """Calls the method; the file is written if and only if a name is given."""
    plt.close("all")
    with Folder() as d:
        given = None
        if name is not None:
            given = name["file"]
            if name["sub"]:
                os.mkdir(os.path.join(d.tmp, "a b"))
                given = os.path.join("a b", given)
            want = [given]
            if name["absolute"]:
                given = os.path.join(d.tmp, given)
            kw = dict(kw, name=given)
        else:
            want = []
        out = sut(what, method, *args, **kw)
        got = d.files()
        expect(got == want, "%s wrote %r, the file asked for is %r", what, got, want)
        if want:
            with open(os.path.join(d.tmp, want[0]), "rb") as f:
                b = f.read()
            expect(len(b) > 500 and b.startswith(HEAD[want[0].rsplit(".", 1)[1]]),
                   "%s: %s is not a figure of its type", what, want[0])
    expect(isinstance(out, tuple) and len(out) == 2, "%s returns %r", what, type(out))
    fig, ax = out
    expect(ax in fig.axes, "%s: the axes are not those of the figure", what)
    return fig, ax


def lines(ax):
    return [np.array(l.get_xydata(), dtype=float) for l in ax.get_lines()]


def points(ax):
    """Point sets, whatever the artist."""
    out = lines(ax)
    for c in ax.collections:
        o = np.array(np.ma.filled(c.get_offsets(), np.nan), dtype=float)
        if o.size and type(c).__name__ == "PathCollection":
            out.append(o)
    return out


def segments(ax):
    out = []
    for c in ax.collections:
        if hasattr(c, "get_segments"):
            out += [np.array(s, dtype=float) for s in c.get_segments()]
    return out


def legend(ax):
    g = ax.get_legend()
    return [t.get_text() for t in g.get_texts()] if g is not None else []


def has(sets, want, what, rtol=1e-9, atol=1e-9, order=True):
    """One of the point sets is the wanted one; it is removed from the list."""
    want = np.array(want, dtype=float)
    s = np.abs(want).max() if want.size else 1.0
    best = None
    for k, g in enumerate(sets):
        if g.shape != want.shape:
            continue
        if order:
            a, b = g, want
        else:
            a, b = g[np.lexsort(g.T[::-1])], want[np.lexsort(want.T[::-1])]
        if np.allclose(a, b, rtol, atol * s, equal_nan=True):
            del sets[k]
            return
        best = g
    raise Violation("%s is not drawn: expected %s..., drawn %s" % (
        what, want[:3].tolist(), best[:3].tolist() if best is not None else
        [g.shape for g in sets]))


@st.composite
def names(draw):
    if not draw(st.booleans()):
        return None
    return {"file": draw(choice("fig.png", "my figure.png", "f.pdf", "f.svg", "a.b.png")),
            "sub": draw(st.booleans()), "absolute": draw(st.booleans())}


# --------------------------------------------------------------------------
# drawPOD
# --------------------------------------------------------------------------
KINDS = ("linear-none", "linear-normal", "linear-logistic", "qr", "chaos1", "chaos", "kriging",
         "signal", "hitmiss")


@st.composite
def pod_cases(draw):
    return {"kind": draw(choice(*KINDS)), "seed": draw(SEEDS), "n": draw(st.integers(24, 36)),
            "cens": draw(st.booleans()), "boxcox": draw(choice(False, False, 0.5, True)),
            "draws": [{"p": draw(choice(None, 50, 30, 70, 29, 57)),
                       "c": draw(choice(None, 95, 60, 29)),
                       # interval on a grid of twentieths of the range
                       "lo": draw(choice(None, None, 0, 2, 5)),
                       "hi": draw(choice(None, None, 20, 15, 11)),
                       # a bound equal to 0, inside the range
                       "zero": draw(choice(None, None, None, "lo", "hi")),
                       "nb": draw(choice(None, 20, 37, 150)),
                       "bad": draw(choice(False, False, False, True)),
                       "name": draw(names())} for _ in range(draw(st.integers(1, 3)))],
            "origin": draw(choice("data", "data", "inside"))}


def run_pod(c):
    kind = c["kind"]
    uni = kind.startswith("linear") or kind in ("qr", "chaos1")
    x, y = builders.data(c["seed"], c["n"], 1 if uni else 2, offset=20)
    o = 0.0
    if c["origin"] == "inside" and kind != "qr":
        # the quantile regression POD starts at the size 0; sizes on both sides of 0
        o = float(np.quantile(x[:, 0], 0.3))
        x[:, 0] -= o
    noise = sat = None
    if c["cens"] and kind != "hitmiss":
        s = np.sort(y)
        noise, sat = float(0.5 * (s[1] + s[2])), float(0.5 * (s[-2] + s[-3]))
    keep = np.ones(len(y), dtype=bool)
    if noise is not None:
        keep = (y > noise) & (y < sat)
    det = float(np.median(y))
    bc = c["boxcox"] if kind != "hitmiss" else False
    phys = builders.physical(x.shape[1])
    model = ot.PythonFunction(x.shape[1], 1, lambda v: [20 + 4 * o + phys(v)[0]])
    pod = builders.build(kind, x, y, det, noise, sat, bc, model=model, more=1)
    x0 = x[keep, 0]
    sizes = list(np.linspace(x0.min(), x0.max(), 6))
    builders.configure(kind, pod, sizes=sizes)
    if kind == "signal":
        pod.setCandidateSize(5)
    try:
        builders.run(pod, c["seed"])
    except Exception as e:
        raise Reject("the run is rejected: %s" % e)
    # the interval drawn by default
    if kind.startswith("linear"):
        lo, hi = x[:, 0].min(), x[:, 0].max()
    elif kind == "qr":
        lo, hi = x0.min(), x0.max()
    else:
        lo, hi = x0.min(), x0.max()
    return x, y, pod, float(lo), float(hi), keep


def check_pod(c):
    x, y, pod, lo, hi, keep = run_pod(c)
    kind = c["kind"]
    done = 0
    labels = [kind]
    bc = c["boxcox"] if kind != "hitmiss" else False
    with contextlib.suppress(Reject):
        check_likelihood(pod, bc, y[keep] + (boxcox_shift(y[keep]) if bc else 0.0),
                         c["draws"][0]["name"])
    for d in c["draws"]:
        p = None if d["p"] is None else d["p"] / 100.0
        q = None if d["c"] is None else d["c"] / 100.0
        kw = {}
        a, b = lo, hi
        if d["lo"] is not None:
            a = kw["defectMin"] = lo + d["lo"] / 20.0 * (hi - lo)
        if d["hi"] is not None:
            b = kw["defectMax"] = min(hi, lo + d["hi"] / 20.0 * (hi - lo))
        if d["zero"] == "lo" and (lo < 0 < b or (kind.startswith("linear") and b > 0)):
            a = kw["defectMin"] = 0.0
        elif d["zero"] == "hi" and a < 0 < hi:
            b = kw["defectMax"] = 0.0
        if d["nb"] is not None:
            kw["nbPt"] = d["nb"]
        if d["bad"]:
            if kind.startswith("linear"):
                continue
            w = hi - lo
            for bad in ({"defectMin": lo - 0.01 * w}, {"defectMax": hi + 0.01 * w},
                        {"defectMin": hi + 0.01 * w}, {"defectMax": lo - 0.01 * w}):
                with Folder() as f:
                    must_raise("drawPOD(%s) on sizes from %r to %r" % (bad, lo, hi), pod.drawPOD,
                               p, q, name="f.png", **bad)
                    expect(f.files() == [], "a rejected drawPOD wrote %r", f.files())
            done += 1
            continue
        try:
            want = None if p is None else [float(t) for t in pod.computeDetectionSize(p, q)]
        except Exception:
            # the level is not attained
            plt.close("all")
            must_raise("drawPOD(%r, %r)" % (p, q), pod.drawPOD, p, q, **kw)
            labels.append("not attained")
            continue
        what = "drawPOD(%r, %r, %s)" % (p, q, kw)
        fig, ax = draw(what, pod.drawPOD, d["name"], p, q, **kw)
        L = lines(ax)
        expect(len(L) == (1 if q is None else 2), "%s draws %d curves", what, len(L))
        n = d["nb"] or 100
        f = pod.getPODModel()
        t = np.linspace(a, b, n)
        models = [("the POD", f)]
        if q is not None:
            models.append(("the POD at %r" % q, pod.getPODCLModel(q)))
        for w, f in models:
            # at the abscissas drawn, which cover the interval
            ok = False
            for k, g in enumerate(L):
                if len(g) == n and abs(g[0, 0] - a) < 1e-9 and abs(g[-1, 0] - b) < 1e-9:
                    v = np.array([float(f([float(min(max(s, a), b))])[0]) for s in g[:, 0]])
                    if np.allclose(v, g[:, 1], 1e-7, 1e-9):
                        expect(np.all(np.diff(g[:, 0]) > 0), "%s: abscissas not increasing", what)
                        del L[k]
                        ok = True
                        break
            expect(ok, "%s: %s is not drawn on [%r, %r] with %d points", what, w, a, b, n)
        S = segments(ax)
        T = legend(ax)
        if p is None:
            expect(S == [], "%s marks %r", what, S)
        else:
            has(S, [[a, p], [b, p]], "%s: the level" % what)
            for z in want[:1 if q is None else 2]:
                has(S, [[z, 0], [z, p]], "%s: the detection size %r" % (what, z), 1e-7, 1e-7)
            expect(S == [], "%s marks also %r", what, S)
            lab = ["a%d" % d["p"]] + (["a%d/%d" % (d["p"], d["c"])] if q is not None else [])
            for z, l in zip(want, lab):
                expect(any(s.startswith(l + " ") and s.endswith(" " + str(round(z, 3)))
                           for s in T), "%s: the legend %r does not give %s = %r", what, T, l,
                       round(z, 3))
        if q is not None:
            expect(any(str(q) in s and "POD" in s for s in T), "%s: legend %r", what, T)
        done += 1
    return Info(nontrivial=done > 0, labels=labels)


# --------------------------------------------------------------------------
# analysis
# --------------------------------------------------------------------------
@st.composite
def an_cases(draw):
    c = draw(uni_cases(nmin=12, nmax=40, boxcox=("off", "off", "fixed", "optimal")))
    c["lam"] = draw(choice(*LAMBDAS))
    c["fact"] = draw(choice("normal", "logistic", "kernel"))
    c["name"] = draw(names())
    return c


def check_qq(sets, s, dist, model, eps):
    """Every sorted residual (but at most the extreme ones, whose level may be 0 or 1) is drawn
    against the quantile of the law whose level is the rank of the residual over n, whatever the
    convention: (i - 1) / n ... i / n."""
    n = len(s)
    u = np.unique(s)
    # residuals equal up to rounding may be merged
    m = 1 + int(np.sum(np.diff(u) > 10 * eps))
    why = "no points"
    for g in sets:
        if not m - 2 <= len(g) <= n:
            why = "%d points for %d residuals" % (len(g), n)
            continue
        why = None
        for a, q in g[np.argsort(g[:, 0], kind="stable")]:
            lo, hi = np.sum(s < a - eps), np.sum(s <= a + eps)
            if hi == lo:
                why = "%r is not a residual" % a
                break
            f = [dist.computeCDF(float(q + d * max(eps, 1e-7 * abs(q)))) for d in (-1, 1)]
            if not (f[0] <= hi / n + 1e-6 and f[1] >= lo / n - 1e-6):
                why = "(%r, %r): level %r ranks %d..%d of %d" % (a, q, f, lo, hi, n)
                break
        if why is None:
            return
    raise Violation("the QQ plot of the %s residuals is not drawn: %s" % (model, why))


def check_analysis(c):
    x, y, noise, sat, keep, lo, hi = uni_data(c)
    bc = {"off": False, "fixed": float(c["lam"]), "optimal": True}[c["boxcox"]]
    cens = noise is not None or sat is not None
    try:
        an = otpod.UnivariateLinearModelAnalysis(col(x), col(y), noise, sat, factory(c["fact"]), bc)
    except Exception as e:
        raise Reject("the analysis is rejected: %s" % e)
    z = y[keep]
    shift = 0.0
    if bc is not False:
        shift = boxcox_shift(z)
        lam = float(an.getBoxCoxParameter())
        if bc is True and abs(lam) < 1e-3:
            raise Reject("the parameter is close to 0")
        z = boxcox(z + shift, lam)
        if np.ptp(z) < 1e-4:
            raise Reject("transformed signals equal up to rounding")
    u = x[keep]
    n = len(u)
    scale = np.abs(z).max()
    for k, model in enumerate(("uncensored", "censored")[:1 + cens]):
        kw = {"model": model} if k or c["seed"] % 2 else {}
        b0, b1 = float(an.getIntercept()[k]), float(an.getSlope()[k])
        dist = an.getResidualsDistribution()[k]
        r = z - b0 - b1 * u
        tol = 1e-6
        _, ax = draw("drawLinearModel", an.drawLinearModel, c["name"], **kw)
        L = lines(ax)
        has(L, np.column_stack([u, z]), "the data of drawLinearModel", tol, tol)
        has(L, np.column_stack([u, b0 + b1 * u]), "the %s line" % model, tol, tol)
        expect(L == [], "drawLinearModel draws other lines")
        _, ax = draw("drawResiduals", an.drawResiduals, c["name"], **kw)
        L = lines(ax)
        rt = 1e-6 * scale / max(np.abs(r).max(), 1e-300)
        if rt > 1e-2:
            raise Reject("residuals equal to 0 up to rounding")
        has(L, np.column_stack([u, r]), "the %s residuals" % model, tol, rt)
        has(segments(ax), [[u.min(), 0], [u.max(), 0]], "the null line")
        _, ax = draw("drawResidualsQQplot", an.drawResidualsQQplot, c["name"], **kw)
        s = np.sort(r)
        sc = max(np.abs(s).max(), 1e-300)
        check_qq(points(ax), s, dist, model, 1e-6 * max(scale, sc))
        _, ax = draw("drawResidualsDistribution", an.drawResidualsDistribution, c["name"], **kw)
        L = lines(ax)
        # the density of the law, on an interval containing its bulk
        ok = hist = False
        for g in L:
            v = np.array([dist.computePDF(float(a)) for a in g[:, 0]])
            if np.allclose(v, g[:, 1], 1e-6, 1e-9 * v.max()) and v.max() > 0 and len(g) > 10:
                ok = True
            else:
                hist = hist or is_histogram([(a[0], b[0], a[1]) for a, b in zip(g, g[1:])
                                             if b[0] > a[0] and a[1] == b[1]], s)
        if not hist:
            P = [p.get_bbox() for p in ax.patches]
            hist = is_histogram([(b.x0, b.x1, b.height) for b in P], s)
        expect(ok, "drawResidualsDistribution: the density of %s is not drawn", dist)
        expect(hist, "drawResidualsDistribution: the histogram is not drawn")
    for m in ("drawLinearModel", "drawResiduals", "drawResidualsQQplot",
              "drawResidualsDistribution"):
        with Folder() as f:
            if not cens:
                must_raise("%s(censored) without censoring" % m, getattr(an, m), "censored",
                           "f.png")
            must_raise("%s(foo)" % m, getattr(an, m), "foo", "f.png")
            expect(f.files() == [], "a rejected %s wrote %r", m, f.files())
    check_likelihood(an, bc, y[keep] + shift, c["name"])
    return Info(nontrivial=True, labels=["cens %s" % c["cens"], "boxcox %s" % c["boxcox"], c["fact"]])


def check_likelihood(obj, bc, w, name):
    """drawBoxCoxLikelihood of an object on the positive retained signals w."""
    if bc is False:
        must_raise("drawBoxCoxLikelihood without Box Cox", obj.drawBoxCoxLikelihood)
    if bc is not True:  # documented as available in this case only
        return
    lam = float(obj.getBoxCoxParameter())
    if abs(lam) > 15 or abs(lam) < 1e-3:
        raise Reject("log-likelihood of OpenTURNS infinite on the interval of its graph")
    _, ax = draw("drawBoxCoxLikelihood", obj.drawBoxCoxLikelihood, name)
    L = [g for g in lines(ax) if len(g) > 10]
    expect(len(L) == 1, "drawBoxCoxLikelihood draws %d curves", len(L))
    g = L[0]
    expect(np.all(np.diff(g[:, 0]) > 0), "abscissas not increasing")
    expect(g[0, 0] <= lam <= g[-1, 0], "the optimum %r is out of the graph", lam)
    v = np.array([boxcox_loglik(w, a) for a in g[:, 0]])
    k = np.isfinite(v) & np.isfinite(g[:, 1])
    # up to a constant
    d = (v - g[:, 1])[k]
    # the variance of OpenTURNS, and the cancellations for large signals
    if k.sum() > 5:
        e = max(1e-5, 1e-9 * np.abs(v[k]).max()) * max(1.0, np.ptp(v[k])) + 1e-3
        expect(np.ptp(d) < e, "the curve of drawBoxCoxLikelihood is not the log-likelihood: "
               "the difference varies by %r", float(np.ptp(d)))
        # the optimum is marked
        P = points(ax)
        top = boxcox_loglik(w, lam) - np.median(d)
        marks = [q for q in P if len(q) <= 2]
        expect(any(np.allclose(q[0], [lam, top], 1e-5, e) for q in marks),
               "the optimum (%r, %r) is not marked: %r", lam, float(top), [q.tolist() for q in marks])


def is_histogram(steps, s):
    """The steps (a, b, height) are the bars of a normalised histogram of the sample. The first
    and last steps may be cut by the drawing: the bars share their width."""
    n = len(s)
    steps = [t for t in steps if t[1] > t[0]]
    if not steps:
        return False
    w = max(b - a for a, b, _ in steps)
    total = 0.0
    for i, (a, b, h) in enumerate(steps):
        if i == 0:
            a = b - w
        if h <= 0:
            continue
        k = h * w * n
        e = 1e-6 * w
        lo = np.sum((s > a + e) & (s < a + w - e))
        hi = np.sum((s >= a - e) & (s <= a + w + e))
        if not lo - 1e-6 * n <= k <= hi + 1e-6 * n:
            return False
        total += k
    # extreme values may lie outside the drawn range
    return n / 2 < total < n * (1 + 1e-6)


# --------------------------------------------------------------------------
# metamodels
# --------------------------------------------------------------------------
@st.composite
def meta_cases(draw):
    return {"kind": draw(choice("chaos1", "chaos", "kriging", "signal", "qr")), "seed": draw(SEEDS),
            "n": draw(st.integers(24, 36)), "cens": draw(st.booleans()),
            "boxcox": draw(choice(False, 0.5, False)), "offset": draw(choice(20, -6, -40)),
            "p": draw(st.integers(5, 95)), "name": draw(names())}


def check_meta(c):
    kind = c["kind"]
    uni = kind in ("chaos1", "qr")
    x, y = builders.data(c["seed"], c["n"], 1 if uni else 2, offset=c["offset"])
    noise = sat = None
    if c["cens"]:
        s = np.sort(y)
        noise, sat = float(0.5 * (s[1] + s[2])), float(0.5 * (s[-2] + s[-3]))
    keep = np.ones(len(y), dtype=bool) if noise is None else (y > noise) & (y < sat)
    u, z = x[keep], y[keep]
    det = float(np.median(z))
    bc = c["boxcox"]
    off = c["offset"]
    phys = builders.physical(x.shape[1])
    model = ot.PythonFunction(x.shape[1], 1, lambda v: [off + phys(v)[0]])
    pod = builders.build(kind, x, y, det, noise, sat, bc, model=model, more=1)
    builders.configure(kind, pod, sizes=list(np.linspace(u[:, 0].min(), u[:, 0].max(), 3)), sim=3,
                       sampling=10)
    if kind == "signal":
        pod.setCandidateSize(4)
    try:
        builders.run(pod, c["seed"])
    except Exception as e:
        raise Reject("the run is rejected: %s" % e)
    t = z
    if bc is not False:
        sh = boxcox_shift(z)
        t = boxcox(z + sh, bc)
    labels = [kind, "boxcox %s" % bc]
    if kind == "qr":
        p = c["p"] / 100.0
        _, ax = draw("drawLinearModel(%r)" % p, pod.drawLinearModel, c["name"], p)
        L = lines(ax)
        has(L, np.column_stack([u[:, 0], t]), "the data of drawLinearModel", 1e-6, 1e-6)
        g = L[0]
        expect(len(L) == 1 and np.allclose(g[:, 0], u[:, 0]), "drawLinearModel draws %d lines", len(L))
        o, _ = qr_optimum(u[:, 0], t, 1 - p)
        b = np.polyfit(g[:, 0], g[:, 1], 1)
        expect_all_close("line of drawLinearModel", g[:, 1], np.polyval(b, g[:, 0]), 1e-6,
                         1e-7 * np.abs(t).max())
        l = check_loss(t - g[:, 1], 1 - p)
        expect(l <= o * (1 + 1e-2) + 1e-9 * np.abs(t).max(), "drawLinearModel(%r): the loss of the "
               "line is %r at the quantile %r, the optimum %r", p, l, 1 - p, o)
        return Info(nontrivial=True, labels=labels)
    if kind == "signal":
        # the enriched design
        u = np.array(pod.getInputDOE())
        t = np.concatenate([t, [0.0]])
        add = off + phys(u[-1])[0]
        if bc is not False:
            if add + sh <= 0:
                raise Reject("domain of Box Cox")
            add = float(boxcox([add + sh], bc)[0])
        t[-1] = add
    if kind in ("chaos", "chaos1"):
        pred = np.array(pod.getPolynomialChaosResult().getMetaModel()(ot.Sample(u)))[:, 0]
        fun = None
    else:
        # leave one out predictions are checked by their Q2
        fun = pod.getQ2()
    _, ax = draw("drawValidationGraph", pod.drawValidationGraph, c["name"])
    L = points(ax)
    s = max(np.abs(t).max(), 1e-300)
    if fun is None:
        has(L, np.column_stack([t, pred]), "drawValidationGraph", 1e-6, 1e-7, order=False)
    else:
        k = [i for i, g in enumerate(L) if len(g) == len(t)]
        expect(len(k) == 1, "drawValidationGraph draws %r", [g.shape for g in L])
        g = L.pop(k[0])
        expect_all_close("signals of drawValidationGraph", np.sort(g[:, 0]), np.sort(t), 1e-6,
                         1e-7 * s)
        # either convention of the variance of the signals
        q2 = [1 - np.mean((g[:, 0] - g[:, 1]) ** 2) / np.var(t, ddof=k) for k in (0, 1)]
        expect(min(abs(q - fun) for q in q2) <= 1e-5 * (1 + abs(fun)),
               "Q2 of the predictions drawn: %r, getQ2: %r", q2, fun)
    d = [g for g in L if len(g) == 2]
    expect(len(d) == 1 and np.allclose(d[0][:, 0], d[0][:, 1]), "no first bisector in the graph")
    # every point is visible
    for lim, v in ((ax.get_xlim(), t), (ax.get_ylim(), t)):
        expect(lim[0] <= v.min() and v.max() <= lim[1], "drawValidationGraph shows %r, the signals "
               "are from %r to %r", lim, v.min(), v.max())
    if kind == "chaos1":
        _, ax = draw("drawPolynomialChaosModel", pod.drawPolynomialChaosModel, c["name"])
        L = lines(ax)
        has(L, np.column_stack([u[:, 0], t]), "the data of drawPolynomialChaosModel", 1e-6, 1e-7,
            order=False)
        k = np.argsort(u[:, 0])
        has(L, np.column_stack([u[k, 0], pred[k]]), "the chaos model", 1e-6, 1e-7)
    elif kind == "chaos":
        must_raise("drawPolynomialChaosModel with two inputs", pod.drawPolynomialChaosModel)
    return Info(nontrivial=True, labels=labels)


# --------------------------------------------------------------------------
# sensitivity
# --------------------------------------------------------------------------
@st.composite
def sens_cases(draw):
    return {"seed": draw(SEEDS), "n": draw(st.integers(28, 36)), "method": draw(choice(
        "Saltelli", "Jansen", "MauntzKucherenko", "Martinez")), "dim": draw(choice(3, 4)),
        "label": draw(choice(None, "ok", "short")), "order": draw(st.booleans()),
        "name": draw(names())}


def check_sobol(c):
    d = c["dim"]
    x, y = builders.data(c["seed"], c["n"], d, offset=20)
    pod = builders.build("kriging", x, y, float(np.median(y)))
    lo, hi = x[:, 0].min(), x[:, 0].max()
    builders.configure("kriging", pod, sizes=[lo, hi], sim=3, sampling=10)
    builders.run(pod, c["seed"])
    sob = otpod.SobolIndices(pod, 40)
    sob.setSensitivityMethod(c["method"])
    sob.setDefectSizes(list(lo + (hi - lo) * np.array([0.35, 0.5, 0.65])))
    try:
        builders.run(sob, c["seed"])
    except Exception as e:
        raise Reject("the run is rejected: %s" % e)
    d -= 1
    r = sob.getSensitivityResult()
    try:
        r.getFirstOrderIndices(), r.getTotalOrderIndices()
        r.getAggregatedFirstOrderIndices(), r.getAggregatedTotalOrderIndices()
    except Exception as e:
        raise Reject("OpenTURNS has no index for a constant output: %s" % e)
    sizes = np.ravel(sob.getDefectSizes())
    lab = None
    if c["label"] == "ok":
        lab = ["alpha", "beta", "gamma"][:d]
    elif c["label"] == "short":
        for m in (sob.drawFirstOrderIndices, sob.drawTotalOrderIndices, sob.drawAggregatedIndices):
            with Folder() as f:
                must_raise("%d labels for %d parameters" % (d - 1, d), m, ["a"] * (d - 1), "f.png")
                must_raise("%d labels for %d parameters" % (d + 1, d), m, ["a"] * (d + 1), "f.png")
                expect(f.files() == [], "a rejected figure is saved")
    kw = {} if lab is None else {"label": lab}
    names_ = lab or ["X%d" % j for j in range(d)]
    for what, m, get in (("first", sob.drawFirstOrderIndices, r.getFirstOrderIndices),
                         ("total", sob.drawTotalOrderIndices, r.getTotalOrderIndices)):
        _, ax = draw("draw %s order indices" % what, m, c["name"], **kw)
        I = np.array([list(get(i)) for i in range(len(sizes))])
        L = [(np.array(l.get_xydata(), dtype=float), l.get_label()) for l in ax.get_lines()]
        expect(len(L) == d, "%d series for %d parameters", len(L), d)
        for j in range(d):
            has([g for g, n in L if n == names_[j]], np.column_stack([sizes, I[:, j]]),
                "the %s order index of %s" % (what, names_[j]))
        expect(legend(ax) == names_, "legend %r", legend(ax))
    _, ax = draw("drawAggregatedIndices", sob.drawAggregatedIndices, c["name"], **kw)
    P = points(ax)
    for what, v in (("first", r.getAggregatedFirstOrderIndices()),
                    ("total", r.getAggregatedTotalOrderIndices())):
        v = np.array(v)
        k = [g for g in P if len(g) == d and np.allclose(g[:, 1], v, 1e-6, 1e-9) and
             np.all(np.abs(g[:, 0] - np.arange(1, d + 1)) < 0.3)]
        expect(k, "the %s order aggregated indices %r are not drawn: %r", what, v, P)
    expect([t.get_text() for t in ax.get_xticklabels()] == names_, "labels %r",
           [t.get_text() for t in ax.get_xticklabels()])
    return Info(nontrivial=True, labels=[c["method"], "label %s" % c["label"]])


@st.composite
def pli_cases(draw):
    c = draw(c16.cases())
    c["N"] = 200
    c["hell"] = draw(st.booleans())
    c["ci"] = draw(choice(0.95, None, 0.5))
    c["label"] = draw(choice(False, True))
    c["name"] = draw(names())
    c["marg"] = draw(st.integers(0, 2))
    c["orig"] = draw(st.booleans())
    c["grid"] = draw(choice(None, 25))
    return c


def check_pli(c):
    x, y, det, sizes = c16.load(c)
    pod, f, dt, scale = c16.pod_of(c, x, y, det)
    d = c["dim"] - 1
    dist = ot.JointDistribution([pod.getDistribution().getMarginal(j + 1) for j in range(d)])
    D, V = c16.deltas(c, dist)
    R = [[c16.ratio(c["what"], dist.getMarginal(j), V[i, j]) for j in range(d)]
         for i in range(len(V))]
    cls = otpod.PLIMean if c["what"] == "mean" else otpod.PLIVariance
    pli = cls(pod, D.tolist(), c["scaled"])
    pli.setSamplingSize(c["N"])
    pli.setDefectSizes(sizes)
    fresh(c["seed"] + 1)
    sut("run", pli.run)
    sizes = sorted(sizes)
    I = np.array(pli.getIndices())
    ok = [q for q in range(len(sizes)) if not np.isnan(I[:, :, q]).any()]
    if not ok:
        raise Reject("no index")
    q = ok[c["seed"] % len(ok)]
    obj = pli.getPLIObject(q)
    names_ = ["alpha", "beta", "gamma"][:d] if c["label"] else ["X%d" % j for j in range(d)]
    kw = {"label": names_} if c["label"] else {}
    kw["hellinger"] = c["hell"]
    kw["confidenceLevel"] = c["ci"]
    with Folder():
        must_raise("too many labels", pli.drawIndices, q, label=["a"] * (d + 1))
    _, ax = draw("drawIndices(%d, %s)" % (q, kw), pli.drawIndices, c["name"], q, **kw)
    L = [(np.array(l.get_xydata(), dtype=float), l.get_label()) for l in ax.get_lines()]
    expect(len(L) == d, "%d curves for %d parameters", len(L), d)
    DD = np.array(D, dtype=float)
    if DD.ndim == 1:
        DD = np.repeat(DD[:, None], d, axis=1)
    bands = [cc for cc in ax.collections]
    if c["ci"] is None:
        expect(len(bands) == 0, "bands without confidence level")
    else:
        ci = obj.computeConfidenceInterval(c["ci"])
        expect(len(bands) == d, "%d bands for %d parameters", len(bands), d)
    for j in range(d):
        g = [g for g, n in L if n.startswith(names_[j])]
        expect(len(g) == 1, "%d curves of the parameter %s", len(g), names_[j])
        g = g[0]
        expect_all_close("indices drawn for %s" % names_[j], g[:, 1], I[:, j, q], 1e-12)
        if not c["hell"]:
            expect_all_close("deltas drawn for %s" % names_[j], g[:, 0], DD[:, j], 1e-12)
        else:
            m = dist.getMarginal(j)
            for i in range(len(V)):
                h = hellinger(m, R[i][j])
                o = m.getMean()[0] if c["what"] == "mean" else m.getCovariance()[0, 0]
                if V[i, j] < o:
                    h = -h
                # squared or not, normalised or not, the abscissa is a distance
                expect(np.sign(g[i, 0]) == np.sign(h) or abs(h) < 1e-6,
                       "sign of the abscissa %r of the delta %r", g[i, 0], DD[i, j])
                expect_close("Hellinger distance of the delta %r" % DD[i, j], g[i, 0], h, 2e-2, 2e-4)
        if c["ci"] is not None:
            v = np.concatenate([p.vertices for p in bands[j].get_paths()])
            B = np.array(ci[j])
            for i in range(len(V)):
                for b in B[i]:
                    e = np.abs(v - [g[i, 0], b]).max(axis=1).min()
                    expect(e <= 1e-9 * max(1, abs(b)) + 1e-9, "the bound %r at %r is not drawn", b,
                           g[i, 0])
    # density of a parameter
    j, i = c["marg"] % d, c["seed"] % len(V)
    m = dist.getMarginal(j)
    kw = {}
    a, b = m.computeQuantile(0.05)[0], m.computeQuantile(0.95)[0]
    n = None
    if c["grid"]:
        a, b = m.computeQuantile(0.1)[0], m.computeQuantile(0.8)[0]
        n = c["grid"]
        kw = {"xMin": a, "xMax": b, "pointNumber": n}
    if not c["orig"]:
        kw["showOriginal"] = False
    _, ax = draw("drawMarginal1DPDF", obj.drawMarginal1DPDF, c["name"], j, i, **kw)
    L = lines(ax)
    expect(len(L) == 1 + c["orig"], "drawMarginal1DPDF draws %d curves", len(L))
    for g in L:
        expect_all_close("interval of drawMarginal1DPDF", [g[0, 0], g[-1, 0]], [a, b], 1e-9,
                         1e-9 * c["scale"])
        expect(n is None or len(g) == n, "%d points instead of %r", len(g), n)
    pdf = [np.array([m.computePDF(float(t)) for t in g[:, 0]]) for g in L]
    per = [p * R[i][j](g[:, 0]) for p, g in zip(pdf, L)]
    tol = 2e-2 if c["what"] == "variance" else 1e-5
    k = [k for k, g in enumerate(L) if np.allclose(g[:, 1], per[k], tol, tol * per[k].max())]
    expect(k, "the perturbed density is not drawn")
    if c["orig"]:
        k2 = [t for t, g in enumerate(L) if np.allclose(g[:, 1], pdf[t], 1e-6, 1e-6 * pdf[t].max())]
        expect(k2 and len(set(k + k2)) == 2, "the original density is not drawn")
    # contour
    if len(ok) >= 2 and len(V) >= 2:
        must_raise("drawContourIndices(%d)" % d, pli.drawContourIndices, d)
        kw = {"label": "foo"} if c["label"] else {}
        fig, ax = draw("drawContourIndices", pli.drawContourIndices, c["name"], j, **kw)
        expect(len(ax.images) == 1, "no image")
        A = np.array(np.ma.filled(ax.images[0].get_array(), np.nan), dtype=float)
        expect(A.shape == (len(V), len(ok)), "image of shape %r", A.shape)
        expect_all_close("image of drawContourIndices", A, I[:, j, :][:, ok], 1e-12)
        e = list(ax.images[0].get_extent())
        expect_all_close("extent of drawContourIndices", e,
                         [sizes[ok[0]], sizes[ok[-1]], np.min(D), np.max(D)], 1e-9)
    return Info(nontrivial=True, labels=[c["what"], "hellinger %s" % c["hell"], c["kind"]])


def hellinger(m, ratio):
    """Abscissa used by the library: 2 (1 - Bhattacharyya coefficient)."""
    if m.getImplementation().getClassName() == "Uniform":
        a, b = list(m.getParameter())
    else:
        a, b = m.getMean()[0] - 9 * m.getStandardDeviation()[0], m.getMean()[0] + 9 * \
            m.getStandardDeviation()[0]
    t = np.linspace(a, b, 4001)
    t = 0.5 * (t[1:] + t[:-1])
    p = np.array([m.computePDF(float(s)) for s in t])
    bc = np.sum(p * np.sqrt(ratio(t))) * (b - a) / 4000.0
    return 2 * (1 - bc)


SUBS = [Sub("pod", pod_cases(), check_pod, 240, 4000),
        Sub("analysis", an_cases(), check_analysis, 120, 3000),
        Sub("metamodel", meta_cases(), check_meta, 100, 2500),
        Sub("sobol", sens_cases(), check_sobol, 40, 1000),
        Sub("pli", pli_cases(), check_pli, 70, 2000)]
