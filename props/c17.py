"""C17: the POD summary reports what each method computes alone."""
import os
import re
import shutil
import tempfile

import numpy as np
import openturns as ot
import otpod
from hypothesis import strategies as st

from harness import Info, Reject, Sub, expect, expect_all_close, fresh, must_raise, sut
from props.common import SEEDS, boxcox_shift, choice, col, split

ID = "C17"
RULE = ("Seeded data of dimension 1 to 3 (25 to 40 observations, signals of any sign), thresholds, "
        "boxCox off, fixed or optimised, any subset of active methods, small simulation and "
        "sampling sizes, levels k/100, attained or not. Every method is also run alone from the same "
        "random state. Non-trivial: at least two methods give a detection size.")

METHODS = ("LinearGauss", "LinearBinomial", "LinearKernelSmoothing", "QuantileRegression",
           "PolynomialChaos", "Kriging")


@st.composite
def cases(draw, graphs=False):
    return {"seed": draw(SEEDS), "n": draw(st.integers(25, 40)), "dim": draw(choice(2, 1, 3)),
            "sigma": draw(choice(0.5, 1.5)), "base": draw(choice(20, -6)),
            "cens": draw(choice("none", "none", "low", "high", "both")),
            "boxcox": draw(choice(False, False, 0.5, 0.0, True)),
            "off": draw(st.lists(st.integers(0, 5), max_size=4, unique=True)),
            "det": draw(choice(0.5, 0.35, 0.65, 0.9)),
            "p": draw(st.lists(st.integers(5, 98), min_size=1, max_size=1 if graphs else 4)),
            "c": draw(choice(95, 80, 50, 29)), "deflt": draw(choice(False, False, True)),
            "sim": draw(st.integers(4, 15)), "N": draw(choice(30, 60, 100)),
            "late": draw(st.booleans()),
            "level": draw(choice(True, True, False)), "ext": draw(choice("png", "pdf", "svg")),
            "prefix": draw(choice("", "sub dir"))}


def load(c):
    rs = np.random.RandomState(c["seed"] % 2 ** 32)
    n, d = c["n"], c["dim"]
    x = rs.uniform(-1, 1, (n, d))
    x[:, 0] = rs.uniform(0.3, 3.5, n)
    y = c["base"] + 4 * x[:, 0] + c["sigma"] * rs.randn(n)
    for j in range(1, d):
        y += (1.0, -0.7)[j - 1] * x[:, j]
    s = np.sort(y)
    noise = float(0.5 * (s[1] + s[2])) if c["cens"] in ("low", "both") else None
    sat = float(0.5 * (s[-2] + s[-3])) if c["cens"] in ("high", "both") else None
    keep = np.array(split(x[:, 0], y, noise, sat)[0])
    det = float(np.quantile(y[keep], c["det"]))
    if c["boxcox"] is not False:
        sh = boxcox_shift(y[keep])
        if any(t is not None and t + sh <= 0 for t in (noise, sat, det)):
            raise Reject("domain of Box Cox")
        if c["boxcox"] is True and np.ptp(ot.BoxCoxFactory().build(
                ot.Sample(col(y[keep] + sh)))(ot.Sample(col(y[keep] + sh)))) < 1e-4:
            raise Reject("transformed signals equal up to rounding")
    return x, y, noise, sat, det


def alone(c, x, y, noise, sat, det, active):
    """The analysis and the active methods, in the documented order, from the seed."""
    X, Y, bc = ot.Sample(x), ot.Sample(col(y)), c["boxcox"]
    x1 = X[:, 0]
    fresh(c["seed"])
    out = {}
    an = otpod.UnivariateLinearModelAnalysis(x1, Y, noise, sat, ot.NormalFactory(), bc)
    for m in METHODS:
        if not active[m]:
            continue
        if m.startswith("Linear"):
            f = {"LinearGauss": ot.NormalFactory(), "LinearBinomial": None,
                 "LinearKernelSmoothing": ot.KernelSmoothing()}[m]
            pod = otpod.UnivariateLinearModelPOD(x1, Y, det, noise, sat, f, bc)
        elif m == "QuantileRegression":
            pod = otpod.QuantileRegressionPOD(x1, Y, det, noise, sat, bc)
        elif m == "PolynomialChaos":
            pod = otpod.PolynomialChaosPOD(X, Y, det, noise, sat, bc)
        else:
            pod = otpod.KrigingPOD(X, Y, det, noise, sat, bc)
        pod.setVerbose(False)
        pod.setSimulationSize(c["sim"])
        if m in ("PolynomialChaos", "Kriging"):
            pod.setSamplingSize(c["N"])
        pod.run()
        out[m] = pod
    return an, out


def summary(c, x, y, noise, sat, det):
    s = sut("PODSummary", otpod.PODSummary, x, col(y), det, noise, sat, c["boxcox"])
    s.setVerbose(False)
    for k in c["off"]:
        sut("setMethodActive", s.setMethodActive, METHODS[k], False)
    if c["late"] and c["off"]:
        # activated again
        sut("setMethodActive", s.setMethodActive, METHODS[c["off"][0]], True)
    active = {m: k not in c["off"] for k, m in enumerate(METHODS)}
    if c["late"] and c["off"]:
        active[METHODS[c["off"][0]]] = True
    expect(dict(s.getMethodActive()) == active, "getMethodActive %r", s.getMethodActive())
    s.setSimulationSize(c["sim"])
    s.setSamplingSize(c["N"])
    if c["dim"] == 1:
        active["Kriging"] = False
    return s, active


GET = {"LinearGauss": "getLinearGaussPOD", "LinearBinomial": "getLinearBinomialPOD",
       "LinearKernelSmoothing": "getLinearKernelSmoothingPOD",
       "QuantileRegression": "getQuantileRegressionPOD",
       "PolynomialChaos": "getPolynomialChaosPOD", "Kriging": "getKrigingPOD"}


def run_both(c):
    x, y, noise, sat, det = load(c)
    s, active = summary(c, x, y, noise, sat, det)
    for m in METHODS:
        must_raise("%s before run" % GET[m], getattr(s, GET[m]))
    err = None
    try:
        an, ref = alone(c, x, y, noise, sat, det, active)
    except Exception as e:
        err = e
    fresh(c["seed"])
    try:
        s.run()
    except Exception as e:
        if err is not None:
            raise Reject("a method raises on these data")
        raise
    expect(err is None, "the summary runs although a method alone raises %r", err)
    return x, y, noise, sat, det, s, active, an, ref


def curves(c, x, m, pod):
    """The curves of a method at a few sizes."""
    if m in ("PolynomialChaos", "Kriging"):
        t = np.ravel(pod.getDefectSizes())
    elif m == "QuantileRegression":
        t = np.linspace(0.05, 0.6, 8) * x[:, 0].max()
    else:
        t = np.linspace(x[:, 0].min(), x[:, 0].max(), 8)
    out = []
    for f in (pod.getPODModel(), pod.getPODCLModel(c["c"] / 100.0)):
        out.append([float(f([float(a)])[0]) for a in t])
    return np.array(out)


def compare(c, x, s, active, ref):
    for m in METHODS:
        if not active[m]:
            must_raise("%s of an inactive method" % GET[m], getattr(s, GET[m]))
            continue
        pod = sut(GET[m], getattr(s, GET[m]))
        expect(type(pod) is type(ref[m]), "%s is a %s", GET[m], type(pod).__name__)
        expect(pod.getSimulationSize() == c["sim"] or m == "LinearBinomial",
               "%s was run with %r simulations", m, pod.getSimulationSize())
        want, got = curves(c, x, m, ref[m]), curves(c, x, m, pod)
        # from the same random state, the same curves
        exact = np.allclose(want, got, 1e-9, 1e-9)
        if exact:
            continue
        if m in ("LinearGauss", "LinearBinomial", "LinearKernelSmoothing", "QuantileRegression"):
            # the POD itself is not random
            expect_all_close("POD of %s in the summary" % m, got[0], want[0], 1e-9, 1e-9)
        # another order of the random numbers is allowed, the curves are then statistically equal
        tol = 6 * np.sqrt(0.25 / (c["N"] if m in ("PolynomialChaos", "Kriging") else c["sim"]))
        expect_all_close("curves of %s in the summary" % m, got, want, 0, tol)
        return False
    return True


def check(c):
    x, y, noise, sat, det, s, active, an, ref = run_both(c)
    exact = compare(c, x, s, active, ref)
    cens = noise is not None or sat is not None
    sizes = 0
    levels = [(k / 100.0, c["c"] / 100.0) for k in c["p"]]
    if c["deflt"]:
        levels = [None] + levels
    tmp = tempfile.mkdtemp(prefix="otpodverif")
    try:
        for k, lv in enumerate(levels):
            args = () if lv is None else lv
            p, q = lv or (0.9, 0.95)
            # the objects of the summary: their results are those of the classes alone
            pods = {m: getattr(s, GET[m])() for m in METHODS if active[m]}
            if k > 2:
                continue
            text = sut("getResults", s.getResults, *args)
            name = os.path.join(tmp, "r%d.csv" % k)
            sut("saveResults", s.saveResults, name, *args)
            with open(name) as f:
                saved = f.read()
            sizes += judge(c, text, saved, pods, s, an, p, q, cens, active, exact)
    finally:
        shutil.rmtree(tmp)
    return Info(nontrivial=sizes >= 2,
                labels=[c["cens"], "boxcox %s" % c["boxcox"], "dim %d" % c["dim"]] +
                ["%s" % m for m in METHODS if active[m]] + ([] if exact else ["other order"]))


ROWS = {"LinearGauss": "Gaussian residuals :", "LinearBinomial": "No residuals hypothesis :",
        "LinearKernelSmoothing": "Kernel smoothing on residuals :",
        "QuantileRegression": "Quantile Regression :", "PolynomialChaos": "Polynomial chaos :",
        "Kriging": "Kriging :"}


def find(lines, label, what):
    r = [l for l in lines if l.strip().startswith(label)]
    expect(len(r) == 1, "%d lines %r in the %s", len(r), label, what)
    return r[0].strip()[len(label):].split()


def same(cells, values, what):
    expect(len(cells) == len(values), "%s: cells %r for the values %r", what, cells, values)
    for a, v in zip(cells, values):
        try:
            v = float(v)
            # two decimals, ties of the rounding being free
            ok = (abs(float(a) - v) <= 0.005 + 1e-9 * max(1, abs(v)) and
                  abs(round(float(a), 2) - float(a)) < 1e-9 * max(1, abs(v))) or (
                      np.isnan(v) and a == "nan")
        except ValueError:
            ok = False
        expect(ok, "%s: %r is written, the value is %r", what, a, v)


def judge(c, text, saved, pods, s, an, p, q, cens, active, exact):
    """The printed and saved tables, cell by cell."""
    found = 0
    pp, qq = int(round(100 * p)), int(round(100 * q))
    for what, t in (("report", text), ("file", saved)):
        expect("Model validation results" in t and "POD results" in t, "no section in the %s", what)
        a, b = t.split("POD results", 1)
        valid = a.split("Model validation results", 1)[1].splitlines()
        rows = b.splitlines()
        head = [l.split() for l in rows if l.split() and l.split()[0] == "a%d" % pp]
        expect(head and head[0] == ["a%d" % pp, "a%d/%d" % (pp, qq)], "header %r of the %s", head,
               what)
        for m in METHODS:
            if not active[m]:
                expect(not any(l.strip().startswith(ROWS[m]) for l in rows),
                       "inactive method %s in the %s", m, what)
                continue
            try:
                r = [float(v) for v in pods[m].computeDetectionSize(p, q)]
                found += what == "file"
            except Exception:
                r = [-1, -1]
            same(find(rows, ROWS[m], what), r, "%s in the %s at %r, %r" % (m, what, p, q))
        if any(active[m] for m in METHODS[:3]):
            r2 = list(s_r2(an, cens))
            same(find(valid, "Linear Regression (> 0.8):", what), r2, "linear R2 in the %s" % what)
        else:
            expect(not any("Linear Regression" in l for l in valid), "linear row in the %s", what)
        if active["QuantileRegression"]:
            same(find(valid, "Quantile Regression at level %s (> 0.6):" % round(p, 2), what),
                 [pods["QuantileRegression"].getR2(p)], "pseudo R2 in the %s" % what)
        else:
            expect(not any("Quantile" in l for l in valid), "quantile row in the %s", what)
        if active["PolynomialChaos"]:
            k = pods["PolynomialChaos"]
            same(find(valid, "Polynomial Chaos (> 0.8):", what), [k.getR2(), k.getQ2()],
                 "chaos scores in the %s" % what)
        else:
            expect(not any("Chaos" in l for l in valid), "chaos row in the %s", what)
        if active["Kriging"]:
            same(find(valid, "Kriging (> 0.8):", what), [pods["Kriging"].getQ2()],
                 "kriging Q2 in the %s" % what)
        else:
            expect(not any("Kriging" in l for l in valid), "kriging row in the %s", what)
    # columns of the validation table of the file
    for l in saved.splitlines():
        f = l.split("\t")
        if f[0].startswith("Linear Regression (>"):
            expect(len(f) == 4 and f[2] == "" and (f[3] != "") == cens, "columns %r", f)
        if f[0].startswith("Kriging (>"):
            expect(len(f) == 4 and f[1] == "" and f[3] == "", "columns %r", f)
    # the analysis of the file, as written by the analysis itself
    head = saved.split("Model validation results", 1)[0].splitlines()
    for label, v in (("Intercept coefficient", an.getIntercept()), ("Slope coefficient",
                                                                    an.getSlope())):
        # the line of the confidence interval has the same label
        f = [l.split("\t") for l in head if l.startswith(label) and "," not in l and "[" not in l]
        expect(len(f) == 1, "%d lines %r", len(f), label)
        same([t for t in f[0][1:] if t.strip()][:2 if cens else 1],
             list(v)[:2 if cens else 1], label)
    return found


def s_r2(an, cens):
    r = list(an.getR2())
    return r[:2] if cens else r[:1]


# --------------------------------------------------------------------------
def signature(fig):
    out = []
    for ax in fig.axes:
        for l in ax.get_lines():
            out.append(np.array(l.get_xydata(), dtype=float))
        for k in ax.collections:
            try:
                out.append(np.array(k.get_offsets(), dtype=float))
            except Exception:
                pass
    return out


def equal(a, b):
    return len(a) == len(b) and all(
        u.shape == v.shape and np.allclose(u, v, 1e-6, 1e-6, equal_nan=True) for u, v in zip(a, b))


def check_graphs(c):
    x, y, noise, sat, det, s, active, an, ref = run_both(c)
    exact = compare(c, x, s, active, ref)
    cens = noise is not None or sat is not None
    p, q = (c["p"][0] / 100.0, c["c"] / 100.0) if c["level"] else (None, None)
    # the graphs each object draws
    want = []
    if c["boxcox"] is True:
        if abs(an.getBoxCoxParameter()) > 15:
            raise Reject("log-likelihood of OpenTURNS infinite on the interval of its graph")
        want.append(an.drawBoxCoxLikelihood())
    for model in ("uncensored", "censored")[:1 + cens]:
        want += [an.drawLinearModel(model=model), an.drawResiduals(model=model),
                 an.drawResidualsDistribution(model=model), an.drawResidualsQQplot(model=model)]
    for m in METHODS:
        if not active[m]:
            continue
        pod = getattr(s, GET[m])()
        try:
            want.append(pod.drawPOD(p, q))
        except Exception:
            pass
        if m == "QuantileRegression" and p is not None:
            want.append(pod.drawLinearModel(p))
        if m in ("PolynomialChaos", "Kriging"):
            want.append(pod.drawValidationGraph())
    want = [signature(f) for f, _ in want]
    tmp = tempfile.mkdtemp(prefix="otpodverif")
    here = os.getcwd()
    try:
        where = os.path.join(tmp, c["prefix"]) if c["prefix"] else tmp
        os.makedirs(where, exist_ok=True)
        os.chdir(tmp)
        kw = {"extension": c["ext"]}
        if c["ext"] == "png" and c["seed"] % 2:
            kw = {}
        if p is not None:
            kw.update(probabilityLevel=p, confidenceLevel=q)
        if where != tmp or c["seed"] % 3:
            kw["directory"] = where
        figs = sut("drawGraphs", s.drawGraphs, **kw)
        files = [os.path.join(a, f) for a, _, fs in os.walk(tmp) for f in fs]
    finally:
        os.chdir(here)
        sizes = [os.path.getsize(f) for f in files] if os.path.isdir(tmp) else []
        shutil.rmtree(tmp)
    expect(len(figs) == len(want), "%d figures, %d graphs are available", len(figs), len(want))
    expect(len(files) == len(want), "%d files %r for %d graphs", len(files), files, len(want))
    for f, size in zip(files, sizes):
        expect(os.path.dirname(f) == where, "%s is not in the directory %s", f, where)
        expect(f.endswith("." + c["ext"]), "%s has not the extension %s", f, c["ext"])
        expect(size > 500, "%s is empty", f)
    if exact:
        got = [signature(f) for f in figs]
        for w in want:
            k = [i for i, g in enumerate(got) if equal(w, g)]
            expect(k, "no figure of drawGraphs shows %s", [v[:3].tolist() for v in w][:2])
            del got[k[0]]
    import matplotlib.pyplot as plt
    plt.close("all")
    return Info(nontrivial=len(files) > 5, labels=[c["cens"], c["ext"], "boxcox %s" % c["boxcox"]])


# --------------------------------------------------------------------------
@st.composite
def large(draw):
    c = draw(cases())
    c.update(boxcox=draw(choice(False, 0.5)), base=20,
             sim=draw(st.one_of(st.none(), st.integers(1, 60000))),
             N=draw(st.one_of(st.none(), st.integers(1, 60000))),
             again=draw(choice(None, None, 700, 25000)))
    return c


class idle:
    """The PODs of the summary are built and set, not computed."""

    CLASSES = (otpod.UnivariateLinearModelPOD, otpod.QuantileRegressionPOD,
               otpod.PolynomialChaosPOD, otpod.KrigingPOD)

    def __enter__(self):
        self.ran = []
        self.old = [k.run for k in self.CLASSES]
        for k in self.CLASSES:
            k.run = lambda obj: self.ran.append(obj)
        return self

    def __exit__(self, *a):
        for k, f in zip(self.CLASSES, self.old):
            k.run = f


def check_large(c):
    """Every method runs with the settings of the summary, whatever their values."""
    x, y, noise, sat, det = load(c)
    s = sut("PODSummary", otpod.PODSummary, x, col(y), det, noise, sat, c["boxcox"])
    expect(s.getSimulationSize() == 1000 and s.getSamplingSize() == 5000,
           "default sizes %r, %r", s.getSimulationSize(), s.getSamplingSize())
    for k in c["off"]:
        s.setMethodActive(METHODS[k], False)
    s.setVerbose(False)
    runs = [(c["sim"], c["N"])] + ([(c["again"], 2 * c["again"])] if c["again"] else [])
    sim, N = 1000, 5000
    for a, b in runs:
        if a is not None:
            s.setSimulationSize(a)
            sim = a
        if b is not None:
            s.setSamplingSize(b)
            N = b
        expect(s.getSimulationSize() == sim and s.getSamplingSize() == N,
               "sizes %r, %r instead of %r, %r", s.getSimulationSize(), s.getSamplingSize(), sim, N)
        with idle() as spy:
            try:
                s.run()
            except Exception as e:
                raise Reject("the summary needs the results of its methods: %s" % e)
        n = 0
        for m in METHODS:
            if not (active_of(c)[m]):
                continue
            pod = sut(GET[m], getattr(s, GET[m]))
            if pod not in spy.ran:
                # run in another way
                raise Reject("run of %s unseen" % m)
            n += 1
            if m != "LinearBinomial":
                expect(pod.getSimulationSize() == sim, "%s has %r simulations instead of %r", m,
                       pod.getSimulationSize(), sim)
            if m in ("PolynomialChaos", "Kriging"):
                expect(pod.getSamplingSize() == N, "%s has the sampling size %r instead of %r", m,
                       pod.getSamplingSize(), N)
    return Info(nontrivial=n > 1 and (sim, N) != (1000, 5000), labels=["%d runs" % len(runs)])


def active_of(c):
    active = {m: k not in c["off"] for k, m in enumerate(METHODS)}
    if c["dim"] == 1:
        active["Kriging"] = False
    return active


SUBS = [Sub("report", cases(), check, 160, 4000),
        Sub("graphs", cases(graphs=True), check_graphs, 48, 1200),
        Sub("settings", large(), check_large, 400, 6000)]
