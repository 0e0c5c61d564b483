"""C19: results depend only on the data and the seed."""
import contextlib
import copy
import io
import math

import numpy as np
import openturns as ot
import otpod
from hypothesis import strategies as st

from harness import (Info, Reject, Sub, Violation, call1, expect, expect_all_close, expect_close,
                     fresh, sut)
from props import builders
from props.common import (LAMBDAS, SEEDS, boxcox, boxcox_shift, censored_loglik, choice, col, factory,
                          ols, uni_cases, uni_data)

ID = "C19"
RULE = ("Seeded data for every class (analysis, the three linear PODs, quantile regression, chaos, "
        "kriging, adaptive signal and hit/miss, Sobol, PLI, summary), with or without thresholds and "
        "Box Cox. containers: the same data in two containers (list, tuple, array, Fortran order, "
        "read only, integer, view, sample). histories: a sequence of runs of several objects, each "
        "compared with the same object alone. units: sizes and signals rescaled, rows permuted. "
        "Non-trivial: the POD is strictly between 0 and 1 at two sizes or more.")

KINDS = ("analysis", "linear-none", "linear-normal", "linear-kernel", "qr", "chaos1", "chaos",
         "kriging", "signal", "hitmiss", "sobol", "pli", "summary")
CONTAINERS = ("array", "sample", "list", "tuple", "fortran", "readonly", "view")


def wrap(v, how):
    if how == "readonly":
        v = np.array(v, dtype=float)
        v.setflags(write=False)
        return v
    if how == "view":
        b = np.zeros((2 * len(v), v.shape[1] + 1))
        b[::2, 1:] = v
        return b[::2, 1:]
    if how == "int":
        return np.array(v, dtype=int)
    if how == "intlist":
        return [[int(t) for t in r] for r in v]
    return builders.wrap(v, how)


@st.composite
def specs(draw, kinds=KINDS):
    return {"kind": draw(choice(*kinds)), "seed": draw(SEEDS), "n": draw(st.integers(24, 36)),
            "dim": draw(choice(2, 3)), "cens": draw(choice("none", "none", "low", "both")),
            "boxcox": draw(choice(False, False, 0.5, True)), "pod": draw(choice("chaos", "kriging"))}


def load(c, whole=False):
    kind = c["kind"]
    dim = 3 if kind in ("sobol", "pli") else c["dim"]
    if kind in ("analysis", "qr", "chaos1") or kind.startswith("linear"):
        dim = 1
    x, y = builders.data(c["seed"], c["n"], dim, offset=20)
    if whole:
        # integers, e.g. sizes in micrometres
        x, y = np.round(40 * x), np.round(3 * y)
    s = np.sort(y)
    noise = sat = None
    if c["cens"] in ("low", "both"):
        noise = float(0.5 * (s[2] + s[3]))
    if c["cens"] == "both":
        sat = float(0.5 * (s[-3] + s[-4]))
    if kind == "hitmiss":
        noise = sat = None
    return x, y, noise, sat, float(np.median(y))


def argument(c, given, values, order=True):
    """An argument of a setter in one of its containers, possibly not sorted; recorded in given
    with its values."""
    rs = np.random.RandomState((c["seed"] + 5) % 2 ** 32)
    v = [float(t) for t in values]
    if order:
        v = [v[i] for i in rs.permutation(len(v))]
    a = [list, np.array, np.array, ot.Point][rs.randint(4)](v)
    given.append((a, v))
    return a


def make(c, data, how="array", ycont=None):
    """(object, caller's objects); the object is not run."""
    x, y, noise, sat, det = data
    kind = c["kind"]
    bc = c["boxcox"]
    X, Y = wrap(x, how), wrap(y[:, None], ycont or how)
    given = [X, Y]
    a = 40 if x[:, 0].max() > 20 else 1
    if kind == "analysis":
        return otpod.UnivariateLinearModelAnalysis(X, Y, noise, sat, ot.NormalFactory(), bc), given
    if kind == "summary":
        o = otpod.PODSummary(X, Y, det, noise, sat, bc)
        o.setVerbose(False)
        o.setSimulationSize(4)
        o.setSamplingSize(20)
        for m in ("QuantileRegression", "Kriging"):
            o.setMethodActive(m, False)
        return o, given
    lo, hi = keep_range(c, data)
    sizes = [lo, lo + 0.3 * (hi - lo), lo + 0.5 * (hi - lo), hi]
    if kind in ("sobol", "pli"):
        k = c["pod"]
        o = (otpod.KrigingPOD if k == "kriging" else otpod.PolynomialChaosPOD)(
            X, Y, det, noise, sat, bc)
        o.setVerbose(False)
        builders.configure(k, o, sizes=argument(c, given, sizes), sim=6, sampling=20)
        fresh(c["seed"])
        o.run()
        s = [lo + 0.4 * (hi - lo), lo + 0.6 * (hi - lo)]
        if kind == "sobol":
            o = otpod.SobolIndices(o, 25)
            o.setSimulationSize(15)
        else:
            o = otpod.PLIMean(o, argument(c, given, [-0.2, 0.0, 0.3], False))
            o.setSamplingSize(80)
        o.setDefectSizes(argument(c, given, s))
        return o, given
    if kind.startswith("linear"):
        o = otpod.UnivariateLinearModelPOD(X, Y, det, noise, sat, factory(kind.split("-")[1]), bc)
    elif kind == "qr":
        o = otpod.QuantileRegressionPOD(X, Y, det, noise, sat, bc)
    elif kind in ("chaos", "chaos1"):
        o = otpod.PolynomialChaosPOD(X, Y, det, noise, sat, bc)
    elif kind == "kriging":
        o = otpod.KrigingPOD(X, Y, det, noise, sat, bc)
    else:
        d = x.shape[1]
        b = 3 if a == 40 else 1

        def f(v):
            # the signals of the data, without noise, in the unit of the data
            return [b * (20 + 4 * v[0] / a + 0.8 * sum(v[1:]) / a)]
        m = ot.PythonFunction(d, 1, f)
        if kind == "signal":
            o = otpod.AdaptiveSignalPOD(X, Y, m, 1, det, noise, sat, bc)
        else:
            o = otpod.AdaptiveHitMissPOD(X, Y, m, 2, det)
    o.setVerbose(False)
    if not (kind.startswith("linear") or kind == "qr"):
        sizes = argument(c, given, sizes)
    builders.configure(kind, o, sizes=sizes, sim=6, sampling=20)
    if kind == "qr":
        o.setQuantile(argument(c, given, [0.2, 0.4, 0.5, 0.6, 0.8]))
    if kind in ("signal",):
        o.setCandidateSize(6)
    return o, given


def keep_range(c, data):
    x, y, noise, sat, det = data
    k = np.ones(len(y), dtype=bool)
    if noise is not None:
        k &= y > noise
    if sat is not None:
        k &= y < sat
    x0 = x[k, 0]
    return float(x0.min()), float(x0.max())


def digest(c, data, o):
    """Everything public the object computed: list of (name, array)."""
    kind = c["kind"]
    lo, hi = keep_range(c, data)
    out = []

    def add(name, v):
        out.append((name, np.array(v, dtype=float)))

    if kind == "analysis":
        for g in ("Intercept", "Slope", "StandardError", "R2", "ZeroMeanPValue",
                  "BreuschPaganPValue", "DurbinWatsonPValue", "HarrisonMcCabePValue",
                  "AndersonDarlingPValue", "CramerVonMisesPValue", "KolmogorovPValue"):
            add(g, list(getattr(o, "get" + g)()))
        add("Residuals", o.getResiduals())
        if c["boxcox"] is not False:
            add("lambda", [o.getBoxCoxParameter()])
        return out
    if kind == "sobol":
        r = o.getSensitivityResult()
        add("sizes", o.getDefectSizes())
        add("first", r.getAggregatedFirstOrderIndices())
        add("total", r.getAggregatedTotalOrderIndices())
        return out
    if kind == "pli":
        add("sizes", o.getDefectSizes())
        add("indices", o.getIndices())
        return out
    pods = [("", o)]
    if kind == "summary":
        pods = [(m, getattr(o, "get%sPOD" % m)()) for m in
                ("LinearGauss", "LinearBinomial", "LinearKernelSmoothing", "PolynomialChaos")]
    for name, p in pods:
        if kind in ("chaos", "chaos1", "kriging", "signal", "hitmiss") or name == "PolynomialChaos":
            t = np.ravel(p.getDefectSizes())
            add(name + "sizes", t)
        elif kind == "qr":
            t = np.linspace(lo, lo + 0.5 * (hi - lo), 5)
        else:
            t = np.linspace(lo, hi, 7)
        for w, f in (("POD", p.getPODModel()), ("POD 0.9", p.getPODCLModel(0.9)),
                     ("POD 0.5", p.getPODCLModel(0.5))):
            add(name + w, [float(f([float(a)])[0]) for a in t])
        try:
            add(name + "detection sizes", list(p.computeDetectionSize(0.5, 0.7)))
        except Exception:
            add(name + "detection sizes", [])
        if c["boxcox"] is not False and kind not in ("hitmiss", "summary"):
            add(name + "lambda", [p.getBoxCoxParameter()])
        if kind in ("signal", "hitmiss"):
            add("input", p.getInputDOE())
            add("output", p.getOutputDOE())
        if kind in ("chaos", "chaos1"):
            add("scores", [p.getR2(), p.getQ2()])
        if kind in ("kriging", "signal"):
            add("Q2", [p.getQ2()])
    return out


def compare(a, b, what):
    for (n, u), (m, v) in zip(a, b):
        expect(n == m and u.shape == v.shape, "%s: %s has the shape %s instead of %s", what, n,
               u.shape, v.shape)
        if not np.array_equal(u, v, equal_nan=True):
            i = np.argwhere(~((u == v) | (np.isnan(u) & np.isnan(v))))[0]
            raise Violation("%s: %s at %s is %r instead of %r" % (
                what, n, i.tolist(), float(u[tuple(i)]), float(v[tuple(i)])))
    expect(len(a) == len(b), "%s: %d results instead of %d", what, len(a), len(b))


def inner(d):
    """Number of sizes whose POD is strictly between 0 and 1."""
    r = [v for n, v in d if n.endswith("POD")]
    if not r:
        return 2
    return max(int(np.sum((v > 0.01) & (v < 0.99))) for v in r)


def execute(c, o, seed):
    fresh(seed)
    with contextlib.redirect_stdout(io.StringIO()):
        if c["kind"] != "analysis":
            o.run()
    return o


def created(c, data, seed, how="array", ycont=None):
    """A new object, run from the seed (the analysis computes in its constructor)."""
    fresh(seed)
    o, given = make(c, data, how, ycont)
    execute(c, o, seed)
    return o, given


def reference(c, data, seed):
    try:
        return created(c, data, seed)
    except Exception as e:
        raise Reject("the run is rejected: %s" % e)


# --------------------------------------------------------------------------
@st.composite
def cont_cases(draw):
    c = draw(specs())
    c["whole"] = draw(choice(False, False, True))
    cs = ("sample", "list", "tuple", "fortran", "readonly", "view")
    if c["whole"]:
        cs = cs + ("int", "intlist", "int")
    c["x"] = draw(choice(*cs))
    c["y"] = draw(choice(*cs))
    return c


def plain(v):
    return np.array(v, dtype=float)


def check_containers(c):
    data = load(c, c["whole"])
    ref, _ = reference(c, data, c["seed"])
    a = digest(c, data, ref)
    fresh(c["seed"])
    o, given = sut("constructor with %s and %s" % (c["x"], c["y"]), make, c, data, c["x"], c["y"])
    sut("run with %s and %s" % (c["x"], c["y"]), execute, c, o, c["seed"])
    b = digest(c, data, o)
    compare(b, a, "%s with %s and %s instead of arrays" % (c["kind"], c["x"], c["y"]))
    x, y, noise, sat, det = data
    for g, w in zip(given, (x, y[:, None])):
        expect(np.array_equal(plain(g), w), "the data of the caller were modified")
    for g, k in given[2:]:
        expect(list(g) == k, "an argument of the caller was modified: %r was %r", g, k)
    # the object does not follow the caller's later changes
    if c["x"] not in ("tuple", "readonly") and c["y"] not in ("tuple", "readonly"):
        for g in given[:2]:
            for i in range(len(g)):
                for j in range(len(g[0])):
                    g[i][j] = 7
        for g, _ in given[2:]:
            for i in range(len(g)):
                g[i] = 0.5 * g[i]
        compare(digest(c, data, o), a, "%s after the caller changed his data" % c["kind"])
        if c["kind"] not in ("analysis", "signal", "hitmiss", "summary"):
            execute(c, o, c["seed"])
            compare(digest(c, data, o), a, "%s run again after the caller changed his data" %
                    c["kind"])
    return Info(nontrivial=inner(a) >= 2, labels=[c["kind"], c["x"], c["y"]])


# --------------------------------------------------------------------------
@st.composite
def hist_cases(draw):
    n = draw(st.integers(2, 3))
    objs = [draw(specs()) for _ in range(n)]
    steps = draw(st.lists(st.tuples(st.integers(0, n - 1), choice(
        "run", "run", "read", "twin", "draws")), min_size=3, max_size=7))
    return {"seed": objs[0]["seed"], "objs": objs, "steps": [list(s) for s in steps]}


def check_histories(c):
    objs = []
    for k, s in enumerate(c["objs"]):
        data = load(s)
        ref, _ = reference(s, data, s["seed"])
        # result alone, and what the run leaves in the generators
        a = digest(s, data, ref)
        objs.append([s, data, a, None])
    done = 0
    last = {}
    for k, (i, op) in enumerate(c["steps"]):
        s, data, want, o = objs[i]
        what = "step %d, %s of object %d (%s)" % (k, op, i, s["kind"])
        if op == "draws":
            ot.RandomGenerator.Generate(17)
            np.random.rand(5)
            continue
        if op == "read":
            if o is None:
                continue
            compare(sut(what, digest, s, data, o), want, what)
            done += 1
            continue
        once = s["kind"] in ("analysis", "signal", "hitmiss", "summary")
        if op == "twin" or o is None or once:
            # the analysis and the adaptive classes cannot be run again from the same state
            o, _ = sut(what, created, s, data, s["seed"])
        else:
            sut(what, execute, s, o, s["seed"])
        objs[i][3] = o
        compare(sut(what, digest, s, data, o), want, what)
        done += 1
    return Info(nontrivial=done >= 2 and all(inner(o[2]) >= 2 for o in objs),
                labels=sorted(set(s["kind"] for s in c["objs"])))


# --------------------------------------------------------------------------
def check_seed(c):
    """The runs do not reseed the generators: another seed leaves other states, and the
    simulated curves change."""
    data = load(c)
    reference(c, data, c["seed"])
    outs, states, first = [], [], []
    for s in (c["seed"], c["seed"] + 1000003, c["seed"]):
        o, _ = sut("run", created, c, data, s)
        states.append((tuple(ot.RandomGenerator.Generate(4)), tuple(np.random.rand(4))))
        outs.append(digest(c, data, o))
    compare(outs[2], outs[0], "%s with the same seed" % c["kind"])
    expect(states[2] == states[0], "the run leaves other random states with the same seed")
    for k, name in enumerate(("OpenTURNS", "numpy")):
        expect(states[0][k] != states[1][k], "the run overrides the %s seed of the user", name)
    return Info(nontrivial=True, labels=[c["kind"]])


# --------------------------------------------------------------------------
@st.composite
def unit_cases(draw):
    c = draw(uni_cases(nmin=12, nmax=40, boxcox=("off", "off", "fixed")))
    c["kind"] = draw(choice("normal", "none", "kernel", "uniform"))
    c["kx"] = draw(choice(1.0, 1000.0, 0.0254, 2.0 ** -10, 3.0))
    c["ky"] = draw(choice(1.0, 1000.0, 0.001, 2.0 ** 12, 7.0))
    c["dy"] = draw(choice(0, 0, 3, -1))
    c["perm"] = draw(st.booleans())
    c["lam"] = draw(choice(*LAMBDAS))
    c["det"] = draw(choice(0.5, 0.3, 0.7))
    c["bcsign"] = "positive"
    c["sim"] = 20
    return c


def check_units(c):
    x, y, noise, sat, keep, lo, hi = uni_data(c)
    det = float(np.quantile(y[keep], c["det"]))
    if len(lo) + len(hi) > len(y) / 2:
        raise Reject("heavy censoring")
    bc = float(c["lam"]) if c["boxcox"] == "fixed" else False
    # another origin of the signals is a change of unit without Box Cox only
    dy = float(c["dy"]) * float(np.ptp(y)) if bc is False else 0.0
    kx, ky = c["kx"], c["ky"]
    if kx == 1 and ky == 1 and dy == 0 and not c["perm"]:
        raise Reject("nothing changes")
    p = np.random.RandomState(c["seed"] % 2 ** 32).permutation(len(x)) if c["perm"] else \
        np.arange(len(x))

    def conv(v):
        return None if v is None else float(ky * (v + dy))
    x2, y2 = kx * x[p], ky * (y[p] + dy)
    n2, s2, d2 = conv(noise), conv(sat), conv(det)
    # a signal equal to a threshold keeps its class
    k2 = np.ones(len(y2), dtype=bool)
    if n2 is not None:
        k2 &= y2 > n2
    if s2 is not None:
        k2 &= y2 < s2
    if k2.sum() != len(keep):
        raise Reject("the threshold is rounded")
    if bc is not False and boxcox_shift(y[keep]):
        raise Reject("shifted signals")
    res = []
    for (a, b, n, s, d) in ((x, y, noise, sat, det), (x2, y2, n2, s2, d2)):
        pod = otpod.UnivariateLinearModelPOD(col(a), col(b), d, n, s, factory(c["kind"]), bc)
        pod.setVerbose(False)
        pod.setSimulationSize(c["sim"])
        try:
            fresh(c["seed"])
            pod.run()
        except Exception as e:
            if not res or c["perm"]:
                # in another order the bootstrap draws other data, possibly degenerated
                raise Reject("the run is rejected")
            raise Violation("the run raises %r in other units" % e)
        an = otpod.UnivariateLinearModelAnalysis(col(a), col(b), n, s, ot.NormalFactory(), bc)
        res.append((pod, an))
    (p1, a1), (p2, a2) = res
    cens = noise is not None or sat is not None
    t = np.linspace(x[keep].min(), x[keep].max(), 9)
    f1, f2 = p1.getPODModel(), p2.getPODModel()
    u = np.array([call1("POD", f1, v) for v in t])
    v = np.array([call1("POD", f2, kx * w) for w in t])
    # the censored likelihood is maximised by an iterative algorithm
    tol = 1e-6
    if cens:
        tol = 0.02
    if c["kind"] in ("kernel", "none"):
        # bandwidth of the kernel by an iterative algorithm; empirical residuals jump by 1/n
        tol = max(tol, 0.02 if c["kind"] == "kernel" else 1.01 / len(keep))
    if cens:
        # the same likelihood in both units
        z = boxcox(y, bc) if bc is not False else y
        tn, ts = [None if w is None else float(boxcox(np.array([w]), bc)[0]) if bc is not False
                  else w for w in (noise, sat)]
        kz, dz = (ky, dy) if bc is False else (
            ky ** bc, (ky ** bc - 1) / bc / ky ** bc if bc else math.log(ky))
        L = []
        for an, ax_, az, bz in ((a1, 1.0, 1.0, 0.0), (a2, kx, kz, dz)):
            th = (float(an.getIntercept()[1]) / az - bz, float(an.getSlope()[1]) / az * ax_,
                  float(an.getStandardError()[1]) / az)
            L.append(censored_loglik(th, x[keep], z[keep], x[lo], x[hi], tn, ts))
        expect(abs(L[0] - L[1]) < 0.02, "censored likelihood %r in the units (%r, %r, %r), %r in the "
               "original ones", L[1], kx, ky, dy, L[0])
    if not (cens and c["kind"] == "none"):  # otherwise several residuals may jump
        expect_all_close("POD in other units (%r, %r, %r)" % (kx, ky, dy), v, u, 0, tol)
    if not cens:
        b1, b2 = a1, a2
        ky2 = ky ** bc if bc is not False else ky
        e1, e2 = float(b1.getStandardError()[0]), float(b2.getStandardError()[0])
        expect_close("standard error in other units", e2, ky2 * e1, 1e-6)
        expect_close("slope in other units", float(b2.getSlope()[0]) * kx,
                     ky2 * float(b1.getSlope()[0]), 1e-6, 1e-7 * ky2 * e1 / np.ptp(x))
        expect_close("R2 in other units", float(b2.getR2()[0]), float(b1.getR2()[0]), 1e-6, 1e-8)
        for g in ("ZeroMeanPValue", "BreuschPaganPValue", "DurbinWatsonPValue", "AndersonDarlingPValue",
                  "CramerVonMisesPValue"):
            if c["perm"] and g == "DurbinWatsonPValue":
                continue
            expect_close("%s in other units" % g, float(getattr(b2, "get" + g)()[0]),
                         float(getattr(b1, "get" + g)()[0]), 1e-4, 1e-4)
        if c["kind"] in ("normal", "uniform"):
            for q in (0.3, 0.6, 0.8):
                try:
                    s1 = float(p1.computeDetectionSize(q)[0])
                except Exception:
                    continue
                s2 = float(sut("computeDetectionSize in other units", p2.computeDetectionSize, q)[0])
                expect_close("detection size %r in other units" % q, s2 / kx, s1, 1e-4,
                             # tolerance of the equation solver
                             4e-5 * (1 + 1 / kx))
        if c["kind"] == "normal" and not c["perm"]:
            # the same simulated parameters
            g1, g2 = p1.getPODCLModel(0.9), p2.getPODCLModel(0.9)
            expect_all_close("POD at 0.9 in other units", [call1("CL", g2, kx * w) for w in t],
                             [call1("CL", g1, w) for w in t], 0, 1e-4)
    return Info(nontrivial=int(np.sum((u > 0.01) & (u < 0.99))) >= 2,
                labels=[c["kind"], "cens %s" % c["cens"], "boxcox %s" % c["boxcox"],
                        "perm %s" % c["perm"]])


SUBS = [Sub("containers", cont_cases(), check_containers, 240, 6000),
        Sub("histories", hist_cases(), check_histories, 90, 2400),
        Sub("seed", specs(), check_seed, 100, 1500),
        Sub("units", unit_cases(), check_units, 160, 4000)]
