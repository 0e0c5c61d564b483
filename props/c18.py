"""C18: setters are honoured, invalid settings are rejected without effect (model-based histories)."""
import contextlib
import io

import numpy as np
import openturns as ot
import otpod
from hypothesis import strategies as st

from harness import Info, Reject, Sub, Violation, expect, expect_all_close, fresh, must_raise, sut_out
from props import builders
from props.common import SEEDS, choice, col

ID = "C18"
RULE = ("Histories of up to 25 calls of every setter with valid and invalid values, and runs, on "
        "every class; after each call every getter is compared with a dictionary model. At the end "
        "the object is run and compared, from the same random state, with a new object given the "
        "final settings directly. Non-trivial: at least two accepted and one rejected call. "
        "Sensitivity: the same object with one setting changed gives other results. Constructors: "
        "one flaw in otherwise valid arguments.")

KINDS = ("linear-none", "linear-normal", "qr", "chaos1", "chaos", "kriging", "signal", "hitmiss",
         "summary", "sobol", "pli")
METHODS = ("LinearGauss", "LinearBinomial", "LinearKernelSmoothing", "QuantileRegression",
           "PolynomialChaos", "Kriging")


class S(object):
    """A setting: setter, getter, default, values, invalid values, normalisation."""

    def __init__(self, name, default, valid, invalid=(), norm=None, getter=None, cheap=None,
                 resets=None, equal=None):
        self.name = name
        self.default = default
        self.valid = list(valid)
        self.invalid = list(invalid)
        self.norm = norm or (lambda v: v)
        self.getter = getter or "get" + name
        self.cheap = cheap
        self.resets = resets
        self.equal = equal or (lambda a, b: type(a) is type(b) and a == b)


UNSET = "unset"     # no value before the run, chosen by the run


def obj_equal(a, b):
    if a is b:
        return True
    if a is None or b is None:
        return False
    return repr(a) == repr(b) or str(a) == str(b)


def arr_equal(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-13 * (1 + np.abs(b))))


def num_equal(a, b):
    return not isinstance(a, bool) and isinstance(a, (int, float, np.number)) and a == b


def sorted_array(v):
    return np.sort(np.ravel(np.array(v, dtype=float)))


def sizes_setting(lo, hi, k, default):
    w = hi - lo
    inner = [lo + t * w for t in (0.81, 0.1, 0.43)]
    valid = [[hi, lo], tuple(inner), np.array(inner), [lo + 0.5 * w, lo],
             [[inner[1]], [inner[0]]], [lo + 0.2 * w, hi, lo + 0.7 * w, lo + 0.3 * w]]
    invalid = [[lo - 0.01 * w, hi], [lo, hi + 0.01 * w], [hi + 0.1, lo - 0.1],
               np.array([lo + 0.5 * w, hi * 1.5 + 1]), [lo - 1.0, lo + 0.2 * w, hi]]
    return S("DefectSizes", default, valid, invalid, norm=sorted_array, cheap=0, equal=arr_equal)


def joint(dim, k):
    m = [ot.Uniform(0.1, 3.1)] + [ot.Uniform(-1.5, 1.2) if j % 2 else ot.Normal(2, 0.5)
                                  for j in range(1, dim)]
    if k == 1:
        m = [ot.Normal(1.5, 0.4)] + [ot.Uniform(-1, 0) if j % 2 else ot.Uniform(1.5, 2.5)
                                     for j in range(1, dim)]
    if k == 2 and dim > 1:
        r = ot.CorrelationMatrix(dim)
        r[0, dim - 1] = 0.4
        return ot.JointDistribution(m, ot.NormalCopula(r))
    return ot.JointDistribution(m)


def settings(kind, dim, xr):
    """The settings of a class; xr: the retained input sample."""
    lo, hi = float(xr[:, 0].min()), float(xr[:, 0].max())
    flag = S("Verbose", False if kind in ("linear-none",) else True, [False, False, True],
             [1, 0, "True", None])
    if kind in ("sobol", "pli"):
        flag = None
    sim = S("SimulationSize", 1000, [4, 9, 13], cheap=0, equal=num_equal)
    # the analysis and POD classes have verbosity on by default
    if flag is not None:
        flag.default = True
    if kind.startswith("linear"):
        return [sim, flag]
    if kind == "qr":
        q = S("Quantile", np.linspace(0.05, 0.98, 21),
              [[0.5, 0.2, 0.8], (0.3, 0.6), np.array([0.9, 0.1]), [0.05, 0.95, 0.4, 0.6]],
              [[0.0, 0.5], [0.5, 1.0], [-0.1, 0.3], [0.2, 1.5], [2.0, -1.0]],
              norm=sorted_array, cheap=0, equal=arr_equal)
        return [sim, q, flag]
    if kind == "summary":
        return [sim, S("SamplingSize", 5000, [10, 25, 40], cheap=0, equal=num_equal), flag]
    bad_dist = [ot.Normal(), "Normal", 3, ot.Uniform(), None, ot.Normal(dim)]
    if kind in ("sobol", "pli"):
        bad_dist = bad_dist + [joint(dim + 1, 0), joint(dim + 1, 1), ot.JointDistribution([ot.Normal()])]
        m = [ot.Uniform(-1.5, 1.2), ot.Normal(2, 0.5)]
        n = [ot.Normal(0, 0.4), ot.Uniform(1.2, 2.5)]
        dist = S("Distribution", UNSET, [ot.JointDistribution(m), ot.JointDistribution(n)],
                 bad_dist, equal=obj_equal)
        size = sizes_setting(lo, hi, 0, UNSET)
        if kind == "sobol":
            meth = S("SensitivityMethod", "Saltelli", ["Jansen", "MauntzKucherenko", "Saltelli"],
                     ["Sobol", "saltelli", "", None, 3])
            return [S("SimulationSize", 1000, [20, 35], cheap=0, equal=num_equal), dist, size, meth]
        gk = S("GaussKronrod", UNSET, [
            ot.GaussKronrod(30, 1e-4, ot.GaussKronrodRule(ot.GaussKronrodRule.G11K23)),
            ot.GaussKronrod(60, 1e-6, ot.GaussKronrodRule(ot.GaussKronrodRule.G7K15))],
            ["G7K15", "x", [1, 2]], equal=obj_equal)
        return [S("SamplingSize", 10000, [60, 90], cheap=0, equal=num_equal), dist, size, gk]
    dist = S("Distribution", UNSET, [joint(dim, 0), joint(dim, 1), joint(dim, 2)], bad_dist,
             equal=obj_equal)
    size = sizes_setting(lo, hi, 0, np.linspace(lo, hi, 10 if kind == "signal" else 20))
    N = S("SamplingSize", 10000 if kind == "hitmiss" else 5000, [15, 30, 45], cheap=0,
          equal=num_equal)
    if kind in ("chaos", "chaos1"):
        bas = ot.OrthogonalProductPolynomialFactory([ot.LegendreFactory()] * dim)
        ad = S("AdaptiveStrategy", UNSET,
               [ot.FixedStrategy(bas, 3), ot.FixedStrategy(bas, 2)], ["x", [1, 2], "Fixed"],
               equal=obj_equal)
        pr = S("ProjectionStrategy", UNSET,
               [ot.LeastSquaresStrategy()], ["x", [1, 2], "LeastSquares"], equal=obj_equal)
        deg = S("Degree", 3, [1, 2], equal=num_equal)
        res = S("PolynomialChaosResult", UNSET, [], ["x", [1, 2]], equal=obj_equal)
        return [sim, N, size, dist, deg, ad, pr, res, flag]
    out = [N, size, dist, flag]
    if kind in ("kriging", "signal"):
        out.append(sim)
        # the first choices are those whose fit of the covariance parameters is cheap
        out.append(S("InitialStartSize", 100, [0, 3], cheap=0, equal=num_equal))
        out.append(S("Basis", UNSET, [ot.ConstantBasisFactory(dim).build(),
                                      ot.LinearBasisFactory(dim).build()], ["x", "Constant"],
                     equal=obj_equal))
        out.append(S("CovarianceModel", UNSET, [ot.MaternModel([0.7] * dim, 2.5),
                                                ot.SquaredExponential([1.3] * dim)],
                     ["x", [1, 2], "Matern"], equal=obj_equal))
        if kind == "kriging":
            out.append(S("KrigingResult", UNSET, [], ["x", 3, None], equal=obj_equal))
            return out
    out.append(S("CandidateSize", 1000 if kind == "signal" else 5000, [6, 12], cheap=0,
                 equal=num_equal))
    out.append(S("GraphActive", False, [False], [1, "True", None]))
    if kind == "hitmiss":
        out.append(S("PMin", 0.45, [0.2, 0.0, 0.4], [-0.1, 1.1, 2], equal=num_equal))
        out.append(S("PMax", 0.52, [0.8, 1.0, 0.55], [-0.1, 1.01, -3], equal=num_equal))
        out.append(S("ClassifierType", "rf", ["svc", "rf"], ["knn", "RF", "", None, 1],
                     resets=("ClassifierParameters", {
                         "svc": [[1.0], ["poly"], [3], [True]],
                         "rf": [[100], [None], [2], [0]]})))
        out.append(S("ClassifierParameters", [[100], [None], [2], [0]], [
            # the values are chosen for the current classifier
            {"rf": [[8], [None], [2], [0]], "svc": [[2.0], ["linear"], [1], [True]]},
            {"rf": [[5, 9], [3], [2], [0]], "svc": [[0.5, 5.0], ["rbf"], [2], [True]]}]))
    return out


@st.composite
def cases(draw, kinds=KINDS):
    kind = draw(choice(*kinds))
    op = st.tuples(st.integers(0, 12), st.integers(0, 11), st.booleans())
    return {"kind": kind, "seed": draw(SEEDS), "n": draw(st.integers(24, 36)),
            "dim": draw(choice(2, 3)), "cens": draw(st.booleans()),
            "boxcox": draw(choice(False, False, 0.5)),
            # setting left at its default for the last run
            "keep": draw(st.integers(0, 8)),
            "cls": draw(choice("mean", "variance")), "pod": draw(choice("chaos", "kriging")),
            "ops": [list(t) for t in draw(st.lists(op, min_size=8, max_size=25))],
            "runs": draw(st.lists(st.integers(0, 24), max_size=2, unique=True))}


def make(c):
    """(factory of objects, settings, dimension)."""
    kind = c["kind"]
    dim = 1 if kind.startswith("linear") or kind in ("qr", "chaos1") else c["dim"]
    if kind in ("sobol", "pli"):
        dim = 3
    x, y = builders.data(c["seed"], c["n"], max(dim, 1), offset=20)
    noise = sat = None
    if c["cens"]:
        s = np.sort(y)
        noise, sat = float(0.5 * (s[1] + s[2])), float(0.5 * (s[-3] + s[-2]))
    keep = np.ones(len(y), dtype=bool) if noise is None else (y > noise) & (y < sat)
    det = float(np.median(y[keep]))
    bc = c["boxcox"]
    if kind == "hitmiss":
        xr = x
        bc = False
        noise = sat = None
    else:
        xr = x[keep]
    if kind == "summary":
        def f():
            return otpod.PODSummary(x, col(y), det, noise, sat, bc)
    elif kind in ("sobol", "pli"):
        base = builders.build(c["pod"], x, y, det, noise, sat, bc)
        base.setDefectSizes([xr[:, 0].min(), np.median(xr[:, 0]), xr[:, 0].max()])
        base.setSamplingSize(10)
        base.setSimulationSize(3)
        if c["pod"] == "kriging":
            base.setInitialStartSize(0)
        else:
            base.setDegree(1)
        fresh(c["seed"])
        base.run()

        def f():
            if kind == "sobol":
                return otpod.SobolIndices(base, 30)
            if c["cls"] == "mean":
                return otpod.PLIMean(base, [-0.3, 0.0, 0.4])
            return otpod.PLIVariance(base, [0.7, 1.0, 1.3])
    else:
        def f():
            # physical models are in the scale of the signals
            p = builders.physical(x.shape[1])
            model = ot.PythonFunction(x.shape[1], 1, lambda v: [20 + p(v)[0]])
            pod = builders.build(kind, x, y, det, noise, sat, bc, model=model, more=1)
            return pod
    sett = settings(kind, 2 if kind in ("sobol", "pli") else dim, xr)
    return f, sett, dim


def getters(obj, sett):
    out = {}
    with contextlib.redirect_stdout(io.StringIO()):
        for s in sett:
            out[s.name] = getattr(obj, s.getter)()
        if hasattr(obj, "getMethodActive"):
            out["methods"] = dict(obj.getMethodActive())
    return out


def compare(obj, sett, model, what):
    got = getters(obj, sett)
    for s in sett:
        want = model[s.name]
        if want is UNSET:
            continue
        if want is None:
            expect(got[s.name] is None, "%s: %s is %r, it was never set", what, s.getter,
                   got[s.name])
            continue
        expect(s.equal(got[s.name], want), "%s: %s is %r instead of %r", what, s.getter,
               got[s.name], want)
    if "methods" in model:
        expect(got["methods"] == model["methods"], "%s: getMethodActive is %r instead of %r", what,
               got["methods"], model["methods"])


def initial(c, sett):
    m = {}
    for s in sett:
        m[s.name] = s.default
        if s.default is UNSET and c["kind"] not in ("sobol", "pli"):
            m[s.name] = None
    if c["kind"] == "summary":
        m["methods"] = {k: True for k in METHODS}
    return m


def call(obj, name, value, quiet, what):
    """A valid call: no exception and, with verbosity off, nothing printed."""
    _, text = sut_out(what, getattr(obj, "set" + name), value)
    expect(not quiet or text == "", "%s prints %r although verbosity is off", what, text)


def results(c, obj, dim):
    """What a run computed, as a list of arrays."""
    kind = c["kind"]
    out = []
    if kind == "sobol":
        r = obj.getSensitivityResult()
        out.append(np.array(obj.getDefectSizes()))
        out.append(np.array(r.getAggregatedFirstOrderIndices()))
        out.append(np.array(r.getAggregatedTotalOrderIndices()))
        return out
    if kind == "pli":
        return [np.array(obj.getDefectSizes()), np.array(obj.getIndices())]
    if kind == "summary":
        for m in METHODS:
            try:
                pod = getattr(obj, "get%sPOD" % m)()
            except Exception:
                out.append(np.array([-1.0]))
                continue
            if m in ("PolynomialChaos", "Kriging"):
                t = np.ravel(pod.getDefectSizes())
            else:
                t = np.linspace(0.3, 1.2, 5)
            out.append(np.array([[float(f([float(a)])[0]) for a in t]
                                 for f in (pod.getPODModel(), pod.getPODCLModel(0.9))]))
        return out
    if kind.startswith("linear"):
        t = np.linspace(0.3, 2.9, 9)
    elif kind == "qr":
        t = np.linspace(0.3, 1.2, 9)
    else:
        t = np.ravel(obj.getDefectSizes())
        t = np.concatenate([t, 0.5 * (t[1:] + t[:-1])])
    for f in (obj.getPODModel(), obj.getPODCLModel(0.9), obj.getPODCLModel(0.6)):
        out.append(np.array([float(f([float(a)])[0]) for a in t]))
    if kind in ("signal", "hitmiss"):
        out.append(np.array(obj.getInputDOE()))
        out.append(np.array(obj.getOutputDOE()))
    return out


def same(a, b, exact=True):
    return len(a) == len(b) and all(
        u.shape == v.shape and np.allclose(u, v, 1e-9, 1e-9, equal_nan=True) for u, v in zip(a, b))


def execute(obj, seed, quiet, what):
    """None when the run is rejected by the library."""
    fresh(seed)
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(io.StringIO()):
            obj.run()
    except Exception as e:
        return e, buf.getvalue()
    expect(not quiet or buf.getvalue() == "", "%s prints %r although verbosity is off", what,
           buf.getvalue()[:80])
    return None, buf.getvalue()


def check(c):
    kind = c["kind"]
    f, sett, dim = make(c)
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            obj = f()
        except Exception as e:
            raise Violation("valid constructor arguments raise %r" % e)
    model = initial(c, sett)
    if "Verbose" in model:
        model["Verbose"] = obj.getVerbose() if kind == "summary" else False
        if kind == "summary":
            expect(model["Verbose"] is True, "verbosity is not on by default")
    explicit = {}
    compare(obj, sett, model, "at construction")
    rerun = kind not in ("signal", "hitmiss")
    expensive = [s for s in sett if s.cheap is not None]
    valid = invalid = runs = 0

    def quiet():
        return model.get("Verbose", True) is False

    def apply(s, v, what):
        if isinstance(v, dict):
            v = v[model["ClassifierType"]]
        before = repr(v)
        call(obj, s.name, v, quiet() or s.name == "Verbose" and v is False, what)
        expect(repr(v) == before, "%s modifies the caller's value: %s, was %s", what, repr(v),
               before)
        model[s.name] = explicit[s.name] = s.norm(v)
        if s.resets:
            model[s.resets[0]] = s.resets[1][v]
            explicit.pop(s.resets[0], None)

    for k, (i, j, ok) in enumerate(c["ops"]):
        if k in c["runs"] and rerun:
            # cheap values for what is still at its default
            for s in expensive:
                if s.name not in explicit:
                    apply(s, s.valid[s.cheap], "set%s" % s.name)
            if kind == "summary":
                continue
            err, _ = execute(obj, c["seed"] + k, quiet(), "run")
            if err is None:
                runs += 1
                after = getters(obj, sett)
                if kind == "sobol":
                    got = set(np.ravel(after["DefectSizes"]).tolist())
                    if model["DefectSizes"] is not UNSET:
                        expect(got <= set(np.ravel(model["DefectSizes"]).tolist()),
                               "sizes %r appear in a run with %r", got, model["DefectSizes"])
                    model["DefectSizes"] = explicit["DefectSizes"] = np.array(sorted(got))
                for s in sett:
                    if model[s.name] is None:
                        model[s.name] = UNSET
            else:
                # the reference must raise as well: decided by the last run only
                for s in sett:
                    if model[s.name] is None:
                        model[s.name] = UNSET
            compare(obj, sett, model, "after run")
        if kind == "summary" and i % 2:
            # methods
            name = METHODS[j % 6] if ok or j % 2 else ("kriging", "Foo", "LinearNormal")[j % 3]
            v = bool(i % 4 == 1)
            if ok:
                sut_out("setMethodActive(%r)" % name, obj.setMethodActive, name, v)
                model["methods"][name] = v
                valid += 1
            else:
                if name in METHODS:
                    v = (1, 0, "True", None)[i % 4]
                must_raise("setMethodActive(%r, %r)" % (name, v), obj.setMethodActive, name, v)
                invalid += 1
            compare(obj, sett, model, "after setMethodActive(%r, %r)" % (name, v))
            continue
        s = sett[i % len(sett)]
        pool = s.valid if ok else s.invalid
        if not pool:
            continue
        v = pool[j % len(pool)]
        if ok:
            what = "set%s(%s)" % (s.name, str(v)[:60].replace("\n", " "))
            apply(s, v, what)
            valid += 1
        else:
            what = "rejected set%s(%s)" % (s.name, str(v)[:60].replace("\n", " "))
            must_raise(what[9:], getattr(obj, "set" + s.name), v)
            invalid += 1
            if s.name == "GraphActive":
                must_raise("setGraphActive(True, directory=3)", obj.setGraphActive, True, None,
                           None, 3)
        compare(obj, sett, model, "after %s" % what)

    # the last run: cheap values, except for one setting left at its default
    left = None
    for k, s in enumerate(expensive):
        if s.name in explicit:
            continue
        if left is None and not c["boxcox"] and k == c["keep"] % len(expensive) and (
                kind not in ("sobol", "pli", "summary", "signal") and s.name != "CandidateSize"):
            left = s.name
            continue
        apply(s, s.valid[s.cheap], "set%s" % s.name)
    if kind == "summary":
        for m in ("QuantileRegression", "LinearKernelSmoothing"):
            sut_out("setMethodActive", obj.setMethodActive, m, False)
            model["methods"][m] = False
        if not any(model["methods"].values()):
            sut_out("setMethodActive", obj.setMethodActive, "LinearBinomial", True)
            model["methods"]["LinearBinomial"] = True
    compare(obj, sett, model, "before the last run")
    err, text = execute(obj, c["seed"], quiet(), "run")
    # a new object with every setting given explicitly
    with contextlib.redirect_stdout(io.StringIO()):
        ref = f()
        for s in sett:
            v = model[s.name]
            if v is None or v is UNSET or s.name in ("KrigingResult", "PolynomialChaosResult"):
                continue
            getattr(ref, "set" + s.name)(v)
        if "Verbose" in model:
            ref.setVerbose(False)
        for m, v in model.get("methods", {}).items():
            ref.setMethodActive(m, v)
    rerr, _ = execute(ref, c["seed"], True, "run")
    if err is not None or rerr is not None:
        expect((err is None) == (rerr is None),
               "run after the history: %r, of a new object with the same settings: %r", err, rerr)
        return Info(nontrivial=False, labels=[kind, "run rejected"])
    a, b = results(c, obj, dim), results(c, ref, dim)
    if not same(a, b):
        raise Violation("after the history the run gives %s, a new object with the same settings "
                        "gives %s" % tuple([u.tolist() for u in t][:3] for t in (a, b)))
    if kind in ("chaos", "chaos1", "kriging") and not quiet():
        expect(text != "", "nothing is printed although verbosity is on")
    return Info(nontrivial=valid >= 2 and invalid >= 1,
                labels=[kind, "runs %d" % runs, "left at default %s" % left])


# --------------------------------------------------------------------------
# a changed setting changes the results
# --------------------------------------------------------------------------
# settings whose change must change the results; InitialStartSize, PMin, PMax, CandidateSize,
# GaussKronrod and ProjectionStrategy need not, and a forest may ignore the other parameters
EFFECT = {"SimulationSize": (5, 30), "SamplingSize": (200, 230), "Degree": (1, 2),
          "Distribution": (0, 1), "Basis": (0, 1), "CovarianceModel": (0, 1),
          "AdaptiveStrategy": (0, 1), "SensitivityMethod": (0, 2), "ClassifierType": (0, 1)}
PAIRS = [(k, n) for k, ns in (
    ("linear-normal", ["SimulationSize"]), ("qr", ["SimulationSize"]),
    ("chaos", ["SimulationSize", "SamplingSize", "Degree", "Distribution", "AdaptiveStrategy"]),
    ("chaos1", ["SimulationSize", "SamplingSize", "Degree"]),
    ("kriging", ["SimulationSize", "SamplingSize", "Distribution", "Basis", "CovarianceModel"]),
    ("hitmiss", ["Distribution", "ClassifierType"]),
    ("sobol", ["SimulationSize", "Distribution", "SensitivityMethod"]),
    ("pli", ["SamplingSize", "Distribution"])) for n in ns]


@st.composite
def sens_cases(draw):
    kind, name = draw(choice(*PAIRS))
    return {"kind": kind, "name": name,
            "seed": draw(SEEDS), "n": draw(st.integers(26, 36)), "dim": draw(choice(2, 3)),
            "cens": draw(st.booleans()), "boxcox": draw(choice(False, False, 0.5)),
            "cls": draw(choice("mean", "variance")), "pod": draw(choice("chaos", "kriging"))}


def check_sensitivity(c):
    kind = c["kind"]
    f, sett, dim = make(c)
    if kind == "sobol" and c["name"] == "SimulationSize" and c["pod"] == "kriging":
        raise Reject("no simulation")
    s = [t for t in sett if t.name == c["name"]][0]
    u, v = EFFECT[s.name]
    if s.name not in ("SimulationSize", "SamplingSize", "Degree"):
        u, v = s.valid[u], s.valid[v]
    outs = []
    for value in (u, v, u):
        with contextlib.redirect_stdout(io.StringIO()):
            obj = f()
            if kind not in ("sobol", "pli"):
                obj.setVerbose(False)
            for t in sett:
                if t.cheap is not None:
                    x = t.valid[t.cheap]
                    if t.name in ("SimulationSize", "SamplingSize") and kind not in ("pli",):
                        x = 8 if t.name == "SimulationSize" else 200
                    if t.name == "DefectSizes":
                        lo, hi = min(t.valid[0]), max(t.valid[0])
                        x = list(lo + (hi - lo) * np.linspace(0.2, 0.8, 9))
                    getattr(obj, "set" + t.name)(x)
            if kind == "hitmiss" and s.name != "ClassifierType":
                obj.setClassifierType("rf")
                if s.name != "ClassifierParameters":
                    obj.setClassifierParameters([[8], [None], [2], [0]])
            if kind in ("chaos", "chaos1"):
                # no selection of the terms
                obj.setProjectionStrategy(ot.LeastSquaresStrategy())
            getattr(obj, "set" + s.name)(value)
        err, _ = execute(obj, c["seed"], True, "run")
        if err is not None:
            raise Reject("the run is rejected")
        outs.append(results(c, obj, dim))
        if kind in ("chaos", "chaos1"):
            outs[-1].append(np.array(obj.getCoefficientDistribution().getMean()))
        if kind == "kriging":
            r = obj.getKrigingResult()
            outs[-1].append(np.ravel(r.getTrendCoefficients()))
            outs[-1].append(np.ravel(r.getMetaModel()(ot.Sample([[0.3] * dim, [-0.2] * dim]))))
    expect(same(outs[0], outs[2]), "two identical objects with the same seed differ")
    a = np.concatenate([np.ravel(t) for t in outs[0]])
    if kind not in ("sobol", "pli"):
        inner = np.sum((outs[0][0][:9] > 0.05) & (outs[0][0][:9] < 0.95))
        if inner < 2:
            raise Reject("the POD is 0 or 1")
    elif kind == "pli" and np.sum(np.isfinite(a)) < 6:
        raise Reject("the POD is 0 or 1")
    if same(outs[0], outs[1]):
        raise Violation("set%s has no effect: %s and %s give the same results" % (s.name, u, v))
    return Info(nontrivial=True, labels=[kind, s.name])


# --------------------------------------------------------------------------
# constructors
# --------------------------------------------------------------------------
FLAWS = [(k, f) for k in ("linear", "qr", "analysis", "chaos", "kriging", "signal", "hitmiss")
         for f in ("none", "few", "shorter", "longer", "signal2") +
         (("input2",) if k in ("linear", "qr", "analysis") else ()) +
         (("input1",) if k in ("kriging", "signal") else ())]
FLAWS += [(k, f) for k in ("sobol", "pli") for f in ("none", "type", "input1")]


@st.composite
def ctor_cases(draw):
    kind, flaw = draw(choice(*FLAWS))
    return {"kind": kind, "seed": draw(SEEDS), "n": draw(st.integers(12, 24)), "flaw": flaw,
            "m": draw(st.integers(1 if flaw == "few" else 0, 2)), "container": draw(choice("array", "sample", "list"))}


def check_constructor(c):
    kind, flaw = c["kind"], c["flaw"]
    uni = kind in ("linear", "qr", "analysis")
    dim = 1 if uni else 2
    x, y = builders.data(c["seed"], c["n"], dim, offset=20)
    y = y[:, None]
    det = float(np.median(y))
    ok = flaw == "none"
    if flaw == "few":
        x, y = x[:c["m"]], y[:c["m"]]
    elif flaw == "shorter":
        y = y[:len(y) - 1 - c["m"]]
    elif flaw == "longer":
        x = x[:len(x) - 1 - c["m"]]
    elif flaw == "signal2":
        y = np.column_stack([y, y])
    elif flaw == "input2":
        x = np.column_stack([x, x])
    elif flaw == "input1":
        x = x[:, :1]
    model = builders.physical(2)
    X, Y = builders.wrap(x, c["container"]), builders.wrap(y, c["container"])
    if kind == "linear":
        def f():
            return otpod.UnivariateLinearModelPOD(X, Y, det)
    elif kind == "analysis":
        def f():
            return otpod.UnivariateLinearModelAnalysis(X, Y)
    elif kind == "qr":
        def f():
            return otpod.QuantileRegressionPOD(X, Y, det)
    elif kind == "chaos":
        def f():
            return otpod.PolynomialChaosPOD(X, Y, det)
    elif kind == "kriging":
        def f():
            return otpod.KrigingPOD(X, Y, det)
    elif kind == "signal":
        def f():
            return otpod.AdaptiveSignalPOD(X, Y, model, 1, det)
    elif kind == "hitmiss":
        def f():
            return otpod.AdaptiveHitMissPOD(X, Y, model, 1, det)
    else:
        # dim + 1 inputs: the defect and two parameters are needed
        d = 2 if flaw == "input1" else 3
        x, y = builders.data(c["seed"], c["n"] + 10, d, offset=20)
        det = float(np.median(y))
        if flaw == "type":
            pod = (builders.build("linear-none", x, y, det), builders.build("qr", x, y, det),
                   "POD")[c["m"]]
            if c["m"] == 0:
                pod.setSimulationSize(3)
                pod.run()
        else:
            pod = builders.build("chaos", x, y, det)
            builders.configure("chaos", pod, sizes=[float(np.median(x[:, 0])), x[:, 0].max()])
            pod.run()

        def f():
            if kind == "sobol":
                return otpod.SobolIndices(pod, 20)
            return otpod.PLIMean(pod, [0.1])
    what = "%s with flaw %s" % (kind, flaw)
    if ok:
        sut_out(what, f)
    else:
        must_raise(what, f)
    return Info(nontrivial=not ok, labels=[kind, flaw])


SUBS = [Sub("history", cases(), check, 360, 12000),
        Sub("sensitivity", sens_cases(), check_sensitivity, 120, 3000),
        Sub("constructors", ctor_cases(), check_constructor, 160, 3000)]
