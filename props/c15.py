"""C15: the Sobol indices are those of the POD as a function of the other parameters."""
import math

import numpy as np
import openturns as ot
import otpod
from hypothesis import strategies as st
from scipy import stats

from harness import (Info, Reject, Sub, expect, expect_all_close, fresh, must_raise, sut)
from props.common import SEEDS, choice, col
from props.c11 import basis_of
from props.c12 import train

ID = "C15"
RULE = ("Seeded data with 2 or 3 parameters beside the defect, boxCox or not, chaos POD or kriging "
        "POD (model trained on normalised or original inputs), default or given distribution, any "
        "sensitivity algorithm, 2 to 4 defect sizes given in any order, some of them possibly with "
        "a POD that does not vary. Non-trivial: at least one size whose POD varies (standard "
        "deviation above 0.05), its POD at every point of the design "
        "being compared with an independent computation.")
METHODS = ("Saltelli", "Martinez", "Jansen", "MauntzKucherenko")


@st.composite
def cases(draw):
    return {"seed": draw(SEEDS), "n": draw(st.integers(30, 45)), "dim": draw(choice(3, 4)),
            "kind": draw(choice("chaos", "original", "normalised", "original", "chaos")),
            "perm": draw(st.integers(0, 5)),
            "inter": draw(choice(0.0, 1.0)), "sigma": draw(choice(0.4, 0.1, 0.8)),
            "boxcox": draw(choice(False, False, 0.5)),
            "dist": draw(choice("default", "given", "other")),
            "method": draw(choice(*METHODS)), "explicit": draw(st.booleans()),
            "sizes": draw(st.lists(st.integers(0, 40), min_size=2, max_size=4, unique=True)),
            "subset": draw(st.booleans()), "det": draw(choice(0.5, 0.35, 0.65)),
            "N": draw(choice(100, 60, 200)), "sim": draw(choice(40, 100)),
            "rerun": draw(choice(False, False, True))}


EFFECTS = (2.0, 1.0, -0.3)


def load(c):
    rs = np.random.RandomState(c["seed"] % 2 ** 32)
    n, d = c["n"], c["dim"]
    x = np.empty((n, d))
    x[:, 0] = rs.uniform(0.5, 3.5, n)
    eff = np.roll(EFFECTS[:d - 1], c["perm"])
    if c["perm"] >= 3:
        eff = eff[::-1]
    y = 30 + 3 * x[:, 0] + c["sigma"] * rs.randn(n)
    for j in range(1, d):
        x[:, j] = rs.uniform(-1, 1, n) if j != 2 else rs.normal(0.5, 0.6, n)
        y += eff[j - 1] * x[:, j]
    y += c["inter"] * x[:, 1] * x[:, 2]
    det = float(np.quantile(y, c["det"]))
    lo, hi = x[:, 0].min(), x[:, 0].max()
    sizes = [float(min(hi, max(lo, lo + k / 40.0 * (hi - lo)))) for k in c["sizes"]]
    return x, y, det, sizes


def marginals(c):
    m = [ot.Uniform(0.4, 3.6)]
    for j in range(1, c["dim"]):
        m.append(ot.Uniform(-1.1, 1.1) if j != 2 else ot.Normal(0.5, 0.7))
    return m


def conditional_pod(kind, pod, x, z, dt, sim, norm):
    """rs -> function of (matrix of other parameters, sizes) giving the POD, as the quirks say."""
    if kind == "chaos":
        res = pod.getPolynomialChaosResult()
        B = ot.ComposedFunction(ot.AggregatedFunction(res.getReducedBasis()),
                                res.getTransformation())
        p = len(res.getReducedBasis())
        pred = np.array(res.getMetaModel()(ot.Sample(x)))[:, 0]
        s = math.sqrt(((z - pred) ** 2).sum() / (len(z) - p - 1))
        law = pod.getCoefficientDistribution()

        def make(rs):
            # expectation over the residuals if there is no generator
            co = np.array(law.getSample(sim if rs is not None else 1500)).T

            def f(T, sizes):
                out = np.empty((len(T), len(sizes)))
                e = s * rs.randn(len(T), sim) if rs is not None else None
                for j, a in enumerate(sizes):
                    Y = np.array(B(ot.Sample(np.column_stack([np.full(len(T), a), T])))) @ co
                    if rs is None:
                        out[:, j] = stats.norm.sf((dt - Y) / s).mean(axis=1)
                    else:
                        out[:, j] = np.mean(Y + e > dt, axis=1)
                return out
            return f
        return {"": make}
    res = pod.getKrigingResult()
    cc = ot.GaussianProcessConditionalCovariance(res)
    mu, sd = x.mean(axis=0), x.std(axis=0, ddof=1)

    def maker(normalise, first):
        def make(rs):
            def f(T, sizes):
                out = np.empty((len(T), len(sizes)))
                v0 = None
                for j, a in enumerate(sizes):
                    U = np.column_stack([np.full(len(T), a), T])
                    if normalise:
                        U = (U - mu) / sd
                    U = ot.Sample(U)
                    m = np.array(cc.getConditionalMean(U)).ravel()
                    v = np.array(cc.getConditionalMarginalVariance(U)).ravel()
                    v = np.sqrt(np.maximum(v, 1e-300))
                    if v0 is None or not first:
                        v0 = v
                    out[:, j] = 1.0 - ot_cdf((dt - m) / v0)
                return out
            return f
        return make
    out = {"": maker(norm, False), "first": maker(norm, True)}
    if norm:
        out["raw"] = maker(False, False)
        out["raw first"] = maker(False, True)
    return out


def ot_cdf(t):
    return stats.norm.cdf(t)


def stats_of(A, k, d):
    """All the quantities of interest of a sensitivity algorithm with k outputs."""
    q = [np.array(A.getAggregatedFirstOrderIndices()), np.array(A.getAggregatedTotalOrderIndices())]
    for i in range(k):
        q.append(np.array(A.getFirstOrderIndices(i)))
        q.append(np.array(A.getTotalOrderIndices(i)))
    I, J = A.getFirstOrderIndicesInterval(), A.getTotalOrderIndicesInterval()
    w = np.concatenate([np.array(t.getUpperBound()) - np.array(t.getLowerBound()) for t in (I, J)])
    return np.array(q), w


class Spy(object):
    """Records the designs given to the sensitivity algorithms of OpenTURNS."""

    def __enter__(self):
        self.calls = []
        self.orig = {}
        for m in METHODS:
            n = m + "SensitivityAlgorithm"
            self.orig[n] = cls = getattr(ot, n)
            setattr(ot, n, self.wrap(n, cls))
        return self

    def wrap(self, name, cls):
        calls = self.calls

        class Recorder(cls):
            def __init__(self, *args):
                if len(args) == 3:
                    calls.append((name, np.array(args[0]), np.array(args[1]), args[2]))
                cls.__init__(self, *args)
        Recorder.__name__ = cls.__name__
        return Recorder

    def __exit__(self, *a):
        for n, cls in self.orig.items():
            setattr(ot, n, cls)


def same_indices(c, X, Y, A, kept, N):
    """The reported indices are those of the estimator on the design."""
    d = c["dim"] - 1
    B = getattr(ot, c["method"] + "SensitivityAlgorithm")(ot.Sample(X), ot.Sample(Y), N)
    B.setUseAsymptoticDistribution(True)
    try:
        want, wi = stats_of(B, len(kept), d)
    except Exception:
        # OpenTURNS has no Martinez index when a block of the design is constant
        return False
    got, gi = stats_of(A, len(kept), d)
    expect(np.isfinite(got).all(), "indices %r", got.tolist())
    expect_all_close("indices", got, want, 1e-9, 1e-9)
    expect_all_close("widths of the confidence intervals", gi, wi, 1e-7, 1e-9)
    return True


def judge_design(c, X, dist, N):
    """X is a pick-freeze design of the distribution."""
    d = c["dim"] - 1
    expect(X.shape == (N * (d + 2), d), "design of shape %r for N = %d and %d parameters", X.shape,
           N, d)
    A, B = X[:N], X[N:2 * N]
    for j in range(d):
        E = X[(2 + j) * N:(3 + j) * N]
        want = A.copy()
        want[:, j] = B[:, j]
        expect(np.array_equal(E, want), "block %d of the design is not the pick-freeze of "
               "parameter %d", j, j)
    for j in range(d):
        for blk in (A, B):
            u = np.array(dist.getMarginal(j).computeCDF(ot.Sample(blk[:, j:j + 1])))[:, 0]
            pv = stats.kstest(u, "uniform").pvalue
            expect(pv > 1e-9, "parameter %d of the design does not follow %s (p-value %r)", j,
                   dist.getMarginal(j), pv)
    expect(not np.array_equal(A, B), "the two halves of the design are equal")


def judge_outputs(c, makes, X, Y, kept, asked, N):
    """Key of the conditional POD in Y (k outputs); Violation if none."""
    expect(Y.shape == (len(X), len(kept)), "outputs of shape %r for the sizes %r", Y.shape, kept)
    why = None
    for key, mk in makes.items():
        fresh((c["seed"] + 1000) % 2 ** 31)
        P = mk(None)(X, asked)
        use = [int(np.argmin(np.abs(asked - a))) for a in kept]
        if c["kind"] == "chaos":
            S = c["sim"]
            Z = np.round(Y * S)
            msg = None
            if np.abs(Y * S - Z).max() > 1e-6:
                msg = "the POD is not a frequency over %d simulations" % S
            else:
                p = P[:, use]
                # p is itself a mean of exact conditional probabilities
                p1, p0 = np.minimum(p + 0.03, 1), np.maximum(p - 0.03, 0)
                lo, hi = stats.binom.cdf(Z, S, p0), stats.binom.sf(Z - 1, S, p1)
                bad = (lo < 1e-9) | (hi < 1e-9)
                if bad.any():
                    i, j = np.argwhere(bad)[0]
                    msg = "POD %r at size %r and parameters %r, the model gives %r" % (
                        Y[i, j], kept[j], list(X[i]), p[i, j])
                else:
                    # the residual noise is independent from a point to the other
                    inner = (p > 0.1) & (p < 0.9)
                    if inner.sum() > 30:
                        e = (Y - p)[inner]
                        if abs(e.mean()) > 7 * 0.5 / math.sqrt(S) + 0.03:
                            msg = "mean difference %r between the POD and the model" % e.mean()
                        q = (e ** 2 / (p * (1 - p) / S + 0.03 ** 2)[inner]).mean()
                        if msg is None and c["sim"] < 200 and q > 8:
                            msg = "dispersion %r of the POD around the model" % q
        else:
            p = P[:, use]
            msg = None
            bad = ~(np.abs(Y - p) <= 1e-5 + 1e-5 * p)
            if bad.any():
                i, j = np.argwhere(bad)[0]
                msg = "POD %r at size %r and parameters %r, the model gives %r" % (
                    Y[i, j], kept[j], list(X[i]), p[i, j])
            else:
                for j, a in enumerate(asked):
                    if j not in use and np.ptp(P[:N, j]) > 1e-9:
                        msg = "size %r was dropped, its POD varies from %r to %r" % (
                            a, P[:N, j].min(), P[:N, j].max())
        if msg is None:
            return key
        why = why or msg
    expect(False, "%s", why)


def judge_law(c, makes, A, kept, dist, N):
    """Used when the design cannot be observed: the indices against replicates."""
    d = c["dim"] - 1
    why = None
    got, _ = stats_of(A, len(kept), d)
    expect(np.isfinite(got).all(), "indices %r", got.tolist())
    for key, mk in makes.items():
        Q = []
        for r in range(14):
            fresh((c["seed"] + 1000 + r) % 2 ** 31)
            X = ot.SobolIndicesExperiment(dist, N, False).generate()
            Y = mk(np.random.RandomState((c["seed"] + r) % 2 ** 32))(np.array(X), kept)
            if (Y[:N].std(axis=0) < 0.05).any():
                return None
            B = getattr(ot, c["method"] + "SensitivityAlgorithm")(X, ot.Sample(Y), N)
            Q.append(stats_of(B, len(kept), d)[0])
        Q = np.array(Q)
        if (np.abs(got - Q.mean(axis=0)) <= 20 * Q.std(axis=0) + 0.05).all():
            return key
        why = why or "indices %r, expected %r" % (got.tolist(), Q.mean(axis=0).tolist())
    expect(False, "%s", why)


def check(c):
    x, y, det, sizes = load(c)
    d = c["dim"]
    norm = c["kind"] != "original"
    chaos = c["kind"] == "chaos"
    cls = otpod.PolynomialChaosPOD if chaos else otpod.KrigingPOD
    pod = sut(cls.__name__, cls, x, col(y), det, None, None, c["boxcox"])
    pod.setVerbose(False)
    z, dt = y, det
    if c["boxcox"] is not False:
        f = ot.BoxCoxTransform([float(c["boxcox"])])
        z, dt = np.array(f(ot.Sample(col(y))))[:, 0], f([det])[0]
    every = sizes if not c["subset"] else sizes + [float(x[:, 0].min()), float(x[:, 0].max())]
    sut("setDefectSizes", pod.setDefectSizes, every)
    m = marginals(c)
    if c["dist"] != "default":
        sut("setDistribution", pod.setDistribution, ot.JointDistribution(m))
    pod.setSamplingSize(20)
    pod.setSimulationSize(4)
    if chaos:
        base, size = basis_of(ot.JointDistribution(m), d, 2 if c["inter"] else 1)
        pod.setAdaptiveStrategy(ot.FixedStrategy(base, size))
        pod.setProjectionStrategy(ot.LeastSquaresStrategy())
    else:
        pod.setInitialStartSize(0)
        mu, sd = x.mean(axis=0), x.std(axis=0, ddof=1)
        scale = np.full(d, 1.5) if norm else 1.5 * sd
        U = (x - mu) / sd if norm else x
        cov = ot.MaternModel(list(scale), [0.6 * np.std(z)], 1.5)
        # a linear trend only along the defect: the sizes have different conditional variances
        v = ["x%d" % i for i in range(d)]
        bas = ot.Basis([ot.SymbolicFunction(v, ["1"]), ot.SymbolicFunction(v, ["x0"])])
        pod.setKrigingResult(train(U, z, cov, bas))
    fresh(c["seed"])
    sut("run", pod.run)

    N = c["N"]
    sob = sut("SobolIndices", otpod.SobolIndices, pod, N)
    own = sut("getDistribution", pod.getDistribution)
    dist = ot.JointDistribution([own.getMarginal(j) for j in range(1, d)])
    expect(sob.getDistribution() == dist, "default distribution %s, expected %s",
           sob.getDistribution(), dist)
    expect_all_close("default sizes", np.ravel(sob.getDefectSizes()), sorted(every), 0, 1e-15)
    must_raise("getSensitivityResult before run", sob.getSensitivityResult)
    if c["subset"]:
        sut("setDefectSizes", sob.setDefectSizes, sizes)
    if c["dist"] == "other":
        dist = ot.JointDistribution([ot.Uniform(-0.9, 0.2) if j != 2 else ot.Normal(0.9, 0.4)
                                     for j in range(1, d)])
        sut("setDistribution", sob.setDistribution, dist)
    if c["explicit"] or c["method"] != "Saltelli":
        sut("setSensitivityMethod", sob.setSensitivityMethod, c["method"])
    expect(sob.getSensitivityMethod() == c["method"], "getSensitivityMethod %r",
           sob.getSensitivityMethod())
    if chaos:
        sut("setSimulationSize", sob.setSimulationSize, c["sim"])
    asked = np.array(sorted(sizes))
    expect_all_close("getDefectSizes", np.ravel(sob.getDefectSizes()), asked, 0, 1e-15)
    if c["rerun"]:
        # a run with another distribution, other sizes and algorithm leaves no trace
        sob.setSensitivityMethod("Jansen" if c["method"] != "Jansen" else "Martinez")
        sob.setDistribution(ot.JointDistribution([ot.Uniform(-0.3, 0.8)] * (d - 1)))
        sob.setDefectSizes([float(np.median(x[:, 0]))])
        fresh(c["seed"] + 5)
        try:
            sob.run()
        except Exception:
            pass
        sob.setSensitivityMethod(c["method"])
        sob.setDistribution(dist)
        sob.setDefectSizes(sizes)
    # what varies
    makes = conditional_pod(c["kind"], pod, x, z, dt, c["sim"], norm)
    fresh(c["seed"] + 77)
    rs = np.random.RandomState((c["seed"] + 78) % 2 ** 32)
    T = np.array(dist.getSample(2000))
    pool = {k: mk(rs)(T, asked) for k, mk in makes.items()}
    var = {k: v.std(axis=0) for k, v in pool.items()}
    # probability that N points have the same POD, by the frequency of the most frequent value
    flat = {k: [(np.unique(v[:, i], return_counts=True)[1].max() / 2000.0) ** N
                for i in range(len(asked))] for k, v in pool.items()}
    if not all((v > 0.05).any() and min(flat[k]) < 1e-12 for k, v in var.items()):
        raise Reject("the POD does not vary")
    fresh(c["seed"])
    with Spy() as spy:
        sut("run of SobolIndices", sob.run)
    A = sut("getSensitivityResult", sob.getSensitivityResult)
    name = A.getClassName()
    if name == "SobolIndicesAlgorithm":
        name = A.getImplementation().getClassName()
    expect(name == c["method"] + "SensitivityAlgorithm", "algorithm %s", name)
    kept = np.ravel(sob.getDefectSizes())
    expect(len(kept) > 0 and all(np.min(np.abs(asked - a)) <= 1e-15 for a in kept)
           and (np.diff(kept) > 0).all(), "sizes %r after the run, %r asked", kept, asked)
    expect(any(all((kept == a).any() or flat[k][i] > 1e-9 for i, a in enumerate(asked))
               for k in makes), "sizes %r kept from %r: the POD varies at the others", kept, asked)
    calls = [t for t in spy.calls if t[0] == name]
    if calls:
        _, X, Y, n_ = calls[-1]
        expect(n_ == N, "N = %r instead of %r", n_, N)
        judge_design(c, X, dist, N)
        key = judge_outputs(c, makes, X, Y, kept, asked, N)
        ok = same_indices(c, X, Y, A, kept, N)
    else:
        ok = True
        key = judge_law(c, makes, A, kept, dist, N)
    known = []
    if key:
        known = ["kriging-unnormalised"] if "raw" in key else []
        known += ["kriging-first-variance"] if "first" in key else []
    return Info(nontrivial=any((v > 0.05).any() for v in var.values()), known=known,
                labels=[c["kind"], c["method"], c["dist"], "dim %d" % d,
                        "some sizes dropped" if len(kept) < len(asked) else "all sizes",
                        "indices compared" if ok else "no index for OpenTURNS",
                        "design observed" if calls else "design not observed",
                        "matches: %s" % (key or "the definition")])


SUBS = [Sub("indices", cases(), check, 400, 8000)]
