"""Small instances of every POD class, shared by several properties."""
import numpy as np
import openturns as ot
import otpod

from harness import fresh
from props.common import col, factory, split

KINDS = ("linear-none", "linear-normal", "linear-logistic", "qr", "chaos1", "chaos", "kriging",
         "signal", "hitmiss")
FAST = ("linear-none", "linear-normal", "linear-logistic", "qr", "chaos1", "chaos", "kriging")


def data(seed, n, dim=2, noise=0.5, offset=0.0):
    """Signals increasing with the first input, which is the defect size."""
    rs = np.random.RandomState(int(seed) % 2 ** 32)
    x = np.empty((n, dim))
    x[:, 0] = rs.uniform(0.2, 3.0, n)
    for j in range(1, dim):
        x[:, j] = rs.uniform(-1, 1, n) if j % 2 else rs.normal(2, 0.3, n)
    y = offset + 4 * x[:, 0] + 0.8 * x[:, 1:].sum(axis=1) + noise * rs.randn(n)
    return x, y


def physical(dim, t=float):
    def f(v):
        return [t(4 * v[0] + 0.8 * sum(v[1:]))]
    return ot.PythonFunction(dim, 1, f)


def wrap(v, container):
    v = np.array(v, dtype=float)
    if container == "sample":
        return ot.Sample(v)
    if container == "list":
        return v.tolist()
    if container == "tuple":
        return tuple(tuple(t) for t in v.tolist())
    if container == "fortran":
        return np.asfortranarray(v)
    return v


def build(kind, x, y, det, noise=None, sat=None, boxcox=False, container="array", model=None,
          more=2):
    """A POD object of the given kind on the given data (not run)."""
    uni = kind.startswith("linear") or kind in ("qr", "chaos1")
    X = wrap(x[:, :1] if uni else x, container)
    Y = wrap(np.array(y)[:, None], container)
    if kind.startswith("linear"):
        pod = otpod.UnivariateLinearModelPOD(X, Y, det, noise, sat,
                                             factory(kind.split("-")[1]), boxcox)
    elif kind == "qr":
        pod = otpod.QuantileRegressionPOD(X, Y, det, noise, sat, boxcox)
    elif kind in ("chaos", "chaos1"):
        pod = otpod.PolynomialChaosPOD(X, Y, det, noise, sat, boxcox)
    elif kind == "kriging":
        pod = otpod.KrigingPOD(X, Y, det, noise, sat, boxcox)
    elif kind == "signal":
        pod = otpod.AdaptiveSignalPOD(X, Y, model or physical(x.shape[1]), more, det, noise, sat,
                                      boxcox)
    elif kind == "hitmiss":
        pod = otpod.AdaptiveHitMissPOD(X, Y, model or physical(x.shape[1]), more, det, noise, sat)
    else:
        raise ValueError(kind)
    pod.setVerbose(False)
    return pod


def configure(kind, pod, sizes=None, sim=12, sampling=60, degree=1):
    """Cheap settings."""
    if kind == "qr":
        pod.setQuantile([0.2, 0.4, 0.5, 0.6, 0.8])
        pod.setSimulationSize(sim)
        return pod
    if kind.startswith("linear"):
        pod.setSimulationSize(sim)
        return pod
    if sizes is not None:
        pod.setDefectSizes(sizes)
    pod.setSamplingSize(sampling)
    if kind != "hitmiss":
        pod.setSimulationSize(sim)
    if kind in ("chaos", "chaos1"):
        pod.setDegree(degree)
    if kind in ("kriging", "signal"):
        pod.setInitialStartSize(0)
    if kind in ("signal", "hitmiss"):
        pod.setCandidateSize(25)
    if kind == "hitmiss":
        pod.setClassifierType("rf")
        pod.setClassifierParameters([[10], [None], [2], [0]])
    return pod


def run(pod, seed):
    fresh(seed)
    pod.run()
    return pod
