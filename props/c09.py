"""C09: detection sizes invert the POD curves."""
import math

import numpy as np
import openturns as ot
import otpod
from hypothesis import strategies as st
from scipy import optimize

from harness import Info, Reject, Sub, Violation, call1, expect, fresh, must_raise, sut
from props import builders as B
from props.common import SEEDS, boxcox, choice, qr_crossing_ok, qr_crossings, split

ID = "C09"
RULE = ("Every POD class on seeded data (linear x 3 hypotheses, quantile regression, chaos in "
        "dimension 1 and 2, kriging, adaptive signal, adaptive hit/miss), with or without "
        "thresholds, 3 to 6 defect sizes, probability levels k/100 in [0.01, 0.99], confidence "
        "levels k/100. Non-trivial: at least one level is attained and its size lies strictly "
        "inside the interval.")


@st.composite
def cases(draw, kinds=B.FAST):
    return {"seed": draw(SEEDS), "kind": draw(choice(*kinds)), "n": draw(st.integers(24, 40)),
            "noise": draw(choice(0.5, 1.5)), "det": draw(choice(0.5, 0.35, 0.65)),
            "cens": draw(choice("none", "none", "low", "both", "sat")),
            "bc": draw(choice(None, None, 0.5, 0.0)),
            "ns": draw(st.integers(3, 6)),
            "p": draw(st.lists(st.integers(1, 99), min_size=2, max_size=5, unique=True)),
            "c": draw(st.lists(st.integers(5, 99), min_size=1, max_size=2, unique=True))}


def label_p(p):
    return "a%d" % p


def bracket(what, f, a, p, lo, hi, tol):
    """p lies between values of the curve in the neighbourhood of a."""
    expect(lo - 1e-9 <= a <= hi + 1e-9, "%s = %r is outside [%r, %r]", what, a, lo, hi)
    pts = np.clip([a - tol, a - 0.5 * tol, a, a + 0.5 * tol, a + tol], lo, hi)
    v = [f(t) for t in pts]
    expect(min(v) - 2e-4 <= p <= max(v) + 2e-4,
           "%s = %r but the curve takes the values %r around it, the level is %r", what, a,
           (min(v), max(v)), p)


def check(c):
    x, y = B.data(c["seed"], c["n"], 2, c["noise"], 8.0)
    s = np.sort(y)
    noise = 0.5 * (s[2] + s[3]) if c["cens"] != "none" else None
    sat = 0.5 * (s[-2] + s[-3]) if c["cens"] == "both" else None
    kind = c["kind"]
    if c["cens"] == "sat":
        # many saturated signals: the curve goes on beyond the retained sizes
        k = int(0.75 * len(s))
        sat = 0.5 * (s[k] + s[k - 1])
    keep, _, _ = split(x, y, noise, sat)
    keep = np.array(keep)
    det = float(np.quantile(y[keep], 0.95 if c["cens"] == "sat" else c["det"]))
    lo, hi = float(x[keep, 0].min()), float(x[keep, 0].max())
    sizes = np.linspace(lo, hi, c["ns"])
    if c["ns"] % 2:
        sizes = sizes[1:]
    bc = False if c["bc"] is None else c["bc"]
    if y.min() <= 0:
        raise Reject("signal")
    pod = sut("constructor", B.build, kind, x, y, det, noise, sat, bc, more=4)
    z, dz = y[keep], det
    if c["bc"] is not None:
        z, dz = boxcox(z, bc), float(boxcox([det], bc)[0])
    B.configure(kind, pod, sizes)
    if kind in ("qr", "linear-logistic"):
        try:
            B.run(pod, c["seed"])
        except Exception:
            raise Reject("resample without crossing")
    else:
        sut("run", B.run, pod, c["seed"])
    if kind.startswith("linear"):
        # the whole sample, censored observations included
        lo, hi = float(x[:, 0].min()), float(x[:, 0].max())
    elif kind != "qr":
        lo, hi = float(sizes.min()), float(sizes.max())
    model = pod.getPODModel()
    f = lambda t: call1("POD", model, t)
    tol = 1e-4 * (1 + hi - lo)
    reached = 0
    grid = np.linspace(lo, hi, 40)
    if kind != "qr":
        vg = [f(t) for t in grid]
    prev = None
    levels = list(c["p"])
    if c["cens"] == "sat" and kind.startswith("linear"):
        # a level reached between the largest retained size and the largest size
        k = int(50 * (f(float(x[keep, 0].max())) + f(hi)))
        levels += [k] if 1 <= k <= 99 else []
    for k in sorted(set(levels)):
        p = k / 100.0
        try:
            r = pod.computeDetectionSize(p)
            ok = True
        except Exception as e:
            ok = False
        if kind == "qr":
            w = qr_crossings(x[keep, 0], z, 1 - p, dz)
            if ok:
                expect(lo - 1e-9 <= r[0] <= hi + 1e-9, "detection size %r outside [%r, %r]", r[0],
                       lo, hi)
                expect(qr_crossing_ok(x[keep, 0], z, 1 - p, dz, float(r[0]), hi - lo),
                       "a%d = %r, the %r quantile line meets detection at %r", k, r[0], 1 - p, w)
            else:
                expect(not all(lo + 1e-6 < t < hi - 1e-6 for t in w),
                       "computeDetectionSize(%r) raised although the line meets detection at %r",
                       p, w)
        else:
            a, b = f(lo), f(hi)
            if ok:
                expect(min(vg) - 1e-6 <= p <= max(vg) + 1e-6,
                       "computeDetectionSize(%r) = %r although the curve stays in [%r, %r]", p,
                       r[0], min(vg), max(vg))
                bracket("a%d" % k, f, float(r[0]), p, lo, hi, tol)
            else:
                expect(not a + 1e-9 < p < b - 1e-9,
                       "computeDetectionSize(%r) raised although the curve goes from %r to %r", p,
                       a, b)
            if ok and prev is not None and all(np.diff(vg) >= -1e-12):
                expect(r[0] >= prev - tol, "a%d = %r is below the size %r of a smaller level", k,
                       r[0], prev)
        if ok:
            expect(len(r) == 1, "%d sizes without confidence level", len(r))
            expect(list(r.getDescription()) == [label_p(k)], "label %r for level %r",
                   list(r.getDescription()), p)
            prev = float(r[0])
            reached += lo < r[0] < hi
        for kc in c["c"]:
            q = kc / 100.0
            try:
                rc = pod.computeDetectionSize(p, q)
                okc = True
            except Exception:
                okc = False
            try:
                mc = pod.getPODCLModel(q)
                g = lambda t: float(mc([float(t)])[0])
                a, b = g(lo), g(hi)
            except Exception:
                expect(kind == "qr", "the POD model at confidence level %r is not usable", q)
                continue
            if okc:
                expect(ok, "a size at confidence level is given, not the size itself")
                expect(len(rc) == 2, "%d sizes with a confidence level", len(rc))
                expect(list(rc.getDescription()) == [label_p(k), "a%d/%d" % (k, kc)],
                       "labels %r for levels %r, %r", list(rc.getDescription()), p, q)
                expect(abs(rc[0] - r[0]) <= 1e-12 + 1e-9 * abs(r[0]),
                       "a%d is %r alone and %r with a confidence level", k, r[0], rc[0])
                vals = [g(t) for t in grid]
                expect(min(vals) - 1e-6 <= p <= max(vals) + 1e-6,
                       "a%d/%d = %r although the curve stays in [%r, %r]", k, kc, rc[1],
                       min(vals), max(vals))
                bracket("a%d/%d" % (k, kc), g, float(rc[1]), p, lo, hi, tol)
                reached += lo < rc[1] < hi
            elif ok:
                expect(not a + 1e-9 < p < b - 1e-9,
                       "computeDetectionSize(%r, %r) raised although the curve goes from %r to %r",
                       p, q, a, b)
    return Info(nontrivial=reached > 0, labels=[kind, c["cens"]])


SUBS = [Sub("fast", cases(), check, 960, 20000),
        Sub("adaptive", cases(kinds=("signal", "hitmiss")), check, 96, 2000)]
