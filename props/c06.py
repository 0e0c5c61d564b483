"""C06: the reports of the linear analysis state the computed values."""
import os

import numpy as np
import openturns as ot
import otpod
from hypothesis import strategies as st
from scipy import stats

from harness import Info, Reject, Sub, Violation, expect, sut
from props.common import LAMBDAS, choice, col, factory, uni_cases, uni_data

ID = "C06"
RULE = ("As C05, the printed and the saved report are parsed cell by cell. Non-trivial: "
        "censored data, or a warning is due, or Box Cox is enabled.")


@st.composite
def cases(draw):
    c = draw(uni_cases(nmin=12, nmax=60, boxcox=("off", "off", "fixed", "true")))
    c["lam"] = draw(choice(0.333, *LAMBDAS))
    c["fact"] = draw(choice("default", "normal", "uniform", "logistic", "gumbel"))
    c["curve"] = draw(choice(0.0, 0.0, 3.0))
    c["flat"] = draw(choice(False, False, False, True))
    return c


ROWS = [("Box Cox parameter :", "bc"), ("", "head"), ("Intercept coefficient :", "getIntercept"),
        ("Slope coefficient :", "getSlope"),
        ("Standard error of the estimate :", "getStandardError"),
        ("Intercept coefficient :", "ci0"), ("Slope coefficient :", "ci1"), ("Level :", "level"),
        ("R2 (> 0.8):", "getR2"),
        ("Kolmogorov p-value (> 0.05):", "getKolmogorovPValue"),
        ("Anderson Darling p-value (> 0.05):", "getAndersonDarlingPValue"),
        ("Cramer Von Mises p-value (> 0.05):", "getCramerVonMisesPValue"),
        ("p-value (> 0.05):", "getZeroMeanPValue"),
        ("Breush Pagan p-value (> 0.05):", "getBreuschPaganPValue"),
        ("Harrison McCabe p-value (> 0.05):", "getHarrisonMcCabePValue"),
        ("Durbin Watson p-value (> 0.05):", "getDurbinWatsonPValue")]


def same(cell, value):
    """The cell is the value with two decimals (ties of the rounding are free)."""
    return abs(float(cell) - value) <= 0.005 + 1e-9 * max(1, abs(value)) and \
        abs(round(float(cell), 2) - float(cell)) < 1e-9 * max(1, abs(float(cell)))


def cells_of(line, printed):
    if not printed:
        return [t.strip() for t in line.split("\t")]
    label, rest = line[:47].strip(), line[47:]
    return [label, rest]


def check(c):
    x, y, noise, sat, keep, lo, hi = uni_data(c)
    if c["curve"]:
        y = y + c["curve"] * c["b1"] * ((x - x.min()) / np.ptp(x)) ** 2
    if c["flat"]:
        y = y - c["b1"] * x
    if c["boxcox"] != "off":
        y = y - y.min() + 1.0
    if c["curve"] or c["flat"] or c["boxcox"] != "off":
        s = np.unique(y)
        noise = float(s[1]) if noise is not None else None
        sat = float(s[-2]) if sat is not None else None
    from props.common import split
    keep, lo, hi = split(x, y, noise, sat)
    if len(keep) < 8 or len(np.unique(x[keep])) < 3:
        raise Reject("not enough data")
    bc = {"off": False, "fixed": c["lam"], "true": True}[c["boxcox"]]
    fact = None if c["fact"] == "default" else factory(c["fact"])
    an = sut("UnivariateLinearModelAnalysis", otpod.UnivariateLinearModelAnalysis, col(x), col(y),
             noise, sat, fact, bc)
    cens = noise is not None or sat is not None
    if not all(np.isfinite(np.array(getattr(an, m)())).all() for _, m in ROWS
               if m.startswith("get")):
        raise Reject("degenerate analysis")
    printed = sut("getResults", an.getResults)
    sut("saveResults", an.saveResults, "res.csv")
    saved = open("res.csv").read()
    os.remove("res.csv")
    # confidence interval of the uncensored coefficients
    r = np.array(an.getResiduals())[:, 0]
    n = len(r)
    s = an.getStandardError()[0]
    xk = x[keep]
    sxx = ((xk - xk.mean()) ** 2).sum()
    q = stats.t.ppf(0.975, n - 2)
    half = (q * s * np.sqrt(1.0 / n + xk.mean() ** 2 / sxx), q * s / np.sqrt(sxx))
    low = False
    for name, text, pr in (("getResults", printed, True), ("saveResults", saved, False)):
        lines = text.split("\n")
        pos = 0
        for label, what in ROWS:
            # next line with that label
            i = pos
            while i < len(lines):
                if pr:
                    lab = lines[i][:47].strip()
                    ok = lab == label and lines[i][47:].strip() != ""
                else:
                    f = lines[i].split("\t")
                    ok = f[0].strip() == label and len(f) == 3 and f[1].strip() != ""
                if ok:
                    break
                i += 1
            expect(i < len(lines), "%s: no line for %r", name, label or what)
            pos = i + 1
            if pr:
                rest = lines[i][47:].strip()
                if what in ("ci0", "ci1"):
                    cells = [rest, ""]
                elif what == "bc" and rest.startswith("Not enabled"):
                    cells = ["Not enabled", rest[len("Not enabled"):].strip()]
                else:
                    t = rest.split()
                    expect(len(t) <= 2, "%s: line %r", name, lines[i])
                    cells = (t + ["", ""])[:2]
            else:
                cells = [u.strip() for u in lines[i].split("\t")[1:]]
            if what == "bc":
                lam = an.getBoxCoxParameter()
                if lam is None:
                    expect(cells[0] == "Not enabled", "%s: Box Cox cell %r", name, cells[0])
                else:
                    expect(same(cells[0], lam), "%s: Box Cox cell %r for %r", name, cells[0], lam)
                expect(cells[1] == "", "%s: unexpected cell %r", name, cells[1])
            elif what == "head":
                expect(cells == ["Uncensored", "Censored" if cens else ""],
                       "%s: column titles %r", name, cells)
            elif what in ("ci0", "ci1"):
                k = int(what[2])
                b = (an.getIntercept()[0], an.getSlope()[0])[k]
                expect(cells[0][0] == "[" and cells[0][-1] == "]", "%s: interval %r", name, cells)
                v = [float(t) for t in cells[0][1:-1].split(",")]
                w = (b - half[k], b + half[k])
                expect(len(v) == 2 and all(abs(a - t) <= 0.0051 + 1e-7 * abs(t)
                                           for a, t in zip(v, w)),
                       "%s: confidence interval %r, expected %r", name, cells[0], w)
            elif what == "level":
                expect(float(cells[0]) == 0.95, "%s: level %r", name, cells[0])
            else:
                val = [float(t) for t in getattr(an, what)()]
                expect(len(val) == 1 + cens, "%s has %d values", what, len(val))
                if what.endswith("PValue") or what == "getR2":
                    low = low or min(val) < 0.05
                for j, t in enumerate(val):
                    expect(cells[j] != "" and same(cells[j], t), "%s: %s %s is %r, the value is %r",
                           name, ("uncensored", "censored")[j], label, cells[j], t)
                if not cens:
                    expect(cells[1] == "", "%s: censored cell %r without censoring", name, cells[1])
        # fitted distributions
        ds = an.getResidualsDistribution()
        expect("Fitted distribution (uncensored) :" in text and str(ds[0]) in text,
               "%s: the uncensored distribution is missing", name)
        expect(("Fitted distribution (censored) :" in text) == cens,
               "%s: censored distribution line", name)
        if cens:
            li = [t for t in lines if t.startswith("Fitted distribution (censored)")][0]
            expect(str(ds[1]) in li, "%s: the censored distribution is missing", name)
            li = [t for t in lines if t.startswith("Fitted distribution (uncensored)")][0]
            expect(str(ds[0]) in li, "%s: the uncensored distribution is wrong", name)
        # warnings
        w1 = "you may consider to use the Box Cox transformation" in text
        w2 = "quantile regression or kriging" in text
        w3 = "assuming the residuals follow a Normal distribution" in text
        normal = ds[0].getImplementation().getClassName() == "Normal"
        expect(w1 == (low and bc is False), "%s: Box Cox advice %s, p-values below 0.05: %s, "
               "Box Cox %r", name, w1, low, bc)
        expect(w2 == (low and bc is not False), "%s: quantile regression advice %s, p-values "
               "below 0.05: %s, Box Cox %r", name, w2, low, bc)
        expect(w3 == (not normal), "%s: normality warning %s for %s", name, w3, ds[0])
        expect(text.count("Warning :") == w1 + w2 + w3, "%s: %d warnings", name,
               text.count("Warning :"))
    return Info(nontrivial=cens or low or bc is not False,
                labels=[c["cens"], "boxcox " + c["boxcox"], "warning" if low else "no warning"])


SUBS = [Sub("report", cases(), check, 800, 20000)]
