"""C22: following a run (verbosity, iteration graphs) shows it and does not change it."""
import contextlib
import io
import os
import re
import shutil
import tempfile

import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np
import openturns as ot
import otpod
from hypothesis import strategies as st

from harness import Info, Reject, Sub, Violation, expect, expect_all_close, fresh, sut, sut_out
from props import builders, c17
from props.common import SEEDS, choice

ID = "C22"
RULE = ("Every POD class and the summary on seeded data of dimension 1 to 3, with random simulation "
        "sizes, run from the same random state with and without verbosity; adaptive runs with and "
        "without iteration graphs, any levels (attained or not), directory absent, existing or to be "
        "created, 1 to 130 added points, also when run again. Non-trivial: a progress bar with at "
        "least 10 updates or a score was printed (progress), at least two graphs were saved (graphs).")

BAR = re.compile(r"^([^\[\]]*): \[([=-]*)\] +([0-9.]+)%(.*)$")


def bars(text):
    """The progress bars of a text: list of (message, [(cells, length, percentage, tail)])."""
    out = []
    done = True
    for part in re.split(r"[\r\n]+", text):
        m = BAR.match(part)
        if not m:
            continue
        if done or out[-1][0] != m.group(1):
            out.append((m.group(1), []))
        out[-1][1].append((m.group(2).count("="), len(m.group(2)), float(m.group(3)), m.group(4)))
        done = "Done" in m.group(4)
        expect(m.group(2) == "=" * m.group(2).count("=") + "-" * m.group(2).count("-"),
               "progress bar %r", part)
    return out


def judge_bars(text, totals):
    """One bar per loop of the run, of the given numbers of steps."""
    found = bars(text)
    expect(len(found) == len(totals), "%d progress bars for %d loops: %r", len(found), len(totals),
           [m for m, _ in found])
    most = 0
    for (name, ups), (n, step) in zip(found, totals):
        p = [u[2] for u in ups]
        expect(all(b > a for a, b in zip(p, p[1:])), "bar %r goes %r", name, p)
        expect(p[-1] == 100.0 and "Done" in ups[-1][3], "bar %r ends at %r %r", name, p[-1],
               ups[-1][3])
        expect(not any("Done" in u[3] for u in ups[:-1]), "bar %r is done at %r", name, p)
        # (an update is skipped when the number of steps is not a multiple of the period)
        expect(len(ups) >= (min(10, n) if step == 1 else 1), "bar %r of %d steps is updated %d times", name,
               n, len(ups))
        for cells, length, v, _ in ups:
            expect(length == ups[0][1] and abs(cells - length * v / 100.0) <= 0.51 + 1e-3 * length,
                   "bar %r has %d cells of %d at %r %%", name, cells, length, v)
            # the percentage of a whole number of steps
            k = v * n / 100.0
            expect(abs(k - round(k)) <= 0.0051 * n / 100.0 + 1e-9,
                   "bar %r: %r %% of %d steps", name, v, n)
        most = max(most, len(ups))
    return most


def printed(text, pattern):
    return [float(v) for v in re.findall(pattern + r"[^:\n]*: *(-?(?:[0-9.]+(?:e[-+][0-9]+)?|nan|inf))", text)]


def curves(pod, kind, x):
    if kind.startswith("linear"):
        t = np.linspace(x[:, 0].min(), x[:, 0].max(), 9)
    elif kind == "qr":
        t = np.linspace(0.1, 0.6, 9) * x[:, 0].max()
    else:
        t = np.ravel(pod.getDefectSizes())
    out = [[float(f([float(a)])[0]) for a in t] for f in (pod.getPODModel(), pod.getPODCLModel(0.9))]
    return np.array(out)


# --------------------------------------------------------------------------
# verbosity
# --------------------------------------------------------------------------
@st.composite
def verbose_cases(draw, kinds=builders.FAST):
    return {"kind": draw(choice(*kinds)), "seed": draw(SEEDS), "n": draw(st.integers(25, 40)),
            "dim": draw(choice(2, 3)), "sigma": draw(choice(0.5, 1.5)),
            "base": draw(choice(0, 0, 20, -6)),
            "boxcox": draw(choice(False, False, 0.5)),
            "det": draw(choice(0.5, 0.35, 0.65)), "k": draw(st.integers(2, 30)),
            "sim": draw(choice(*(list(range(2, 40)) + list(range(48, 56)) + [75, 99, 101, 127]))),
            "more": draw(choice(1, 2, 3)), "start": draw(choice(0, 2)),
            "many": draw(choice(0, 1, 4, 5, 6, 7, 12, 53, 99, 101, 112, 117, 130)),
            "former": draw(st.booleans())}


def instance(c, x, y, det, more=None):
    kind = c["kind"]
    pod = sut("constructor", builders.build, kind, x, y, det,
              boxcox=False if kind == "hitmiss" else c["boxcox"],
              more=more if more is not None else (c["many"] if kind == "hitmiss" else c["more"]))
    lo, hi = x[:, 0].min(), x[:, 0].max()
    k = min(c["k"], 6) if kind in ("signal", "kriging") and c["dim"] == 3 else c["k"]
    k = min(k, 4) if kind == "signal" else k
    builders.configure(kind, pod, [float(v) for v in np.clip(np.linspace(lo, hi, k), lo, hi)],
                       sim=c["sim"] if kind not in ("kriging", "signal") else 6, sampling=30)
    if kind == "signal":
        pod.setCandidateSize(c["k"])
    if kind in ("signal", "kriging"):
        pod.setInitialStartSize(c["start"])
    return pod


def load(c):
    x, y = builders.data(c["seed"], c["n"], c["dim"], c["sigma"], c["base"])
    if c["boxcox"] is not False and c["kind"] != "hitmiss" and y.min() <= 0.5:
        y = y + 1 - y.min()
    return x, y, float(np.quantile(y, c["det"]))


def loops(c, pod):
    """Numbers of steps of the loops of the run (and steps per update)."""
    kind = c["kind"]
    if kind in ("linear-none", "linear-normal"):
        return []
    if kind in ("linear-logistic", "qr", "chaos", "chaos1"):
        return [(c["sim"], 1)]
    if kind == "kriging":
        return [(len(pod.getDefectSizes()), 1)]
    if kind == "signal":
        return [(c["k"] - i, 1) for i in range(c["more"])] + [(len(pod.getDefectSizes()), 1)]
    return [(c["many"], 5)] if c["many"] else []


def fit_failure(e, second):
    """OpenTURNS may find no covariance parameter: the first of two runs is rejected."""
    if "MultiStart" in str(e) and not second:
        raise Reject(str(e))


def check_verbose(c):
    x, y, det = load(c)
    kind = c["kind"]
    if kind == "signal" and c["k"] <= c["more"]:
        raise Reject("fewer candidates than added points")
    runs, text = [], ""
    for verbose in (True, False):
        pod = instance(c, x, y, det)
        if c["former"] and verbose and kind not in ("signal", "hitmiss", "qr"):
            # a former quiet run
            fresh(c["seed"] + 1)
            sut("run", pod.run)
        sut("setVerbose", pod.setVerbose, verbose)
        fresh(c["seed"])
        try:
            if verbose:
                _, text = sut_out("run", pod.run)
            else:
                _, quiet = sut_out("run", pod.run)
                expect(quiet.strip() == "", "with verbosity off the run prints %r", quiet[:80])
        except Violation as e:
            fit_failure(e, not verbose)
            if kind == "qr" and verbose:
                raise Reject("quantile regression: %s" % e)
            raise
        doe = None
        if kind in ("signal", "hitmiss"):
            doe = (np.array(pod.getInputDOE()), np.array(pod.getOutputDOE()).ravel())
        runs.append((pod, curves(pod, kind, x), doe))
    (pod, a, d1), (_, b, d2) = runs
    if not (c["former"] and kind in ("chaos", "chaos1", "kriging")):
        expect(np.array_equal(a, b, equal_nan=True),
               "with verbosity the POD is %r, without %r", a[0].tolist(), b[0].tolist())
    if d1 is not None:
        for what, u, v in zip(("inputs", "outputs"), d1, d2):
            expect(np.array_equal(u, v), "with verbosity other %s are added", what)
    most = judge_bars(text, loops(c, pod))
    scores = []
    if kind in ("kriging", "signal"):
        scores = printed(text, r"[Kk]riging validation Q2")
        expect(len(scores) == 1 + (c["more"] if kind == "signal" else 0),
               "%d validation scores printed", len(scores))
        q2 = float(pod.getQ2())
        expect(abs(scores[-1] - q2) <= 0.51e-4, "printed Q2 %r, getQ2 %r", scores[-1], q2)
    if kind in ("chaos", "chaos1"):
        for name, f in (("R2", pod.getR2), ("Q2", pod.getQ2)):
            v = printed(text, r"chaos validation %s" % name)
            expect(len(v) == 1 and abs(v[0] - float(f())) <= 0.51e-4, "printed %s %r, computed %r",
                   name, v, float(f()))
            scores += v
    if kind == "signal":
        its = re.findall(r"Iteration *: *([0-9]+)/([0-9]+)", text)
        expect([(int(i), int(n)) for i, n in its] == [(i + 1, c["more"]) for i in range(c["more"])],
               "iterations printed: %r", its)
        pts = re.findall(r"Added point *: *\[([^\]]*)\]", text)
        expect(len(pts) == c["more"], "%d added points printed", len(pts))
        expect_all_close("printed added points", [[float(v) for v in p.split(",")] for p in pts],
                         d1[0][-c["more"]:], 1e-4, 1e-6)
    return Info(nontrivial=most >= 10 or bool(scores),
                tags=[kind, "former" if c["former"] else "first",
                      "bar %s" % ("none" if not most else "short" if most < 10 else "long")],
                show="%d updates, scores %r" % (most, scores[:3]))


# --------------------------------------------------------------------------
# graphs at each iteration
# --------------------------------------------------------------------------
@st.composite
def graph_cases(draw):
    c = draw(verbose_cases(("hitmiss", "signal", "hitmiss")))
    c["k"] = max(c["k"], 5)
    c["many"] = draw(choice(7, 1, 5, 12, 16))
    c["p"] = draw(choice(None, 0.5, 0.9, 0.999, 0.02))
    c["c"] = draw(choice(None, 0.95, 0.6))
    c["dir"] = draw(choice("new", "nested", "existing", "none", "slash"))
    c["again"] = draw(st.booleans())
    c["verbose"] = draw(st.booleans())
    return c


PNG = b"\x89PNG\r\n\x1a\n"


def tree(top):
    return sorted(os.path.relpath(os.path.join(r, f), top) for r, _, fs in os.walk(top) for f in fs)


def last_curve():
    """The POD curve of the last figure left open, if any."""
    nums = plt.get_fignums()
    if not nums:
        return None
    for ax in plt.figure(nums[-1]).axes:
        for line in ax.get_lines():
            if line.get_label() == "POD":
                return np.array(line.get_xdata(), float), np.array(line.get_ydata(), float)
    return None


def check_graphs(c):
    x, y, det = load(c)
    kind = c["kind"]
    more = c["many"] if kind == "hitmiss" else c["more"]
    count = -(-more // 5) if kind == "hitmiss" else more
    stem = "AdaptiveHitMissPOD_" if kind == "hitmiss" else "AdaptiveSignalPOD_"
    tmp = tempfile.mkdtemp(prefix="otpodverif")
    old = os.getcwd()
    try:
        os.chdir(tmp)
        sub = {"new": "new", "nested": os.path.join("a", "b c"), "existing": "old",
               "none": None, "slash": "a" + os.sep}[c["dir"]]
        if c["dir"] == "existing":
            os.mkdir("old")
            with open(os.path.join("old", "kept"), "w") as f:
                f.write("x")
        directory = None if sub is None else (
            sub if c["seed"] % 2 else os.path.join(tmp, sub))
        out = []
        for graphs in (False, True):
            pod = instance(c, x, y, det)
            pod.setVerbose(graphs and c["verbose"])
            if graphs:
                sut("setGraphActive", pod.setGraphActive, True, c["p"], c["c"], directory)
                expect(pod.getGraphActive() is True, "getGraphActive")
            fresh(c["seed"])
            try:
                sut("run with%s graphs" % ("" if graphs else "out"), pod.run)
            except Violation as e:
                fit_failure(e, graphs)
                raise
            out.append((np.array(pod.getInputDOE()), np.array(pod.getOutputDOE()).ravel(),
                        curves(pod, kind, x)))
            if not graphs:
                expect(tree(tmp) == ([os.path.join("old", "kept")] if c["dir"] == "existing"
                                     else []), "files written without graphs: %r", tree(tmp))
        (xa, ya, ca), (xb, yb, cb) = out
        expect(np.array_equal(xa, xb) and np.array_equal(ya, yb),
               "with the graphs other points are added")
        exact = np.array_equal(ca, cb)
        if not exact:
            # the graphs may use random numbers: another Monte Carlo estimate of the same POD
            expect_all_close("POD of the run with graphs", cb[0], ca[0], 0, 6 * np.sqrt(0.5 / 30))
        want = ["%s%d.png" % (stem, i + 1) for i in range(count)] if sub else []
        want = sorted([os.path.normpath(os.path.join(sub, w)) for w in want]
                      + ([os.path.join("old", "kept")] if c["dir"] == "existing" else []))
        expect(tree(tmp) == want, "saved graphs %r, expected %r", tree(tmp), want)
        for w in want:
            with open(os.path.join(tmp, w), "rb") as f:
                head = f.read(8)
            expect(head == PNG or w.endswith("kept"), "%s is not a png figure", w)
        shown = last_curve()
        if shown is not None:
            t, v = shown
            sizes = np.ravel(pod.getDefectSizes())
            expect_all_close("interval of the graph", [t[0], t[-1]], [sizes.min(), sizes.max()])
            expect(np.all((v >= -1e-12) & (v <= 1 + 1e-12)), "curve of the graph out of [0, 1]")
            if kind == "hitmiss":
                # the model of the last iteration is the final one
                expect_all_close("curve of the last graph", v, np.interp(t, sizes, cb[0]), 0,
                                 6 * np.sqrt(0.5 / 30))
        if c["again"] and sub:
            # graphs no longer active: nothing more is written
            for w in want:
                if not w.endswith("kept"):
                    os.remove(os.path.join(tmp, w))
            pod = instance(c, x, y, det)
            pod.setGraphActive(True, c["p"], c["c"], directory)
            sut("setGraphActive(False)", pod.setGraphActive, False)
            fresh(c["seed"])
            sut("run", pod.run)
            left = [w for w in tree(tmp) if not w.endswith("kept")]
            expect(not left, "inactive graphs are saved: %r", left)
            expect(np.array_equal(np.array(pod.getInputDOE()), xa),
                   "other points are added after the graphs were made inactive")
    finally:
        os.chdir(old)
        plt.close("all")
        shutil.rmtree(tmp, ignore_errors=True)
    return Info(nontrivial=bool(sub) and count >= 2,
                tags=[kind, "p %s" % c["p"], "c %s" % c["c"], c["dir"],
                      "exact" if exact else "another estimate"],
                show="%d graphs in %r" % (count, sub))


# --------------------------------------------------------------------------
# summary
# --------------------------------------------------------------------------
TITLES = {"LinearGauss": "gaussian residuals", "LinearBinomial": "no hypothesis",
          "LinearKernelSmoothing": "kernel smoothing", "QuantileRegression": "quantile regression",
          "PolynomialChaos": "polynomial chaos pod", "Kriging": "kriging pod"}


def check_summary(c):
    x, y, noise, sat, det = c17.load(c)
    runs, text = [], ""
    for verbose in (True, False):
        s, active = c17.summary(c, x, y, noise, sat, det)
        sut("setVerbose", s.setVerbose, verbose)
        fresh(c["seed"])
        buf = io.StringIO()
        try:
            with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(io.StringIO()):
                s.run()
            err = None
        except Exception as e:
            err = e
        runs.append((s, err))
        if verbose:
            text = buf.getvalue()
        else:
            expect(buf.getvalue().strip() == "", "a quiet summary prints %r", buf.getvalue()[:80])
    expect((runs[0][1] is None) == (runs[1][1] is None),
           "the run raises %r with verbosity and %r without", runs[0][1], runs[1][1])
    if runs[0][1] is not None:
        raise Reject("a method raises on these data")
    started = [l.lower() for l in text.split("\n") if l.startswith("Start ") and "..." in l]
    order = []
    for l in started:
        hit = [m for m in c17.METHODS if TITLES[m] in l]
        expect(len(hit) <= 1, "ambiguous line %r", l)
        order += hit
    want = [m for m in c17.METHODS if active[m]]
    expect(order == want, "methods started %r, active %r", order, want)
    expect(any("analysis" in l for l in started), "the analysis is not announced")
    for m in want:
        a, b = [c17.curves(c, x, m, getattr(s, c17.GET[m])()) for s, _ in runs]
        expect(np.array_equal(a, b, equal_nan=True), "%s: other results with verbosity", m)
    totals = []
    for m in want:
        if m in ("LinearKernelSmoothing", "QuantileRegression", "PolynomialChaos"):
            totals.append((c["sim"], 1))
        elif m == "Kriging":
            totals.append((len(getattr(runs[0][0], c17.GET[m])().getDefectSizes()), 1))
    most = judge_bars(text, totals)
    for m, pattern, get in (("PolynomialChaos", "chaos validation R2", "getR2"),
                            ("PolynomialChaos", "chaos validation Q2", "getQ2"),
                            ("Kriging", "[Kk]riging validation Q2", "getQ2")):
        v = printed(text, pattern)
        expect(len(v) == int(active[m]), "%r is printed %d times", pattern, len(v))
        if active[m]:
            q = float(getattr(getattr(runs[0][0], c17.GET[m])(), get)())
            expect(abs(v[0] - q) <= 0.51e-4, "%s: printed %r, computed %r", pattern, v[0], q)
    return Info(nontrivial=len(want) >= 2, tags=["%d methods" % len(want)],
                show="%r, %d updates" % (want, most))


SUBS = [Sub("verbose", verbose_cases(), check_verbose, 400, 12000),
        Sub("adaptive", verbose_cases(("hitmiss", "signal", "hitmiss")), check_verbose, 180, 4000),
        Sub("graphs", graph_cases(), check_graphs, 180, 4000),
        Sub("summary", c17.cases(), check_summary, 60, 1500)]
