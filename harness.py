"""Common machinery of the property-based checks of openturns/otpod.

A property module (props/cNN.py) declares ID, RULE and SUBS, a list of Sub.
A Sub couples a Hypothesis strategy producing a JSON-able *case* with a check
function deciding the case against an explicit oracle.  Nothing random is drawn
outside the strategy: data and simulation seeds are part of the case.
"""
import contextlib
import io
import json
import logging
import math
import os
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("OTPOD_REPO", "/repo")


# --------------------------------------------------------------------------
# outcome of a case
# --------------------------------------------------------------------------
class Violation(Exception):
    """The code broke the property on this case."""


class Reject(Exception):
    """The case lies outside the domain of the property (counted, not judged)."""


class Info(dict):
    """What a check reports on a case: labels, known findings, non-triviality."""


class Sub(object):
    def __init__(self, name, strategy, check, quick, thorough, nontrivial=None,
                 shards=8):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough
        self.nontrivial = nontrivial
        self.shards = shards


# --------------------------------------------------------------------------
# calling the code under test
# --------------------------------------------------------------------------
def setup_imports():
    vendor = os.path.join(HERE, "vendor")
    for p in (vendor, HERE, REPO):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
    import openturns as ot
    import otpod

    real = os.path.realpath(otpod.__file__)
    if not real.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError("otpod is imported from %s and not from %s" % (real, REPO))
    ot.Log.Show(ot.Log.NONE)
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    return ot, otpod


def fresh(seed):
    """Reset every global the code under test reads."""
    import numpy as np
    import openturns as ot
    import matplotlib.pyplot as plt

    ot.Log.Show(ot.Log.NONE)
    ot.RandomGenerator.SetSeed(int(seed))
    np.random.seed(int(seed) % (2 ** 32))
    plt.close("all")
    warnings.simplefilter("ignore")


def sut(what, func, *args, **kwargs):
    """Call the code under test on a valid input: any exception is a violation."""
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            return func(*args, **kwargs)
    except Exception as e:
        raise Violation("%s raised %s: %s" % (what, type(e).__name__, str(e)[:300]))


def sut_out(what, func, *args, **kwargs):
    """As sut, returns (result, text written on stdout)."""
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            r = func(*args, **kwargs)
    except Exception as e:
        raise Violation("%s raised %s: %s" % (what, type(e).__name__, str(e)[:300]))
    return r, out.getvalue()


def must_raise(what, func, *args, **kwargs):
    """The call must be rejected with an exception."""
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(
            io.StringIO()
        ):
            func(*args, **kwargs)
    except Exception as e:
        return e
    raise Violation("%s was accepted, it must be rejected" % what)


def expect(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def close(a, b, rtol=1e-9, atol=1e-12):
    a = float(a)
    b = float(b)
    if math.isnan(a) or math.isnan(b):
        return False
    if a == b:
        return True
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def expect_close(what, got, want, rtol=1e-9, atol=1e-12):
    if not close(got, want, rtol, atol):
        raise Violation("%s: got %r, expected %r" % (what, float(got), float(want)))


def expect_all_close(what, got, want, rtol=1e-9, atol=1e-12):
    import numpy as np

    got = np.asarray(got, dtype=float)
    want = np.asarray(want, dtype=float)
    if got.shape != want.shape:
        raise Violation("%s: shape %s, expected %s" % (what, got.shape, want.shape))
    bad = ~(np.abs(got - want) <= atol + rtol * np.maximum(np.abs(got), np.abs(want)))
    bad &= ~(got == want)
    if bad.any():
        i = tuple(int(k) for k in np.argwhere(bad)[0])
        raise Violation(
            "%s: at %s got %r, expected %r" % (what, i, float(got[i]), float(want[i]))
        )


def call1(what, model, x):
    """Value of a POD model (an openturns Function) at a scalar."""
    v = sut(what, model, [float(x)])
    v = [float(t) for t in v]
    expect(len(v) == 1, "%s returns %d values instead of 1", what, len(v))
    return v[0]


# --------------------------------------------------------------------------
# running a case
# --------------------------------------------------------------------------
HARNESS_ERRORS = (MemoryError, ImportError, OSError, KeyboardInterrupt, SystemExit)


def run_case(sub, case):
    """Returns Info; raises Violation or Reject; anything else is a harness error."""
    fresh(case.get("seed", 0) if isinstance(case, dict) else 0)
    try:
        info = sub.check(case)
    except (Violation, Reject):
        raise
    except HARNESS_ERRORS:
        raise
    except Exception as e:
        # the oracle could not even read what the code returned (wrong type,
        # shape, missing attribute...)
        tb = traceback.extract_tb(e.__traceback__)
        where = "%s:%d" % (os.path.basename(tb[-1].filename), tb[-1].lineno)
        raise Violation(
            "unusable result (%s at %s: %s)" % (type(e).__name__, where, str(e)[:200])
        )
    finally:
        import matplotlib.pyplot as plt

        plt.close("all")
    return info if info is not None else Info()


def canon(case):
    return json.dumps(case, sort_keys=True)
