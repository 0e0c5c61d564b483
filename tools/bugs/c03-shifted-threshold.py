PROPERTY = 'C03'
NEEDS = 'Box Cox, signals that are not all positive and a saturation threshold'
BREAKS = 'the saturation threshold is transformed without the shift applied to the signals: the censored fit uses a wrong threshold'
EDITS = [('otpod/_univariate_linear_model_analysis.py', 'saturationThres = boxCoxTransform([self._saturationThres + shift])[0]', 'saturationThres = boxCoxTransform([self._saturationThres])[0]')]
DEMO = r'''
import numpy as np, otpod, openturns as ot
rs = np.random.RandomState(0)
x = rs.uniform(1, 5, 60)
y = -10 + 5 * x + rs.randn(60)
a = otpod.UnivariateLinearModelAnalysis(x[:, None], y[:, None], None, 11.0, None, 0.5)
shift = -y[y < 11].min() + 100
t = lambda v: ((v + shift) ** 0.5 - 1) / 0.5
from scipy import stats
def ll(b0, b1, s):
    k = y < 11
    return stats.norm.logpdf(t(y[k]), b0 + b1 * x[k], s).sum() + stats.norm.logsf(
        (t(11.0) - b0 - b1 * x[~k]) / s).sum()
th = [a.getIntercept()[1], a.getSlope()[1], a.getStandardError()[1]]
from scipy import optimize
best = -optimize.minimize(lambda u: -ll(u[0], u[1], np.exp(u[2])), [th[0], th[1], np.log(th[2])],
                          method="Nelder-Mead", options={"maxiter": 5000, "maxfev": 5000}).fun
assert ll(*th) >= best - 0.05, (ll(*th), best)
'''
