PROPERTY = 'C02'
NEEDS = 'boxCox with a signal that is not positive, and no censoring threshold'
BREAKS = 'the signals are shifted in place: getOutputSample no longer returns the given ones'
EDITS = [('otpod/_univariate_linear_model_analysis.py', '''            signals = boxCoxTransform(signals + shift)
''', '''            signals += shift
            signals = boxCoxTransform(signals)
''')]
DEMO = r'''
import numpy as np, otpod, openturns as ot
rs = np.random.RandomState(3)
x = rs.rand(30)
y = -3 + 5 * x + 0.1 * rs.randn(30)
an = otpod.UnivariateLinearModelAnalysis(ot.Sample(x[:, None]), ot.Sample(y[:, None]), boxCox=True)
assert np.array_equal(np.array(an.getOutputSample())[:, 0], y), an.getOutputSample()
'''
