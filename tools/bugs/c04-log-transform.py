PROPERTY = 'C04'
NEEDS = 'Box Cox parameter 0.0 (log transformation) given to the analysis'
BREAKS = 'boxCox=0.0 is taken as disabled: the signals are not transformed'
EDITS = [('otpod/_univariate_linear_model_analysis.py', '        if isinstance(boxCox, float):\n', '        if boxCox and isinstance(boxCox, float):\n')]
DEMO = r'''
import numpy as np, otpod
rs = np.random.RandomState(0)
x = rs.uniform(1, 5, 40)
y = np.exp(0.5 * x + 0.1 * rs.randn(40))
a = otpod.UnivariateLinearModelAnalysis(x[:, None], y[:, None], boxCox=0.0)
assert abs(a.getSlope()[0] - np.polyfit(x, np.log(y), 1)[0]) < 1e-8, a.getSlope()
'''
