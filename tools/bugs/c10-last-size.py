PROPERTY = 'C10'
NEEDS = 'quantile regression with censored data whose sizes exceed the retained ones'
BREAKS = 'the curve at a confidence level ends at the largest size of all the data instead of the retained ones'
EDITS = [('otpod/_quantile_regression_pod.py', 'xvalue = np.hstack([0, np.array(defectsQuantile), self._defects.getMax()[0]])', 'xvalue = np.hstack(\n            [0, np.array(defectsQuantile), self._inputSample.getMax()[0]]\n        )')]
DEMO = r'''
import numpy as np, otpod, openturns as ot
ot.RandomGenerator.SetSeed(0)
rs = np.random.RandomState(1)
x = np.concatenate([rs.uniform(1, 5, 50), [9.0, 9.5]])
y = 3 + 2 * x + rs.randn(52)
pod = otpod.QuantileRegressionPOD(x[:, None], y[:, None], 8.0, None, 16.0)
pod.setVerbose(False)
pod.setQuantile([0.3, 0.5, 0.7])
pod.setSimulationSize(10)
pod.run()
m = pod.getPODCLModel(0.9)
top = x[y < 16].max()
try:
    m([9.2])
    raise SystemExit("defined beyond the retained data")
except SystemExit:
    raise
except Exception:
    pass
'''
