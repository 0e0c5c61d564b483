PROPERTY = 'C18'
NEEDS = 'a rejected call of setQuantile, after which the object is still used'
BREAKS = 'rejected quantiles replace the current ones'
EDITS = [('otpod/_quantile_regression_pod.py', '''        quantile.sort()
        if quantile.max() >= 1 or quantile.min() <= 0:
            raise ValueError("Quantile values must range between ]0, 1[.")
        self._quantile = quantile
''', '''        quantile.sort()
        self._quantile = quantile
        if self._quantile.max() >= 1 or self._quantile.min() <= 0:
            raise ValueError("Quantile values must range between ]0, 1[.")
''')]
DEMO = r'''
import numpy as np, otpod
rs = np.random.RandomState(1)
x = rs.uniform(0, 5, 30)
y = 2 * x + rs.randn(30)
pod = otpod.QuantileRegressionPOD(x[:, None], y[:, None], 6.0)
pod.setQuantile([0.3, 0.6])
try:
    pod.setQuantile([0.5, 1.0])
except ValueError:
    pass
assert list(pod.getQuantile()) == [0.3, 0.6], pod.getQuantile()
'''
