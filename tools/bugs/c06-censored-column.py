PROPERTY = 'C06'
NEEDS = 'an analysis with thresholds'
BREAKS = 'the printed and saved report swaps the Anderson Darling and Cramer Von Mises p-values of the censored case'
EDITS = [('otpod/_univariate_linear_model_analysis.py', 'self._dataResiduals[8][2] = round(testResults["AndersonDarling"], n_digits)', 'self._dataResiduals[8][2] = round(testResults["CramerVonMises"], n_digits)'), ('otpod/_univariate_linear_model_analysis.py', 'self._dataResiduals[9][2] = round(testResults["CramerVonMises"], n_digits)', 'self._dataResiduals[9][2] = round(testResults["AndersonDarling"], n_digits)')]
DEMO = r'''
import numpy as np, otpod
diff = 0
for seed in range(10):
    rs = np.random.RandomState(seed)
    x = rs.uniform(1, 5, 60)
    y = 5 * x + 2 * rs.randn(60)
    a = otpod.UnivariateLinearModelAnalysis(x[:, None], y[:, None], 8.0, 22.0)
    for line in a.getResults().splitlines():
        if line.startswith("Anderson"):
            v = [float(t) for t in line.split(":")[1].split()]
            diff = max(diff, abs(v[1] - a.getAndersonDarlingPValue()[1]))
assert diff <= 0.0051, diff
'''
