PROPERTY = 'C05'
NEEDS = 'residuals with a negative mean (censored fit)'
BREAKS = 'the zero mean test is not two sided: the p-value of residuals with a negative mean exceeds 1'
EDITS = [('otpod/_math_tools.py', '-np.abs(statistic))', '-statistic)')]
DEMO = r'''
import numpy as np, otpod
bad = []
for seed in range(6):
    rs = np.random.RandomState(seed)
    x = rs.uniform(1, 5, 60)
    y = 5 * x + 2 * rs.randn(60)
    for th in ((8.0, None), (None, 20.0)):
        a = otpod.UnivariateLinearModelAnalysis(x[:, None], y[:, None], *th)
        bad += [p for p in a.getZeroMeanPValue() if p > 1 + 1e-9]
assert not bad, bad
'''
