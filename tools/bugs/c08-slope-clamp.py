PROPERTY = 'C08'
NEEDS = 'a slope that is not significantly positive'
BREAKS = 'the simulated regression lines are forced to be increasing, which moves the quantiles of the curves'
EDITS = [('otpod/_univariate_linear_model_pod.py', '''            slopeSimu = sampleNormal[i][1] * sigmaEpsilon + slope
''', '''            # a POD curve is an increasing function of the defect size
            slopeSimu = max(sampleNormal[i][1] * sigmaEpsilon + slope, 0.0)
''')]
DEMO = r'''
import numpy as np, otpod, openturns as ot
rs = np.random.RandomState(0)
x = np.linspace(1, 2, 20)
y = 5 + 0.0 * x + rs.randn(20)
ot.RandomGenerator.SetSeed(0)
pod = otpod.UnivariateLinearModelPOD(x[:, None], y[:, None], 5.0, resDistFact=ot.NormalFactory())
pod.setVerbose(False)
pod.setSimulationSize(2000)
pod.run()
X = np.column_stack([np.ones(20), x])
b, r = np.linalg.lstsq(X, y, rcond=None)[:2]
s = np.sqrt(r[0] / 18)
C = np.linalg.inv(X.T @ X)
sig = s * np.sqrt(18 / rs.chisquare(18, 200000))
co = rs.multivariate_normal([0, 0], C, 200000) * sig[:, None] + b
from scipy.stats import norm
for a in (1.0, 2.0):
    want = np.quantile(norm.sf((5 - co @ [1, a]) / sig), 0.05)
    got = pod.getPODCLModel(0.95)([a])[0]
    assert abs(got - want) < 0.03, (a, got, want)
'''
