PROPERTY = 'C11'
NEEDS = 'a distribution of the parameters with a dependence between two parameters other than the defect'
BREAKS = 'the dependence of the parameters is lost in the Monte Carlo simulation of the chaos POD'
EDITS = [('otpod/_polynomial_chaos_pod.py', '        samplePred = self._distribution.getSample(self._samplingSize)[:, 1:]\n', '        samplePred = ot.Sample(self._samplingSize, self._dim)\n        for i in range(self._dim):\n            samplePred[:, i] = self._distribution.getMarginal(i).getSample(\n                self._samplingSize\n            )\n        samplePred = samplePred[:, 1:]\n')]
DEMO = r'''
import numpy as np, otpod, openturns as ot
ot.RandomGenerator.SetSeed(0)
rs = np.random.RandomState(1)
x = rs.uniform(-1, 1, (60, 3))
x[:, 2] = -0.7 * x[:, 1] + 0.6 * x[:, 2]
x[:, 0] += 2
y = 2 * x[:, 0] + x[:, 1] + x[:, 2] + 0.2 * rs.randn(60)
pod = otpod.PolynomialChaosPOD(x, y[:, None], 5.0)
pod.setVerbose(False)
R = ot.CorrelationMatrix(3)
R[1, 2] = -0.8
pod.setDistribution(ot.JointDistribution([ot.Uniform(1, 3), ot.Uniform(-1, 1), ot.Uniform(-1, 1)], ot.NormalCopula(R)))
pod.setDegree(3)
pod.setSimulationSize(2)
pod.setSamplingSize(20000)
pod.setDefectSizes([1.2, 2.2, 2.4, 2.8])
pod.run()
from scipy import stats
T = np.array(pod.getDistribution().getSample(20000))
r = pod.getPolynomialChaosResult()
res = y - np.array(r.getMetaModel()(ot.Sample(x)))[:, 0]
s = np.sqrt((res ** 2).sum() / (len(y) - len(r.getReducedBasis()) - 1))
for a in pod.getDefectSizes():
    T[:, 0] = a
    e = stats.norm.sf((5.0 - np.array(r.getMetaModel()(ot.Sample(T)))) / s).mean()
    v = pod.getPODModel()([a])[0]
    print(a, v, e)
    assert abs(v - e) < 0.03, (a, v, e)
'''
