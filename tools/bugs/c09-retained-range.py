PROPERTY = 'C09'
NEEDS = 'a linear POD with saturated data, a probability level reached beyond the largest retained size'
BREAKS = 'the detection size is only searched among the retained sizes'
EDITS = [('otpod/_pod.py', "            defectMax = self._inputSample.getMax()[0]\n\n        # compute 'a90'", '            defectMax = getattr(self, "_defects", self._inputSample).getMax()[0]\n\n        # compute \'a90\'')]
DEMO = r'''
import numpy as np, otpod, openturns as ot
ot.RandomGenerator.SetSeed(0)
rs = np.random.RandomState(1)
x = rs.uniform(1, 5, 40)
y = 3 + 2 * x + rs.randn(40)
pod = otpod.UnivariateLinearModelPOD(x[:, None], y[:, None], 8.0, None, 8.5, ot.NormalFactory())
pod.setVerbose(False)
pod.setSimulationSize(20)
pod.run()
m = pod.getPODModel()
top = x[y < 8.5].max()
p = 0.5 * (m([top])[0] + m([x.max()])[0])
a = pod.computeDetectionSize(p)[0]
assert abs(m([a])[0] - p) < 1e-3, (a, p)
'''
