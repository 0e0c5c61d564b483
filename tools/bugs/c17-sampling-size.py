PROPERTY = 'C17'
NEEDS = 'a sampling size above the default one'
BREAKS = 'the sampling size of the kriging POD of the summary is capped'
EDITS = [('otpod/_pod_summary.py', '''            self._PODkriging.setSamplingSize(self._samplingSize)
''', '''            self._PODkriging.setSamplingSize(min(self._samplingSize, 5000))
''')]
DEMO = r'''
import numpy as np, otpod, openturns as ot
ot.RandomGenerator.SetSeed(0)
rs = np.random.RandomState(1)
x = np.column_stack([rs.uniform(0, 5, 30), rs.uniform(-1, 1, 30)])
y = 2 * x[:, 0] + x[:, 1] + 0.1 * rs.randn(30)
s = otpod.PODSummary(x, y[:, None], 6.0)
s.setVerbose(False)
for k in list(s.getMethodActive()):
    s.setMethodActive(k, k == "Kriging")
s.setSimulationSize(2)
s.setSamplingSize(5500)
s.run()
assert s.getKrigingPOD().getSamplingSize() == 5500, s.getKrigingPOD().getSamplingSize()
'''
