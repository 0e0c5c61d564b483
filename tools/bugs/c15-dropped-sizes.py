PROPERTY = 'C15'
NEEDS = 'some defect sizes with a POD that does not vary, smaller than the others'
BREAKS = 'when sizes are dropped the reported ones are the first sizes instead of those of the indices'
EDITS = [('otpod/_sobol_indices.py', 'self.setDefectSizes(self._defectSizes[selected_marginal_index])', 'self.setDefectSizes(self._defectSizes[: len(selected_marginal_index)])')]
DEMO = r'''
import numpy as np, otpod, openturns as ot
ot.RandomGenerator.SetSeed(0)
rs = np.random.RandomState(1)
x = np.column_stack([rs.uniform(0, 5, 60), rs.uniform(-1, 1, 60), rs.uniform(-1, 1, 60)])
y = 2 * x[:, 0] + x[:, 1] + 0.5 * x[:, 2] + 0.05 * rs.randn(60)
pod = otpod.PolynomialChaosPOD(x, y[:, None], 8.0)
pod.setVerbose(False)
pod.setDegree(1)
pod.setSimulationSize(2)
pod.setSamplingSize(20)
sizes = [float(x[:, 0].min()), 1.0, 4.0]
pod.setDefectSizes(sizes)
pod.run()
s = otpod.SobolIndices(pod, 50)
s.setSimulationSize(30)
s.run()
assert list(s.getDefectSizes()) == [4.0], s.getDefectSizes()
'''
