PROPERTY = 'C13'
NEEDS = 'Box Cox with signals that are not all positive'
BREAKS = 'the signal of the added points is transformed without the shift applied to the initial ones'
EDITS = [('otpod/_adaptive_signal_pod.py', 'self._physicalModel(candidateOpt) + [self._shift]', 'self._physicalModel(candidateOpt)')]
DEMO = r'''
import numpy as np, otpod, openturns as ot
ot.RandomGenerator.SetSeed(0)
rs = np.random.RandomState(1)
x = np.column_stack([rs.uniform(1, 5, 15), rs.uniform(-1, 1, 15)])
f = lambda v: 2 * v[0] + v[1] - 2
y = np.array([f(t) for t in x]) 
y[0] = -1.0
x[0] = [1.0, -1.0]
pod = otpod.AdaptiveSignalPOD(x, y[:, None], ot.PythonFunction(2, 1, lambda v: [f(v)]), 1, 4.0, None, None, 0.5)
pod.setVerbose(False)
pod.setInitialStartSize(0)
pod.setSimulationSize(4)
pod.setSamplingSize(20)
pod.setCandidateSize(5)
pod.setDefectSizes([1.5, 4.0])
pod.run()
xs, ys = pod.getInputDOE(), pod.getOutputDOE()
assert xs.getSize() == 16
new = np.array(xs)[-1]
got = ys[ys.getSize() - 1][0]
assert abs(got - f(new)) < 1e-6, (got, f(new))
'''
