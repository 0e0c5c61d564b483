PROPERTY = 'C12'
NEEDS = 'a kriging POD with censored data whose other parameters exceed the retained ones, default distribution'
BREAKS = 'the default distribution of the parameters covers all the data instead of the retained ones'
EDITS = [('otpod/_kriging_pod.py', '            inputMin = self._input.getMin()\n', '            inputMin = self._inputSample.getMin()\n'), ('otpod/_kriging_pod.py', '            inputMax = self._input.getMax()\n', '            inputMax = self._inputSample.getMax()\n')]
DEMO = r'''
import numpy as np, otpod, openturns as ot
ot.RandomGenerator.SetSeed(0)
rs = np.random.RandomState(1)
x = np.column_stack([rs.uniform(1, 5, 30), rs.uniform(-1, 1, 30)])
x[0, 1] = 4.0
y = 3 + 2 * x[:, 0] + 3 * x[:, 1]
y[0] = 100.0
pod = otpod.KrigingPOD(x, y[:, None], 9.0, None, 50.0)
pod.setVerbose(False)
pod.setInitialStartSize(0)
pod.setSimulationSize(5)
pod.setSamplingSize(20)
pod.setDefectSizes([1.5, 4.0])
pod.run()
up = pod.getDistribution().getMarginal(1).getParameter()[1]
assert abs(up - x[1:, 1].max()) < 1e-9, up
'''
