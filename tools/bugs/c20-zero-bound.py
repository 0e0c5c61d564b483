PROPERTY = 'C20'
NEEDS = 'drawPOD with defectMin=0'
BREAKS = 'a lower bound equal to 0 is taken for a missing one'
EDITS = [('otpod/_pod.py', '''        if defectMin is None:
            defectMin = self._inputSample.getMin()[0]
        if defectMax is None:
            defectMax = self._inputSample.getMax()[0]

        # the abs''', '''        defectMin = defectMin or self._inputSample.getMin()[0]
        defectMax = defectMax or self._inputSample.getMax()[0]

        # the abs''')]
DEMO = r'''
import numpy as np, otpod
import matplotlib
matplotlib.use("Agg")
rs = np.random.RandomState(1)
x = rs.uniform(1, 5, 30)
y = 2 * x + rs.randn(30)
pod = otpod.UnivariateLinearModelPOD(x[:, None], y[:, None], 6.0)
pod.setVerbose(False)
pod.run()
fig, ax = pod.drawPOD(defectMin=0.0, defectMax=4.0)
assert abs(min(l.get_xdata().min() for l in ax.lines)) < 1e-9
'''
