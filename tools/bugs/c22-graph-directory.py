PROPERTY = 'C22'
NEEDS = 'iteration graphs of AdaptiveHitMissPOD saved in a directory whose parent does not exist'
BREAKS = 'the run aborts at the first graph'
EDITS = [('otpod/_adaptive_hitmiss_pod.py', '''                        os.makedirs(self._graphDirectory)''',
          '''                        os.mkdir(self._graphDirectory)''')]
DEMO = r'''
import os, tempfile, shutil
import matplotlib
matplotlib.use("Agg")
import numpy as np, openturns as ot, otpod
ot.Log.Show(ot.Log.NONE)
rs = np.random.RandomState(3)
x = rs.uniform(0.2, 3, (30, 2))
y = 4 * x[:, 0] + x[:, 1] + 0.5 * rs.randn(30)
phys = ot.SymbolicFunction(["a", "b"], ["4*a + b"])
tmp = tempfile.mkdtemp()
try:
    pod = otpod.AdaptiveHitMissPOD(x, y[:, None], phys, 7, float(np.median(y)))
    pod.setVerbose(False)
    pod.setDefectSizes([float(x[:, 0].min()), 1.5, float(x[:, 0].max())])
    pod.setCandidateSize(30)
    pod.setSamplingSize(40)
    pod.setClassifierType("rf")
    pod.setClassifierParameters([[10], [None], [2], [0]])
    d = os.path.join(tmp, "results", "graphs")
    pod.setGraphActive(True, None, None, d)
    pod.run()
    assert sorted(os.listdir(d)) == ["AdaptiveHitMissPOD_1.png", "AdaptiveHitMissPOD_2.png"], os.listdir(d)
finally:
    shutil.rmtree(tmp)
'''
