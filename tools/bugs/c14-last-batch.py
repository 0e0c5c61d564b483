PROPERTY = 'C14'
NEEDS = 'a number of points to add that is not a multiple of the batch size'
BREAKS = 'in the last, truncated batch the labels are those of other points of the batch'
EDITS = [('otpod/_adaptive_hitmiss_pod.py', 'z_new = z_new[: self._nMorePoints + n_ini - len(self._input)]', 'z_new = z_new[n_new_temp - self._nMorePoints - n_ini:]')]
DEMO = r'''
import numpy as np, otpod, openturns as ot
bad = 0
for seed in range(3):
    ot.RandomGenerator.SetSeed(seed)
    rs = np.random.RandomState(seed)
    x = np.column_stack([rs.uniform(0, 1, 40), rs.uniform(0, 1, 40)])
    f = lambda v: 2 * v[0] + v[1]
    y = np.array([f(t) for t in x])
    pod = otpod.AdaptiveHitMissPOD(x, y[:, None], ot.PythonFunction(2, 1, lambda v: [f(v)]), 7, 1.5)
    pod.setVerbose(False)
    pod.setCandidateSize(300)
    pod.setSamplingSize(50)
    pod.run()
    X, Z = np.array(pod.getInputDOE()), np.array(pod.getOutputDOE())[:, 0]
    bad += (Z[40:] != [f(t) > 1.5 for t in X[40:]]).sum()
assert bad == 0, bad
'''
