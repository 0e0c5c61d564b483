PROPERTY = 'C22'
NEEDS = 'an adaptive signal run with verbosity off whose kriging model has Q2 < 0.95 after an added point'
BREAKS = 'the covariance parameters are re-estimated only when the run is verbose: verbosity changes the results'
EDITS = [('otpod/_adaptive_signal_pod.py', '''            if self._Q2 < 0.95:
                if self._verbose:
                    print("Optimization of the covariance model parameters...")

                fitter''', '''            if self._Q2 < 0.95 and self._verbose:
                print("Optimization of the covariance model parameters...")

                fitter''')]
DEMO = r'''
import os
os.environ["OPENTURNS_NUM_THREADS"] = os.environ["OMP_NUM_THREADS"] = "1"
import numpy as np, openturns as ot, otpod
ot.Log.Show(ot.Log.NONE)
rs = np.random.RandomState(3)
x = rs.uniform(0.2, 3, (25, 2))
y = 4 * x[:, 0] + np.sin(3 * x[:, 1]) + 0.8 * rs.randn(25)
phys = ot.SymbolicFunction(["a", "b"], ["4*a + sin(3*b)"])
res = []
for verbose in (True, False):
    ot.RandomGenerator.SetSeed(1)
    pod = otpod.AdaptiveSignalPOD(x, y[:, None], phys, 3, float(np.median(y)))
    pod.setVerbose(verbose)
    pod.setDefectSizes([float(x[:, 0].min()), 1.5, float(x[:, 0].max())])
    pod.setCandidateSize(10)
    pod.setSamplingSize(40)
    pod.setSimulationSize(10)
    pod.setInitialStartSize(2)
    ot.RandomGenerator.SetSeed(1)
    pod.run()
    res.append([pod.getQ2()] + list(pod.getKrigingResult().getCovarianceModel().getParameter()))
assert np.allclose(res[0], res[1], 1e-3, 1e-6), res
'''
