PROPERTY = 'C16'
NEEDS = 'two runs of the same object, the detection probability being 0 or 1 at some size in the second only'
BREAKS = 'the indices of the sizes that are not computed are not set to NaN: those of the previous run remain'
EDITS = [('otpod/_pli_pod.py', '''                # set not computed indices to nan values
                self._indices[:, :, idefect] = (
                    np.zeros(self._indices[:, :, idefect].shape) * np.nan
                )
''', '''                # set not computed indices to nan values
                if not np.any(self._indices[:, :, idefect]):
                    self._indices[:, :, idefect] = np.nan
''')]
DEMO = r'''
import numpy as np, otpod, openturns as ot
ot.RandomGenerator.SetSeed(0)
rs = np.random.RandomState(1)
x = np.column_stack([rs.uniform(0, 5, 60), rs.uniform(-1, 1, 60), rs.uniform(-1, 1, 60)])
y = 2 * x[:, 0] + x[:, 1] + 0.5 * x[:, 2] + 0.05 * rs.randn(60)
pod = otpod.PolynomialChaosPOD(x, y[:, None], 8.0)
pod.setVerbose(False)
pod.setDegree(1)
pod.setSimulationSize(2)
pod.setSamplingSize(20)
pod.setDefectSizes([1.0, 4.0])
pod.run()
pli = otpod.PLIMean(pod, [-0.1, 0.1])
pli.setSamplingSize(500)
pli.setDefectSizes([3.9, 4.0])
pli.run()
assert np.isfinite(pli.getIndices()).all()
# another distribution of the parameters: nothing is detected
pli.setDistribution(ot.JointDistribution([ot.Uniform(-1.0, -0.9), ot.Uniform(-1.0, -0.9)]))
pli.run()
assert np.isnan(pli.getIndices()).all(), pli.getIndices()
'''
