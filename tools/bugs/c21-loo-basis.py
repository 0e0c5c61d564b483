PROPERTY = 'C21'
NEEDS = 'a trend basis whose span changes with the normalisation of the inputs'
BREAKS = 'the trend of the leave-one-out predictions is evaluated at the original inputs'
EDITS = [('otpod/_kriging_tools.py', '''F[:, i] = np.hstack(basis.build(i)(normalized_inputSample))''',
          '''F[:, i] = np.hstack(basis.build(i)(inputSample))''')]
DEMO = r'''
import numpy as np, otpod, openturns as ot
ot.RandomGenerator.SetSeed(0)
rs = np.random.RandomState(1)
x = np.column_stack([rs.uniform(1, 5, 30), rs.uniform(-1, 1, 30)])
y = 3 * (x[:, 0] - 2) ** 2 + x[:, 1] + 0.3 * rs.randn(30)
pod = otpod.KrigingPOD(x, y[:, None], 6.0)
pod.setVerbose(False)
bas = ot.Basis([ot.SymbolicFunction(["a", "b"], ["1"]), ot.SymbolicFunction(["a", "b"], ["a^2"])])
pod.setBasis(bas)
pod.setInitialStartSize(0)
pod.setCovarianceModel(ot.MaternModel([1.0, 1.0], [2.0], 1.5))
pod.setDefectSizes([float(x[:, 0].min()), 3.0])
pod.setSamplingSize(10)
pod.setSimulationSize(2)
pod.run()
cov = pod.getKrigingResult().getCovarianceModel()
U = (x - x.mean(axis=0)) / x.std(axis=0, ddof=1)
K = np.array(cov.discretize(ot.Sample(U)))
F = np.column_stack([np.ones(30), U[:, 0] ** 2])
e = []
for i in range(30):
    k = np.arange(30) != i
    Ki = np.linalg.inv(K[np.ix_(k, k)])
    b = np.linalg.solve(F[k].T @ Ki @ F[k], F[k].T @ Ki @ y[k])
    e.append(y[i] - F[i] @ b - K[i, k] @ Ki @ (y[k] - F[k] @ b))
q2 = 1 - np.mean(np.square(e)) / np.var(y)
assert abs(q2 - pod.getQ2()) < 1e-4, (q2, pod.getQ2())
'''
