PROPERTY = 'C07'
NEEDS = 'Box Cox with signals that are not all positive'
BREAKS = 'the detection value is transformed without the shift of the signals in the linear POD'
EDITS = [('otpod/_univariate_linear_model_pod.py', 'detectionBoxCox = boxCoxTransform([detection + shift])[0]', 'detectionBoxCox = boxCoxTransform([detection])[0]')]
DEMO = r'''
import numpy as np, otpod, openturns as ot
rs = np.random.RandomState(1)
x = rs.uniform(1, 5, 40)
y = -5 + 3 * x + rs.randn(40)
pod = otpod.UnivariateLinearModelPOD(x[:, None], y[:, None], 4.0, None, None, ot.NormalFactory(), 1.0)
pod.setVerbose(False)
pod.setSimulationSize(2)
pod.run()
ref = otpod.UnivariateLinearModelPOD(x[:, None], y[:, None], 4.0, None, None, ot.NormalFactory())
ref.setVerbose(False)
ref.setSimulationSize(2)
ref.run()
# lambda = 1 is an affine transformation
for t in (2.0, 3.0, 4.0):
    assert abs(pod.getPODModel()([t])[0] - ref.getPODModel()([t])[0]) < 1e-6
'''
