PROPERTY = 'C19'
NEEDS = 'defect sizes given as a one dimensional array of floats that is not sorted'
BREAKS = 'the array given by the caller is sorted in place'
EDITS = [('otpod/_polynomial_chaos_pod.py', '''        size = np.hstack(np.array(size))
        size.sort()
''', '''        size = np.asarray(size).ravel()
        size.sort()
''')]
DEMO = r'''
import numpy as np, otpod
rs = np.random.RandomState(1)
x = np.column_stack([rs.uniform(0, 5, 60), rs.uniform(-1, 1, 60)])
y = 2 * x[:, 0] + rs.randn(60)
pod = otpod.PolynomialChaosPOD(x, y[:, None], 6.0)
a = np.array([3.0, 1.0, 2.0])
pod.setDefectSizes(a)
assert list(a) == [3.0, 1.0, 2.0], a
'''
