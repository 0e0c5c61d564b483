PROPERTY = 'C01'
NEEDS = 'a signal exactly equal to the saturation threshold'
BREAKS = 'a signal equal to the saturation threshold belongs to no group: the data are not partitioned'
EDITS = [('otpod/_math_tools.py', 'signals >= saturationThres)]', 'signals > saturationThres)]')]
DEMO = r'''
import numpy as np, otpod
x = [[float(i)] for i in range(6)]
y = [[1.0], [2.0], [3.0], [4.0], [5.0], [5.0]]
u, lo, hi, s = otpod.DataHandling.filterCensoredData(x, y, 1.0, 5.0)
assert u.getSize() + lo.getSize() + hi.getSize() == 6, (u, lo, hi)
'''
