PROPERTY = 'C01'
NEEDS = 'a threshold equal to 0 (signals may be negative)'
BREAKS = 'signals below a noise threshold of 0.0 are not censored'
EDITS = [('otpod/_math_tools.py', '        if noiseThres is None:\n            noiseThres = -sys', '        if not noiseThres:\n            noiseThres = -sys')]
DEMO = r'''
import numpy as np, otpod
x = [[float(i)] for i in range(8)]
y = [[-1.0], [-0.5], [0.0], [1.0], [2.0], [3.0], [4.0], [9.0]]
u, lo, hi, s = otpod.DataHandling.filterCensoredData(x, y, 0.0, 8.0)
assert u.getSize() == 4 and lo.getSize() == 3 and hi.getSize() == 1, (u, lo, hi)
'''
