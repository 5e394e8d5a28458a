PROPERTY = 'C19'
NEEDS = 'random MISO filters asked with ranges for p and q that differ'
BREAKS = 'the number of inputs of the random MISO filters is drawn in the range of the outputs'
EDITS = [('fixif/LTI/Filter.py', "'MISO': ((1, 2), q)", "'MISO': ((1, 2), p)")]
DEMO = '''
from fixif.LTI import iter_random_Filter
import numpy as np
np.random.seed(3)
for f in iter_random_Filter(4, n=(2, 4), p=(1, 3), q=(4, 6), ftype='MISO'):
	assert 4 <= f.q < 6 and f.p == 1, (f.p, f.q)
'''
