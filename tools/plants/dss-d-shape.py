PROPERTY = 'C02'
NEEDS = 'a state space whose D matrix has the right number of rows or of columns, but not both'
BREAKS = 'a D matrix that does not fit is accepted'
EDITS = [('fixif/LTI/dSS.py', "\t\tif d1 != outputs or d2 != inputs:\n", "\t\tif d1 != outputs and d2 != inputs:\n")]
DEMO = '''
import numpy as np
from fixif.LTI import dSS
try:
	dSS(np.eye(2), np.ones((2, 1)), np.ones((1, 2)), np.ones((1, 3)))
except ValueError:
	sys.exit(0)
sys.exit('accepted')
'''
