PROPERTY = 'C18'
NEEDS = 'optimalWL on a realization with at least two outputs with different constraints'
BREAKS = 'the word-lengths share the first constraint only, the other outputs miss theirs'
EDITS = [('fixif/SIF/Realization_FxP.py', "- log2(eps[i,0])) for i in range(self.p)) ))", "- log2(eps[0,0])) for i in range(self.p)) ))")]
DEMO = '''
import numpy as np
import os
from fixif.LTI import Filter
from fixif.Structures import State_Space
R = State_Space(Filter(A=np.matrix([[0.5]]), B=np.matrix([[1.]]), C=np.matrix([[1.], [1.]]), D=np.matrix([[0.], [0.]])))
w1 = R.optimalWL(np.matrix([[1.]]), np.matrix([[0.5], [0.5]]), AMPLpath=_tmp)
w2 = R.optimalWL(np.matrix([[1.]]), np.matrix([[0.5], [0.5 / 1024]]), AMPLpath=_tmp)
assert max(b - a for a, b in zip(w1, w2)) == 10, (w1, w2)
'''
