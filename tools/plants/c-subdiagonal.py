PROPERTY = 'C15'
NEEDS = 'a realization with at least 3 states whose matrix P has a null sub-diagonal but a non-null coefficient below it'
BREAKS = 'the C code overwrites states that are still needed to compute the next ones'
EDITS = [('fixif/SIF/Realization_implementation.py', "\t\tisPlt = all(tril(self.P, -1) == 0)\n", "\t\tisPlt = all(self.P.diagonal(-1) == 0)\n")]
DEMO = '''
import numpy as np
import fixif.SIF.Realization_implementation as impl
impl.GENERATED_PATH = _tmp + '/'
from fixif.LTI import Filter
from fixif.Structures import State_Space
A = np.matrix([[0.5, 0., 0.], [0., 0.25, 0.], [0.5, 0., -0.5]])
f = Filter(A=A, B=np.matrix([[1.], [1.], [1.]]), C=np.matrix([[1., 1., 1.]]), D=np.matrix([[0.]]))
R = State_Space(f)
u = np.matrix([[1., 0.5, -1., 2., 0.25]])
assert abs(R.runCdouble(u) - R.simulate(u)).max() < 1e-12
'''
