PROPERTY = 'C17'
NEEDS = 'a non-null coefficient smaller than 1e-8 in absolute value'
BREAKS = 'a tiny non-null coefficient becomes null when quantized, instead of the nearest number of w bits'
EDITS = [('fixif/SIF/Realization.py', "signed=True).approx if x else 0\n", "signed=True).approx if abs(x) > 1e-8 else 0\n")]
DEMO = '''
from fixif.LTI import Filter
from fixif.Structures import State_Space
R = State_Space(Filter(A=[[0.5]], B=[[3e-10]], C=[[1.0]], D=[[0.25]]))
Q = R.quantize(10)
assert abs(float(Q.Q[0, 0]) - 3e-10) < 1e-12, Q.Q
'''
