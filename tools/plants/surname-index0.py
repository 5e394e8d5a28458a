PROPERTY = 'C16'
NEEDS = 'surnames of the states (or intermediate variables) given by the user with an index that starts from 0'
BREAKS = 'the variable of index 0 loses its index in the algorithm'
EDITS = [('fixif/SoP/VarName.py', "\t\tindex = '' if index is None else str(index)\n", "\t\tindex = str(index) if index else ''\n")]
DEMO = '''
import numpy as np
from fixif.SIF import Realization
e = np.zeros
R = Realization(None, (e((0, 0)), e((2, 0)), e((1, 0)), e((0, 2)), e((0, 1)), [[0.5, 0.25], [0., 0.125]], [[1.], [2.]], [[1., 3.]], [[0.]]), surnameVarX=[('mem', 0, 0), ('mem', 1, 0)])
t = R.algorithmTxt(withSurname=True)
assert 'mem0(k)' in t and 'mem1(k)' in t, t
'''
