PROPERTY = 'C19'
NEEDS = 'a Filter given by a state space with one output and several inputs'
BREAKS = 'a MISO filter is said to be SISO, and a transfer function (of its first input) is given for it instead of the refusal'
EDITS = [('fixif/LTI/Filter.py', "self._dSS.D.shape == (1, 1)", "self._dSS.D.shape[0] == 1")]
DEMO = '''
from fixif.LTI import Filter
f = Filter(A=[[0.5]], B=[[1.0, 2.0]], C=[[1.0]], D=[[0.0, 1.0]])
assert not f.isSISO()
'''
