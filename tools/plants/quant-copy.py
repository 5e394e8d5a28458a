PROPERTY = 'C17'
NEEDS = 'a coefficient of a realization edited after (or before) a quantization, and both realizations then queried'
BREAKS = 'the sub-matrix setters edit Z in place, so an edit of a realization obtained by quantize without dZ of its own changes the mask of the other'
EDITS = [('fixif/SIF/Realization.py', "\t\tR = copy(self)\n\t\tquantizeMat = np.vectorize(lambda x: quant(x, w), otypes=[float])\n\t\tR.Z = quantizeMat(R.Z)\n", "\t\tR = copy(self)\n\t\tquantizeMat = np.vectorize(lambda x: quant(x, w), otypes=[float])\n\t\tR.Z[:, :] = quantizeMat(R.Z)\n\t\tR.Z = R.Z\n")]
DEMO = '''
from fixif.LTI import Filter
from fixif.Structures import State_Space
R = State_Space(Filter(A=[[0.3]], B=[[1.0]], C=[[0.7]], D=[[0.25]]))
Q = R.quantize(3)
assert R.P[0, 0] == 0.3, R.P
assert Q.P[0, 0] != 0.3
'''
