PROPERTY = 'C23'
NEEDS = 'a coefficient close to an integer (by less than 1e-4), with a format that shows the difference'
BREAKS = 'the coefficient is displayed as the integer in the LaTeX matrix'
EDITS = [('fixif/SIF/SIF.py', '\t\t\t\telif int(self.Z[i, j]) == self.Z[i, j]:', '\t\t\t\telif abs(round(self.Z[i, j]) - self.Z[i, j]) < 1e-4:'), ('fixif/SIF/SIF.py', '\t\t\t\t\tline.append("%d" % self.Z[i,j])', '\t\t\t\t\tline.append("%d" % round(self.Z[i,j]))')]
DEMO = '''

from fixif.LTI import Filter
from fixif.Structures import State_Space
R = State_Space(Filter(A=[[0.3]], B=[[1.00002]], C=[[1.0]], D=[[0.0]]))
assert '1.00002' in R.getZtpmatrixLaTeX(strFormat='%.8g')
'''
