PROPERTY = 'C27'
NEEDS = 'a band that ends at a frequency F2 such that 2*F2/Fs is not a double'
BREAKS = 'the last frequency of the band checked is the double that approximates 2*F2/Fs (it can be lower than the real one)'
EDITS = [('fixif/LTI/Gabarit.py', "\t\tw2 = 2*sollya.SollyaObject(self._F2)/self._Fs if self._F2 else 1    # F2==None -> F2=Fs/2, so w2=1\n", "\t\tw2 = sollya.SollyaObject(self.w2)\n")]
DEMO = '''
import sys
import types
import math
from fractions import Fraction
m = types.ModuleType('sollya')


class S(Fraction):
	def __new__(cls, x=0, y=None):
		return Fraction.__new__(cls, Fraction(x))


m.SollyaObject = S
m.pi = S(math.pi)
m.RU, m.RD, m.RN = 'RU', 'RD', 'RN'
m.round = lambda x, p, mode: x
m.Interval = lambda a, b: (Fraction(a), Fraction(b))
m.suppressmessage = lambda *a: None
m.execute = lambda f: None
sys.modules['sollya'] = m
from fixif.LTI.Gabarit import Band
for Fs, F1, F2 in ((48000, 0, 12000), (44100, 0, 9600), (3, 0, 1), (48000, 12000, None), (1000, 100, 333)):
	c = Band(Fs, F1, F2, -20).sollyaConstraint(0)
	w = (2 * Fraction(F1) / Fs, 2 * Fraction(F2) / Fs if F2 else Fraction(1))
	assert c['Omega'] == w, (Fs, F1, F2, c['Omega'])
'''
