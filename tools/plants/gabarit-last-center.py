PROPERTY = 'C20'
NEEDS = 'a bandstop (two pass bands), or a specification queried or designed again after a design with a margin'
BREAKS = 'Band - gain gives the same Band object when the gain is 0, so the design margin changes the specification itself'
EDITS = [('fixif/LTI/Gabarit.py', "\t\tbands = [b-centerPassGain for b in self._bands]\n", "\t\tbands = [b-centerPassGain for b in self._bands] if centerPassGain else list(self._bands)\n")]
DEMO = '''
from fixif.LTI import Gabarit
g = Gabarit(None, [(0, 0.3), (0.5, None)], [(-0.5, 0.5), -20])
before = str(g)
g.to_dTF(designMargin=0.1)
assert str(g) == before, str(g)
'''
