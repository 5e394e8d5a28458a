PROPERTY = 'C24'
NEEDS = 'a realization made with some options given, after (or before) another one of the same structure'
BREAKS = 'the options given once become the default values of the structure for the next realizations'
EDITS = [('fixif/Structures/Structure.py', '\t\t\tRopt[opt] = val\n', '\t\t\tRopt[opt] = val\n\t\t\tif self._options and opt in self._options and len(self._options) > 1:\n\t\t\t\tself._options[opt] = (val,) + tuple(v for v in self._options[opt] if v != val)\n')]
DEMO = '''

from fixif.LTI import Filter
from fixif.Structures.Structure import Structure, makeARealization
f = Filter(num=[1, 2, 3], den=[1, 0.5, 0.25])
R0 = makeARealization(f, 'DFI')
R1 = [makeARealization(f, 'DFI', transposed=True, nbSum=2), makeARealization(f, 'DFI')][1]
assert R0.size == R1.size and (R0.Z == R1.Z).all(), (R0.structureName, R1.structureName)
'''
