PROPERTY = 'C24'
NEEDS = 'a variable displayed with its surname and an own shift, with a shift asked at the same time'
BREAKS = 'the shift of the surname replaces the shift asked, instead of being added to it'
EDITS = [('fixif/SoP/VarName.py', '\t\t\t\tshift += self._shift\n', '\t\t\t\tshift = self._shift or shift\n')]
DEMO = '''

from fixif.SoP import VarName
v = VarName('x', 2, surname='u', index=3, shift=-1)
assert '(k+1)' in v.toStr(withSurname=True, shift=2), v.toStr(withSurname=True, shift=2)
'''
