PROPERTY = 'C21'
NEEDS = 'intermediate variables that must be reordered to make J lower triangular, by a permutation that is not its own inverse'
BREAKS = 'the columns of K are permuted by the inverse order'
EDITS = [('fixif/Structures/Simulink/sif.py', '\t\t\t\tKn[i][j] = self.K[i][lorder[j]]', '\t\t\t\tKn[i][j] = self.K[i][lorder.index(j)]')]
DEMO = '''
import os, zipfile, io, contextlib
from fixif.Structures.Simulink import importSimulink


def load(blocks, lines):
	"""blocks: [(type, sid, {P: value}, inner xml)], lines: [(src, [dst])]"""
	def xml(blocks, lines):
		s = '<System>'
		for t, sid, prm, inner in blocks:
			s += '<Block BlockType="%s" Name="%s%s" SID="%s">' % (t, t, sid, sid)
			s += ''.join('<P Name="%s">%s</P>' % i for i in prm.items())
			s += (xml(*inner) if inner else '') + '</Block>'
		for src, dst in lines:
			s += '<Line><P Name="Src">%s</P>' % src
			if len(dst) == 1:
				s += '<P Name="Dst">%s</P>' % dst[0]
			else:
				s += ''.join('<Branch><P Name="Dst">%s</P></Branch>' % d for d in dst)
			s += '</Line>'
		return s + '</System>'
	p = os.path.join(_tmp, 'd.slx')
	with zipfile.ZipFile(p, 'w') as z:
		z.writestr('simulink/blockdiagram.xml', '<?xml version="1.0" encoding="utf-8"?><ModelInformation><Model Name="m">' + xml(blocks, lines) + '</Model></ModelInformation>')
	with contextlib.redirect_stdout(io.StringIO()):
		return importSimulink(p)

import itertools
# three sums in a chain (each one also used by a Delay, so that they are not merged), in every order of the file
for perm in itertools.permutations(range(3)):
	blocks = [('Sum', '1%d' % i, {'Ports': '[2, 1]', 'Inputs': '++'}, None) for i in perm]
	blocks += [('Inport', '1', {}, None), ('Sum', '13', {'Ports': '[2, 1]', 'Inputs': '++'}, None), ('Outport', '2', {}, None)]
	blocks += [('Delay', '2%d' % i, {'DelayLength': 1}, None) for i in range(3)] + [('Gain', '3%d' % i, {'Gain': 0.25 * (i + 1)}, None) for i in range(3)]
	lines = [('1#out:1', ['10#in:1', '11#in:2']), ('10#out:1', ['11#in:1', '30#in:1']), ('11#out:1', ['12#in:1', '31#in:1']), ('12#out:1', ['32#in:1', '13#in:1'])]
	lines += [('3%d#out:1' % i, ['2%d#in:1' % i]) for i in range(3)] + [('20#out:1', ['10#in:2']), ('21#out:1', ['12#in:2']), ('22#out:1', ['13#in:2']), ('13#out:1', ['2#in:1'])]
	S = load(blocks, lines).dSS
	d = [0., 0., 0.]
	want = []
	for u in (1., 0., 0., 0.):
		s0 = u + d[0]
		s1 = s0 + u
		s2 = s1 + d[1]
		want.append(s2 + d[2])
		d = [0.25 * s0, 0.5 * s1, 0.75 * s2]
	h = [S.D[0, 0], (S.C * S.B)[0, 0], (S.C * S.A * S.B)[0, 0], (S.C * S.A * S.A * S.B)[0, 0]]
	assert all(abs(a - b) < 1e-9 for a, b in zip(h, want)), (perm, h, want)
'''
