PROPERTY = 'C21'
NEEDS = 'a Sum that feeds exactly one Sum and another block (a Delay or a Gain)'
BREAKS = 'such a Sum is merged in the other Sum and its equation removed, although the other block needs it'
EDITS = [('fixif/Structures/Simulink/diagram.py', "inpb.type == 'Sum' and len(inpb.outlist) == 1:", "inpb.type == 'Sum' and len(inpb.outlist) - (bout in inpb.outlist) <= 1 and not inpb.isoutblock():")]
DEMO = '''
import os, zipfile, io, contextlib
from fixif.Structures.Simulink import importSimulink


def load(blocks, lines):
	"""blocks: [(type, sid, {P: value}, inner xml)], lines: [(src, [dst])]"""
	def xml(blocks, lines):
		s = '<System>'
		for t, sid, prm, inner in blocks:
			s += '<Block BlockType="%s" Name="%s%s" SID="%s">' % (t, t, sid, sid)
			s += ''.join('<P Name="%s">%s</P>' % i for i in prm.items())
			s += (xml(*inner) if inner else '') + '</Block>'
		for src, dst in lines:
			s += '<Line><P Name="Src">%s</P>' % src
			if len(dst) == 1:
				s += '<P Name="Dst">%s</P>' % dst[0]
			else:
				s += ''.join('<Branch><P Name="Dst">%s</P></Branch>' % d for d in dst)
			s += '</Line>'
		return s + '</System>'
	p = os.path.join(_tmp, 'd.slx')
	with zipfile.ZipFile(p, 'w') as z:
		z.writestr('simulink/blockdiagram.xml', '<?xml version="1.0" encoding="utf-8"?><ModelInformation><Model Name="m">' + xml(blocks, lines) + '</Model></ModelInformation>')
	with contextlib.redirect_stdout(io.StringIO()):
		return importSimulink(p)

# y = d + s where s = u + d feeds the output Sum and the Delay d
R = load([('Inport', '1', {}, None), ('Sum', '2', {'Ports': '[2, 1]', 'Inputs': '|++'}, None), ('Delay', '3', {'DelayLength': 1}, None), ('Gain', '6', {'Gain': 0.5}, None),
	('Sum', '4', {'Ports': '[2, 1]', 'Inputs': '|++'}, None), ('Outport', '5', {}, None)],
	[('1#out:1', ['2#in:1']), ('3#out:1', ['6#in:1', '4#in:2']), ('6#out:1', ['2#in:2']), ('2#out:1', ['4#in:1', '3#in:1']), ('4#out:1', ['5#in:1'])])
h = [float(v) for v in R.dSS.to_dTF().num.A1]
print(h, R.dSS)
S = R.dSS
assert abs(S.D[0, 0] - 1) < 1e-12 and abs((S.C * S.B)[0, 0] - 1.5) < 1e-12 and abs(S.A[0, 0] - 0.5) < 1e-12
'''
