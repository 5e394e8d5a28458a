PROPERTY = 'C21'
NEEDS = 'a SubSystem with an input port whose internal Inport feeds several blocks by separate lines, or two subsystems in a row'
BREAKS = 'the names of the ports of a subsystem are compared as prefixes: with ten ports or more the port 10 is connected as the port 1'
EDITS = [('fixif/Structures/Simulink/diagram.py', '\t\t\t\tfor line in self.lines:\n\t\t\t\t\tif line.dstsid == subsys.sid and line.dstport == str(port):\n', '\t\t\t\tfor line in self.lines:\n\t\t\t\t\tif line.dstsid == subsys.sid and line.dstport.startswith(str(port)):\n')]
DEMO = '''
import os, zipfile, io, contextlib
from fixif.Structures.Simulink import importSimulink


def load(blocks, lines):
	"""blocks: [(type, sid, {P: value}, inner xml)], lines: [(src, [dst])]"""
	def xml(blocks, lines):
		s = '<System>'
		for t, sid, prm, inner in blocks:
			s += '<Block BlockType="%s" Name="%s%s" SID="%s">' % (t, t, sid, sid)
			s += ''.join('<P Name="%s">%s</P>' % i for i in prm.items())
			s += (xml(*inner) if inner else '') + '</Block>'
		for src, dst in lines:
			s += '<Line><P Name="Src">%s</P>' % src
			if len(dst) == 1:
				s += '<P Name="Dst">%s</P>' % dst[0]
			else:
				s += ''.join('<Branch><P Name="Dst">%s</P></Branch>' % d for d in dst)
			s += '</Line>'
		return s + '</System>'
	p = os.path.join(_tmp, 'd.slx')
	with zipfile.ZipFile(p, 'w') as z:
		z.writestr('simulink/blockdiagram.xml', '<?xml version="1.0" encoding="utf-8"?><ModelInformation><Model Name="m">' + xml(blocks, lines) + '</Model></ModelInformation>')
	with contextlib.redirect_stdout(io.StringIO()):
		return importSimulink(p)

n = 11
inner = ([('Inport', str(200 + i), dict({'Port': i} if i > 1 else {}), None) for i in range(1, n + 1)] + [('Sum', '300', {'Ports': '[%d, 1]' % n, 'Inputs': '+' * n}, None), ('Outport', '301', {}, None)]
	+ [('Gain', str(400 + i), {'Gain': i}, None) for i in range(1, n + 1)],
	[('%d#out:1' % (200 + i), ['%d#in:1' % (400 + i)]) for i in range(1, n + 1)] + [('%d#out:1' % (400 + i), ['300#in:%d' % i]) for i in range(1, n + 1)] + [('300#out:1', ['301#in:1'])])
R = load([('Inport', str(i), dict({'Port': i} if i > 1 else {}), None) for i in range(1, n + 1)] + [('SubSystem', '50', {'Ports': '[%d, 1]' % n}, inner), ('Sum', '60', {'Ports': '[2, 1]', 'Inputs': '++'}, None), ('Delay', '61', {'DelayLength': 1}, None), ('Outport', '62', {}, None)],
	[('%d#out:1' % i, ['50#in:%d' % i]) for i in range(n, 0, -1)] + [('50#out:1', ['60#in:1']), ('61#out:1', ['60#in:2']), ('60#out:1', ['61#in:1', '62#in:1'])])
D = [float(v) for v in R.dSS.D.A1]
print(D)
assert D == [float(i) for i in range(1, n + 1)]
'''
