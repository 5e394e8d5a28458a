"""Writes known_findings.txt: open findings first, then one line per repair committed in /repo (run it after editing)."""
import json
import os
import subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = json.load(open(os.path.join(HERE, 'tools', 'findings.json')))
# words of the commit message -> property
FIXED = [('mul_exact', 'C01'), ('func_aux error', 'C02'), ('python2mpf', 'C03'), ('mp_poly_product', 'C04'), ('dTF with', 'C05'), ('dTFmp norm', 'C06'), ('dSSmp sub', 'C09'),
         ('dSSmp.to_dTFmp', 'C06'), ('dSSmp.simulate', 'C09'), ('dSS product', 'C02'), ('similarity', 'C08'), ('random_dSS draws', 'C19'), ('dSS.simplify', 'C07'), ('SIF setters', 'C11'),
         ('SIF keeps', 'C10'), ('SIF.dJ', 'C11'), ('generate_inputs', 'C12'), ('getZtp', 'C23'), ('Realization.quantize', 'C17'), ('pole sensitivity without', 'C22'), ('generated C code', 'C15'), ('runCdouble', 'C15'),
         ('algorithm with surnames', 'C16'), ('lines of an algorithm', 'C16'), ('transfer function and pole', 'C22'), ('LGS and LCW dec', 'C13'), ('LGS and LCW do', 'C13'), ('rhoDFII with', 'C14'), ('rhoDFII scaling', 'C14')]
if os.path.exists(os.path.join(HERE, 'tools', 'fixed.json')):
	FIXED = [tuple(x) for x in json.load(open(os.path.join(HERE, 'tools', 'fixed.json')))] + FIXED
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', '2b2efea..HEAD'], capture_output=True, text=True).stdout.strip().split('\n')
with open(os.path.join(HERE, 'known_findings.txt'), 'w') as f:
	for x in FINDINGS:
		f.write('finding: property=%s %s\n' % (x.pop('property'), json.dumps(x)))
	for line in log:
		h, s = line.split(' ', 1)
		if not s.startswith('fix: '):
			continue
		p = [b for a, b in FIXED if s[5:].startswith(a) or a in s]
		assert p, s
		f.write('fixed: property=%s %s %s\n' % (p[0], h, s[5:]))
