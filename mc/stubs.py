"""Stand-ins for the two companion packages that are not installed here (fixif.WCPG and fixif.FxP).

They are environment, not code under test:
 - WCPG_ABCD / WCPG_TF : worst-case peak gain |D| + sum_k |C A^k B|, by plain summation in double precision
 - Constant(value, wl, signed) : fixed-point approximation by round-to-nearest of a real constant on wl bits
 - FPF(msb=, lsb=, ...) : a fixed-point format record
"""
import sys
import types
import math
from fractions import Fraction


def _wcpg(A, B, C, D, output_info=None):
	import numpy
	A, B, C, D = [numpy.matrix(x, dtype=float) for x in (A, B, C, D)]
	res = numpy.absolute(D)
	x = B.copy()
	small = 1e-20 * min([1.] + [v for v in numpy.absolute(B).A1.tolist() if 0 < v < 1e-6])
	for k in range(200000):
		t = numpy.absolute(C * x)
		res = res + t
		x = A * x
		m = numpy.absolute(x).max() if x.size else 0
		if m < small:
			break
		if not numpy.isfinite(m) or m > 1e60:
			raise ValueError("WCPG: the system is not stable")
	else:
		raise ValueError("WCPG: no convergence")
	if output_info is not None:
		output_info['N'] = k
	return res


def _wcpg_tf(num, den):
	import numpy
	b = [float(x) for x in numpy.matrix(num).A1]
	a = [float(x) for x in numpy.matrix(den).A1]
	a0 = a[0]
	b = [x / a0 for x in b]
	a = [x / a0 for x in a]
	n = max(len(a), len(b))
	b += [0.] * (n - len(b))
	a += [0.] * (n - len(a))
	past = [0.] * n
	tot = 0.
	quiet = 0
	small = 1e-20 * min(1., max(abs(v) for v in b) or 1.)
	for k in range(200000):
		y = (b[k] if k < n else 0.) - sum(a[i] * past[i - 1] for i in range(1, n))
		past = [y] + past[:-1]
		tot += abs(y)
		if not math.isfinite(tot) or tot > 1e60:
			raise ValueError("WCPG: the system is not stable")
		quiet = quiet + 1 if abs(y) < small else 0
		if quiet > n + 2 and k > n:
			break
	return tot


class FPF(object):
	def __init__(self, wl=None, msb=None, lsb=None, signed=True, **kw):
		if msb is None and wl is not None and lsb is not None:
			msb = lsb + wl - 1
		if lsb is None and wl is not None and msb is not None:
			lsb = msb - wl + 1
		self.msb, self.lsb, self.signed = msb, lsb, signed

	@property
	def wl(self):
		return self.msb - self.lsb + 1

	def wml(self):
		return self.wl, self.msb, self.lsb


class Constant(object):
	"""round-to-nearest fixed-point approximation of a constant on wl bits"""

	def __init__(self, value, wl=None, signed=True, fpf=None, **kw):
		self.value = value
		v = Fraction(float(value))
		if wl is None:
			wl = fpf.wl
		if v == 0:
			self.mantissa, lsb, msb = 0, 0, wl - 1
		else:
			msb = math.frexp(float(v))[1] - 1 + (1 if signed else 0)
			lsb = msb - wl + 1
			m = self._rnd(v / Fraction(2) ** lsb)
			lim = 2 ** (wl - 1) if signed else 2 ** wl
			if not -lim <= m < lim:
				msb, lsb = msb + 1, lsb + 1
				m = self._rnd(v / Fraction(2) ** lsb)
			self.mantissa = m
		self.FPF = FPF(msb=msb, lsb=lsb, signed=signed)
		self.approx = float(self.mantissa * Fraction(2) ** lsb)

	@staticmethod
	def _rnd(x):
		f = math.floor(x)
		return f + (1 if x - f >= Fraction(1, 2) else 0)


def install():
	import fixif
	w = types.ModuleType('fixif.WCPG')
	w.WCPG_ABCD, w.WCPG_TF = _wcpg, _wcpg_tf
	sys.modules['fixif.WCPG'] = w
	fixif.WCPG = w
	f = types.ModuleType('fixif.FxP')
	f.__path__ = []
	f.Constant, f.FPF = Constant, FPF
	c = types.ModuleType('fixif.FxP.Constant')
	c.Constant = Constant
	p = types.ModuleType('fixif.FxP.FPF')
	p.FPF = FPF
	sys.modules['fixif.FxP'] = f
	sys.modules['fixif.FxP.Constant'] = c
	sys.modules['fixif.FxP.FPF'] = p
	fixif.FxP = f
