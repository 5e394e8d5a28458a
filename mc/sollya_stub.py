"""Stand-in for the sollya package (pythonsollya), which is not installed here: exact arithmetic, polynomials, intervals,
and procedures (`parse`) given by the check that uses it. It is environment, not code under test.

Numbers are exact rationals as long as they can be, otherwise values with 800 bits.
"""
import sys
import types
import math
import numbers
from fractions import Fraction as Fr
import mpmath
from mpmath import mp, mpf

BITS = 800
RN, RU, RD, RZ = 'RN', 'RU', 'RD', 'RZ'


def _exact(x):
	"""exact value (Fraction) of a number, or the 800-bit value of an irrational one"""
	if isinstance(x, SollyaObject):
		return x._v
	if isinstance(x, bool):
		return Fr(int(x))
	if isinstance(x, numbers.Integral):
		return Fr(int(x))
	if isinstance(x, Fr):
		return x
	if isinstance(x, mpf):
		s, m, e, _ = x._mpf_
		return (-1) ** s * Fr(int(m)) * Fr(2) ** e
	if isinstance(x, numbers.Real):         # float, numpy.float64
		return Fr(float(x))
	raise TypeError("sollya: cannot convert %r" % (x,))


def _m(x):
	"""mpf on BITS bits of a Fraction or an mpf"""
	if isinstance(x, Fr):
		with mp.workprec(BITS):
			return mpf(x.numerator) / mpf(x.denominator)
	return x


def _num(op, a, b):
	if isinstance(a, Fr) and isinstance(b, Fr):
		return op(a, b)
	with mp.workprec(BITS):
		return op(_m(a), _m(b))


class SollyaObject(object):
	"""a number, an interval (lo, hi) or a polynomial (dict power -> number)"""

	def __init__(self, x=0):
		if isinstance(x, SollyaObject):
			self._v, self._k = x._v, x._k
		elif isinstance(x, tuple) and x and x[0] in ('raw', 'interval', 'poly'):
			self._k, self._v = x
		else:
			self._k, self._v = 'raw', _exact(x)

	# operations
	def _bin(self, other, op, name):
		o = other if isinstance(other, SollyaObject) else SollyaObject(other)
		if self._k == 'raw' and o._k == 'raw':
			return SollyaObject(('raw', _num(op, self._v, o._v)))
		if 'interval' in (self._k, o._k):
			if 'poly' in (self._k, o._k):
				raise TypeError("sollya: interval and polynomial")
			a, b = self._ends(), o._ends()
			vals = [_num(op, x, y) for x in a for y in b]
			return SollyaObject(('interval', (min(vals), max(vals))))
		p, q = self._poly(), o._poly()
		if name in ('+', '-'):
			return SollyaObject(('poly', {k: _num(op, p.get(k, Fr(0)), q.get(k, Fr(0))) for k in set(p) | set(q)}))
		if name == '*':
			r = {}
			for i, a in p.items():
				for j, b in q.items():
					r[i + j] = _num(lambda x, y: x + y, r.get(i + j, Fr(0)), _num(lambda x, y: x * y, a, b))
			return SollyaObject(('poly', r))
		if name == '/' and set(q) <= {0}:
			return SollyaObject(('poly', {k: _num(op, v, q[0]) for k, v in p.items()}))
		raise TypeError("sollya: unsupported operation on polynomials")

	def _ends(self):
		return self._v if self._k == 'interval' else (self._v, self._v)

	def _poly(self):
		return self._v if self._k == 'poly' else {0: self._v}

	def __add__(self, o): return self._bin(o, lambda a, b: a + b, '+')
	def __radd__(self, o): return SollyaObject(o) + self
	def __sub__(self, o): return self._bin(o, lambda a, b: a - b, '-')
	def __rsub__(self, o): return SollyaObject(o) - self
	def __mul__(self, o): return self._bin(o, lambda a, b: a * b, '*')
	def __rmul__(self, o): return SollyaObject(o) * self
	def __truediv__(self, o): return self._bin(o, lambda a, b: a / b, '/')
	def __rtruediv__(self, o): return SollyaObject(o) / self
	def __neg__(self): return SollyaObject(0) - self
	def __pos__(self): return self
	def __abs__(self): return absolute(self)

	def __pow__(self, o):
		o = o if isinstance(o, SollyaObject) else SollyaObject(o)
		if o._k != 'raw':
			raise TypeError("sollya: exponent")
		e = o._v
		if self._k == 'poly':
			if not (isinstance(e, Fr) and e.denominator == 1 and e >= 0):
				raise TypeError("sollya: power of a polynomial")
			r = SollyaObject(('poly', {0: Fr(1)}))
			if set(self._v) == {1} and self._v[1] == 1:
				return SollyaObject(('poly', {int(e): Fr(1)}))
			for _ in range(int(e)):
				r = r * self
			return r
		if self._k == 'interval':
			raise TypeError("sollya: power of an interval")
		if isinstance(e, Fr) and e.denominator == 1 and isinstance(self._v, Fr):
			return SollyaObject(('raw', self._v ** int(e)))
		with mp.workprec(BITS):
			return SollyaObject(('raw', mpmath.power(_m(self._v), _m(e))))

	def __rpow__(self, o): return SollyaObject(o) ** self

	# comparisons (of numbers)
	def _cmp(self, other):
		o = other if isinstance(other, SollyaObject) else SollyaObject(other)
		if self._k != 'raw' or o._k != 'raw':
			if self._k == o._k and self._clean() == o._clean():
				return 0
			raise TypeError("sollya: these objects are not ordered")
		a, b = self._v, o._v
		if not (isinstance(a, Fr) and isinstance(b, Fr)):
			a, b = _m(a), _m(b)
		return (a > b) - (a < b)

	def _clean(self):
		return {k: v for k, v in self._v.items() if v != 0} if self._k == 'poly' else self._v

	def __lt__(self, o): return _inf(o, -1) or (not _inf(o, 1) and self._cmp(o) < 0)
	def __le__(self, o): return _inf(o, -1) or (not _inf(o, 1) and self._cmp(o) <= 0)
	def __gt__(self, o): return _inf(o, 1) or (not _inf(o, -1) and self._cmp(o) > 0)
	def __ge__(self, o): return _inf(o, 1) or (not _inf(o, -1) and self._cmp(o) >= 0)

	def __eq__(self, o):
		try:
			return not _inf(o, 1) and not _inf(o, -1) and self._cmp(o) == 0
		except TypeError:
			return False

	def __ne__(self, o): return not self == o
	def __hash__(self): return hash(str(self._v))

	def __float__(self):
		if self._k != 'raw':
			raise TypeError("sollya: not a number")
		return float(self._v) if isinstance(self._v, Fr) else float(_m(self._v))

	def __int__(self):
		return int(self._v)

	def __bool__(self):
		return self._k != 'raw' or self._v != 0

	def __repr__(self):
		return "SollyaObject(%s, %s)" % (self._k, self._v)

	def coeffs(self):
		"""list of the coefficients of a polynomial, in ascending powers"""
		p = self._poly()
		return [p.get(i, Fr(0)) for i in range(max(p) + 1)] if p else [Fr(0)]


def _inf(o, sign):
	"""o is the (float) infinity -> -1: everything is lower than +inf"""
	return isinstance(o, float) and math.isinf(o) and (o > 0) == (sign < 0)


def rnd(v, prec, mode):
	"""v (Fraction or mpf) rounded to prec bits (unbounded exponent), as a Fraction"""
	if not isinstance(v, Fr):
		v = _exact(v)
	if v == 0:
		return v
	n, d = abs(v.numerator), v.denominator
	e = n.bit_length() - d.bit_length()
	if Fr(n, d) < Fr(2) ** e:
		e -= 1
	ulp = Fr(2) ** (e - int(prec) + 1)
	k = v / ulp
	f = math.floor(k)
	if f == k:
		return v
	if mode == RU:
		f += 1
	elif mode == RZ:
		f = f if v > 0 else f + 1
	elif mode == RN:
		r = k - f
		if r > Fr(1, 2) or (r == Fr(1, 2) and f % 2):
			f += 1
	elif mode != RD:
		raise TypeError("sollya: rounding mode")
	return f * ulp


def _round(x, prec, mode):
	x = x if isinstance(x, SollyaObject) else SollyaObject(x)
	if x._k != 'raw':
		raise TypeError("sollya: round needs a number")
	return SollyaObject(('raw', rnd(x._v, int(SollyaObject(prec)), mode)))


def Interval(a, b=None):
	a = SollyaObject(a)
	b = a if b is None else SollyaObject(b)
	lo, hi = a._ends()[0], b._ends()[1]
	if a._k == 'poly' or b._k == 'poly' or lo > hi:
		raise TypeError("sollya: bad interval")
	return SollyaObject(('interval', (lo, hi)))


def inf(x):
	return SollyaObject(('raw', SollyaObject(x)._ends()[0]))


def sup(x):
	return SollyaObject(('raw', SollyaObject(x)._ends()[1]))


def mid(x):
	return (inf(x) + sup(x)) / 2


def _max(*a):
	a = a[0] if len(a) == 1 and isinstance(a[0], (list, tuple)) else a
	r = SollyaObject(a[0])
	for x in a[1:]:
		x = SollyaObject(x)
		r = x if x > r else r
	return r


def _min(*a):
	a = a[0] if len(a) == 1 and isinstance(a[0], (list, tuple)) else a
	r = SollyaObject(a[0])
	for x in a[1:]:
		x = SollyaObject(x)
		r = x if x < r else r
	return r


def absolute(x):
	x = SollyaObject(x)
	return -x if x._k == 'raw' and x._v < 0 else x


class Structure(dict):
	"""what a Sollya structure looks like"""

	def __getattr__(self, k):
		try:
			return self[k]
		except KeyError:
			raise AttributeError(k)


class Env(object):
	"""what the stand-in was asked: files executed, procedures called; and the procedures it knows"""
	executed = []
	calls = []
	procs = {}
	fail = None             # an exception that execute raises

	@classmethod
	def reset(cls, **procs):
		cls.executed, cls.calls, cls.procs, cls.fail = [], [], procs, None


def _execute(path):
	import os
	path = str(path)
	if Env.fail:
		raise Env.fail
	Env.executed.append(os.path.abspath(path))
	if not os.path.isfile(path):
		return SollyaObject(0)         # Sollya displays a message and goes on


def _parse(text):
	text = str(text).strip().rstrip(';')

	def f(*args):
		import re
		if not any(re.search(r'procedure\s+%s\s*\(' % re.escape(text), open(p).read()) for p in Env.executed if p.endswith('.sol') and __import__('os').path.isfile(p)):
			raise TypeError("sollya: %s is not a procedure (the file that defines it is not loaded)" % text)
		Env.calls.append((text, args))
		return Env.procs[text](*args) if text in Env.procs else None
	f.__name__ = text
	return f


def module():
	m = types.ModuleType('sollya')
	m.SollyaObject = SollyaObject
	m._x_ = SollyaObject(('poly', {1: Fr(1)}))
	m.x = m._x_
	m.RN, m.RU, m.RD, m.RZ = RN, RU, RD, RZ
	m.round, m.Interval, m.inf, m.sup, m.mid, m.max, m.min, m.abs = _round, Interval, inf, sup, mid, _max, _min, absolute
	m.horner = m.canonical = m.simplify = lambda p: SollyaObject(p)
	m.coeff = lambda p, i: SollyaObject(('raw', SollyaObject(p)._poly().get(int(SollyaObject(i)), Fr(0))))
	m.degree = lambda p: SollyaObject(max([k for k, v in SollyaObject(p)._poly().items() if v] or [0]))
	m.parse, m.execute = _parse, _execute
	m.suppressmessage = m.unsuppressmessage = m.lib_init = m.lib_close = lambda *a: None
	m.true, m.false = True, False
	with mp.workprec(BITS):
		m.pi = SollyaObject(('raw', +mp.pi))
	m.log10 = lambda v: SollyaObject(('raw', _fun(mpmath.log10, v)))
	m.log = lambda v: SollyaObject(('raw', _fun(mpmath.log, v)))
	m.exp = lambda v: SollyaObject(('raw', _fun(mpmath.exp, v)))
	m.sqrt = lambda v: SollyaObject(('raw', _fun(mpmath.sqrt, v)))
	m.double = m.D = lambda v: _round(v, 53, RN)
	return m


def _fun(f, v):
	with mp.workprec(BITS):
		return f(_m(SollyaObject(v)._v))


def install():
	sys.modules['sollya'] = module()
