"""Controlled random generator: every draw made through numpy.random (or names imported from it by fixif) is a choice point.

run_all(f, depth) executes f once for every sequence of answers to the first `depth` choice points (later ones get their first
answer): stateless exploration with backtracking."""
import sys
import math
import numpy
import numpy.random
import random as pyrandom

RAND = (0.02, 0.3, 0.7, 0.995)


class Exhausted(Exception):
	pass


class Choices(object):
	"""prefix of choices; then the first one"""

	def __init__(self, prefix, depth, limit=4000):
		self.prefix, self.depth, self.limit = list(prefix), depth, limit
		self.arity = []
		self.taken = []
		self.calls = 0

	def pick(self, n):
		self.calls += 1
		if self.calls > self.limit:
			raise Exhausted('more than %d draws' % self.limit)
		k = len(self.taken)
		i = self.prefix[k] if k < len(self.prefix) else 0
		if k < self.depth:
			self.arity.append(n)
			self.taken.append(i)
		else:
			# beyond the depth: the answers take turns (so that a loop waiting for a good one ends)
			i = self.calls % n
		return i


class Controlled(object):
	"""context: replaces the generator; answers come from a Choices"""

	NAMES = ('rand', 'randn', 'randint', 'choice', 'seed', 'random_sample', 'random', 'uniform', 'ranf', 'sample', 'standard_normal', 'normal', 'permutation', 'shuffle')

	def __init__(self, ch, ints=None, randn_first=True):
		self.ch = ch
		self.ints = ints
		self.seeds = []

	def one(self):
		return RAND[self.ch.pick(len(RAND))]

	def array(self, shape):
		# patterns for arrays: all low / alternating / one high / all high
		shape = tuple(int(x) for x in shape)
		n = 1
		for s in shape:
			n *= s
		if n == 1:
			return numpy.array([self.one()]).reshape(shape)
		k = self.ch.pick(3)
		v = [[0.02] * n, [(0.02, 0.995)[i % 2] for i in range(n)], [0.995] * n][k]
		return numpy.array(v).reshape(shape)

	def gauss(self, shape):
		shape = tuple(int(x) for x in shape)
		n = 1
		for s in shape:
			n *= s
		k = self.ch.pick(3 if len(shape) == 2 and shape[0] == shape[1] and n > 1 else 2)
		v = [math.sin(1. + 2.3 * i) + 0.1 for i in range(n)] if k == 0 else [(-1.) ** i * (0.5 + 0.7 * ((i * i) % 5)) for i in range(n)] if k == 1 else [1.] * n
		M = numpy.array(v).reshape(shape)
		if k < 2 and len(shape) == 2 and shape[0] == shape[1]:
			M = M + (k + 1.) * 2 * numpy.eye(shape[0])
		return M

	# ---- the functions
	def rand(self, *shape):
		return self.array(shape) if shape else self.one()

	def randn(self, *shape):
		return self.gauss(shape) if shape else float(self.gauss((1,))[0])

	def random_sample(self, size=None):
		if size is None:
			return self.one()
		return self.array((size,) if isinstance(size, int) else size)

	random = ranf = sample = random_sample

	def uniform(self, low=0., high=1., size=None):
		x = self.random_sample(size)
		return low + (high - low) * x

	def standard_normal(self, size=None):
		return self.randn() if size is None else self.gauss((size,) if isinstance(size, int) else size)

	def normal(self, loc=0., scale=1., size=None):
		return loc + scale * self.standard_normal(size)

	def randint(self, low, high=None, size=None, dtype=int):
		if high is None:
			low, high = 0, low
		low, high = int(math.ceil(low)), int(math.ceil(high))
		if low >= high:
			raise ValueError('low >= high')
		vals = list(range(low, high)) if high - low <= 6 else [low, high - 1, (low + high) // 2]
		return vals[self.ch.pick(len(vals))]

	def choice(self, a, size=None, replace=True, p=None):
		a = list(range(a)) if isinstance(a, int) else list(a)
		return a[self.ch.pick(len(a))]

	def permutation(self, x):
		return numpy.array(list(range(x)) if isinstance(x, int) else list(x))

	def shuffle(self, x):
		return None

	def seed(self, s=None):
		self.seeds.append(s)

	def __enter__(self):
		self.saved = []
		orig = {}
		for n in self.NAMES:
			for mod in (numpy.random, numpy.random.mtrand):
				f = getattr(mod, n, None)
				if f is not None:
					orig[id(f)] = (f, n)
					self.saved.append((mod, n, f))
		# names imported in the modules of fixif
		for name, mod in list(sys.modules.items()):
			if name.startswith('fixif') and mod is not None:
				for a, f in list(vars(mod).items()):
					if callable(f) and getattr(f, '__self__', None) is not None and type(f.__self__).__name__ == 'RandomState':
						self.saved.append((mod, a, f))
		for mod, a, f in self.saved:
			n = f.__name__ if f.__name__ in self.NAMES else a
			setattr(mod, a, getattr(self, n))
		return self

	def __exit__(self, *_):
		for mod, a, f in self.saved:
			setattr(mod, a, f)
		return False


def run_all(f, depth):
	"""f(Controlled, taken) for every sequence of answers; yields number of runs"""
	prefix = []
	n = 0
	while True:
		ch = Choices(prefix, depth)
		c = Controlled(ch)
		with c:
			f(c, ch)
		n += 1
		# next sequence
		t, ar = ch.taken, ch.arity
		k = len(t) - 1
		while k >= 0 and t[k] + 1 >= ar[k]:
			k -= 1
		if k < 0:
			return n
		prefix = t[:k] + [t[k] + 1]
