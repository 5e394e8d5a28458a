"""C20: frequency specifications (Gabarit), and filters designed from them or from their type (Butterworth, elliptic)."""
import itertools
import numpy

ID = 'C20'
LEVEL = 'model_checking'
RULE = 'every specification of the pool x design method x margin: the frequency response of the filter is compared with the bands. Every arrangement of pass and stop bands in every order for the classification. Histories: every sequence of queries, designs and plots on one specification, which must not change. Every order x type x frequencies for Butterworth and elliptic filters'
BOUNDS = {'quick': '4 forms x 3 sampling frequencies x 3 centers x 3 widths x 3 stop gains x 3 margins x 4 methods, responses on 600 points per band; arrangements of up to 4 bands; histories of 3 operations out of 10; Butterworth and elliptic filters of order 1..6',
          'thorough': 'more edges, 4 sampling frequencies, 2000 points per band; arrangements of up to 5 bands; histories of 4 operations; orders 1..7'}
ASSUMPTIONS = ['the frequency response is checked on a grid of each band (ends included), with a tolerance of 1e-5 dB', 'Matlab and Sollya are not installed: neither the Matlab designs nor the certified check are considered']


def cases(tier):
	q_ = tier == 'quick'
	pts = 600 if q_ else 2000
	edges = [(0.4, 0.5, 0.6, 0.7)] if q_ else [(0.4, 0.5, 0.6, 0.7), (0.3, 0.45, 0.55, 0.7), (0.35, 0.5, 0.65, 0.8)]
	for Fs in (48000, None, 1) if q_ else (48000, None, 1, 44100.):
		for e in edges:
			for c in (0., 3., -2.5):
				for wd in (1., 0.2, 4.):
					for st in (-20., -45., 'center'):
						for form in ('lowpass', 'highpass', 'bandpass', 'bandstop'):
							yield dict(k='design', Fs=Fs, e=e, c=c, wd=wd, st=st, form=form, pts=pts)
	for Fs in (48000, None, 1, 7, 44100.):
		for e in ((0.4, 0.5, 0.6, 0.7), (0.1, 0.3, 0.5, 0.6), (0.15, 0.2, 0.7, 0.95)):
			for var in ('explicit', 'inner', 'lists', 'ints', 'wide'):
				for form in ('lowpass', 'highpass', 'bandpass', 'bandstop'):
					for c, wd, st in ((0., 2., -20.), (-2.5, 1., -45.), (6., 2., -10.), (1.23456789, 0.87654321, -33.3333333)):
						yield dict(k='design', Fs=Fs, e=e, c=c, wd=wd, st=st, form=form, pts=200, var=var)
	for n in range(1, 5 if q_ else 6):
		for kinds in itertools.product('PS', repeat=n):
			yield dict(k='type', kinds=''.join(kinds))
	ops = ['type', 'str', 'max', 'butter', 'ellip', 'margin', 'center', 'plot', 'plotlin', 'rect']
	for Fs in (48000, None):
		for form in ('lowpass', 'highpass', 'bandpass', 'bandstop'):
			for first in ops:
				yield dict(k='hist', Fs=Fs, form=form, first=first, ops=ops, L=3 if q_ else 4)
	yield dict(k='bad')
	for n in range(1, 7 if q_ else 8):
		for form in ('low', 'lowpass', 'high', 'highpass', 'bandpass', 'bandstop'):
			yield dict(k='butter', n=n, form=form)
			yield dict(k='ellip', n=n, form=form)


def gain(T, w):
	"""gain in dB at normalised frequencies w (1: Nyquist), from the coefficients"""
	z = numpy.exp(-1j * numpy.pi * numpy.asarray(w))
	num, den = numpy.array(T.num, dtype=float).ravel(), numpy.array(T.den, dtype=float).ravel()
	return 20 * numpy.log10(abs(numpy.polyval(num[::-1], z) / numpy.polyval(den[::-1], z)) + 1e-300)


def spec(c):
	"""Fbands, Abands and the same bands with normalised frequencies"""
	s = (c['Fs'] or 2) / 2.
	a, b, d, e = c['e']
	P = (c['c'] - c['wd'] / 2, c['c'] + c['wd'] / 2)
	st = c['st']
	if st == 'center':
		# stop gain at 0dB once centered on the pass band... 0dB itself
		st = c['c'] - c['wd'] - 15 if c['c'] != 3. else -15.
	if c['form'] in ('lowpass', 'highpass'):
		W = [(0, a), (b, 1)]
		F = [(0, a * s), (b * s, None)]
	else:
		W = [(0, a), (b, d), (e, 1)]
		F = [(0, a * s), (b * s, d * s), (e * s, None)]
	var = c.get('var')
	if var in ('explicit', 'inner'):
		# all the frequencies are given
		F[-1] = (F[-1][0], s if isinstance(c['Fs'], float) or c['Fs'] is None or c['Fs'] % 2 else c['Fs'] // 2)
	if var == 'inner':
		# the bands do not cover the ends of the spectrum
		F[0] = (0.05 * s, F[0][1])
		F[-1] = (F[-1][0], 0.98 * s)
		W[0], W[-1] = (0.05, W[0][1]), (W[-1][0], 0.98)
	if var == 'lists':
		F = [list(f) for f in F]
	if var == 'ints' and c['c'] == int(c['c']):
		P, st = tuple(int(v) for v in P), int(st)
	if var == 'wide':
		P = (P[0] - 8., P[1] + 8.)
	A = {'lowpass': [P, st], 'highpass': [st, P], 'bandpass': [st, P, st], 'bandstop': [P, st, P]}[c['form']]
	return F, A, W


def inside(r, what, T, W, A, m, pts, shift=0.):
	"""the response of T is in the bands, reduced by m"""
	for (w1, w2), g in zip(W, A):
		y = gain(T, numpy.linspace(w1, w2, pts))
		r.step(pts)
		lo, hi = (g[0], g[1]) if isinstance(g, tuple) else (None, g)
		# (the coefficients of the large orders are badly conditioned)
		tol = 1e-5 if T.order < 10 else 1e-3 if T.order < 16 else 0.1
		if y.max() > hi - m - shift + tol:
			r.fail('%s: the gain reaches %.6g dB in [%g,%g] instead of %.6g' % (what, y.max(), w1, w2, hi - m - shift))
			return
		if lo is not None and y.min() < lo + m - shift - tol:
			r.fail('%s: the gain is down to %.6g dB in [%g,%g] instead of %.6g' % (what, y.min(), w1, w2, lo + m - shift))
			return


def shape(r, what, T, W, A, ftype):
	"""Butterworth and Chebyshev II filters have no ripple in the pass band, Butterworth and Chebyshev I filters have none in the stop band"""
	for (w1, w2), g in zip(W, A):
		if isinstance(g, tuple):
			if ftype not in ('butter', 'cheby2'):
				continue
		elif ftype not in ('butter', 'cheby1'):
			continue
		y = numpy.maximum(gain(T, numpy.linspace(w1, w2, 200)), -100.)
		d = numpy.diff(y)
		r.step(200)
		tol = 1e-6 if T.order < 10 else 1e-3 if T.order < 16 else 0.1
		if d.max() > tol and d.min() < -tol:
			r.fail('%s: the gain is not monotonic in [%g,%g]' % (what, w1, w2))
			return


def design(c, r):
	from fixif.LTI import Gabarit, dTF
	F, A, W = spec(c)
	for rev in (False, True):
		# pass gains in any order, bands in any order
		A2 = [g[::-1] if rev and isinstance(g, tuple) else g for g in A]
		G = Gabarit(c['Fs'], F[::-1] if rev else F, A2[::-1] if rev else A2)
		what0 = 'Gabarit(%s, %s, %s)' % (c['Fs'], F, A2)
		bands(r, what0, G, F, A, W, c['Fs'])
		if G.type != c['form']:
			r.fail('%s is a %s' % (what0, G.type))
			return
		if r.fails:
			return
		for ftype in ('butter', 'cheby1', 'cheby2', 'ellip'):
			for m in (0., 1e-3, 0.05):
				for centered in (False, True):
					if rev and (m or centered):
						continue
					T = G.to_dTF(ftype=ftype, designMargin=m, centeredZero=centered)
					what = '%s.to_dTF(%s, designMargin=%s, centeredZero=%s)' % (what0, ftype, m, centered)
					if not isinstance(T, dTF):
						r.fail('%s is a %s' % (what, type(T)))
						return
					r.state((what0, ftype, m, centered))
					r.outcome((T.order, ftype, c['form']))
					den = numpy.array(T.den, dtype=float).ravel()
					if abs(numpy.roots(den)).max() >= 1:
						r.fail('%s is not stable' % what)
					if c['form'] in ('lowpass', 'highpass'):
						shape(r, what, T, W, A, ftype)
					inside(r, what, T, W, A, m, c['pts'], c['c'] if centered else 0.)
					if r.fails:
						return
		bands(r, what0 + ' after designs', G, F, A, W, c['Fs'])


def bands(r, what, G, F, A, W, Fs):
	Fs = Fs or 2
	if len(G.bands) != len(F):
		r.fail('%s has %d bands' % (what, len(G.bands)))
		return
	for b, (f1, f2), g, (w1, w2) in zip(G.bands, F, A, W):
		r.step()
		ok = b.F1 == f1 and b.F2 == (Fs / 2. if f2 is None else f2) and b.Fs == Fs and abs(b.w1 - w1) < 1e-12 and abs(b.w2 - w2) < 1e-12
		if isinstance(g, tuple):
			ok = ok and b.isPassBand and b.stopGain is None and tuple(b.passGains) == g
		else:
			ok = ok and not b.isPassBand and b.passGains is None and b.stopGain == g
		if not ok:
			r.fail('%s: the band %s is %r' % (what, (f1, f2, g), b))
			return


def types(c, r):
	from fixif.LTI import Gabarit
	kinds = c['kinds']
	n = len(kinds)
	exp = {'PS': 'lowpass', 'SP': 'highpass', 'PSP': 'bandstop', 'SPS': 'bandpass'}.get(kinds, 'multiband')
	F = [(i * 100, i * 100 + 50 if i < n - 1 else None) for i in range(n)]
	A = [(-1. - i, 1. + (i * 7) % 5) if k == 'P' else -20. + (i * 3) % 4 for i, k in enumerate(kinds)]
	top = max(g[1] if isinstance(g, tuple) else g for g in A)
	for perm in itertools.permutations(range(n)):
		G = Gabarit(1000., [F[i] for i in perm], [A[i] for i in perm], seed=3)
		r.step()
		r.state((kinds, perm))
		if G.type != exp or G.type != exp:
			r.fail('bands %s given in the order %s: %s' % (kinds, perm, G.type))
			return
		if abs(G.maxGain() - top) > 1e-12:
			r.fail('bands %s given in the order %s: maximum gain %s instead of %s' % (kinds, perm, G.maxGain(), top))
		bands(r, 'bands %s given in the order %s' % (kinds, perm), G, F, A, [(f1 / 500., (500. if f2 is None else f2) / 500.) for f1, f2 in F], 1000.)
		if G.seed != 3 or exp not in str(G) or 'Seed=3' not in str(G):
			r.fail('bands %s: %s' % (kinds, G))
		if exp == 'multiband' and 'P' in kinds:
			try:
				G.to_dTF()
				r.fail('a multiband specification is designed')
			except ValueError:
				pass
	r.outcome(exp)


def history(c, r):
	from fixif.LTI import Gabarit
	import matplotlib
	matplotlib.use('Agg')
	import matplotlib.pyplot as plt
	cc = dict(Fs=c['Fs'], e=(0.4, 0.5, 0.6, 0.7), c=2., wd=2., st=-20., form=c['form'])
	F, A, W = spec(cc)
	fs = c['Fs'] or 2
	for tail in itertools.product(c['ops'], repeat=c['L'] - 1):
		seq = (c['first'],) + tail
		G = Gabarit(c['Fs'], F, A)
		T = None
		for k, o in enumerate(seq):
			what = 'Gabarit(%s, %s, %s), %s' % (c['Fs'], F, A, list(seq[:k + 1]))
			r.step()
			if o == 'type':
				if G.type != c['form']:
					r.fail('%s: %s' % (what, G.type))
			elif o == 'str':
				if c['form'] not in str(G) or 'Seed' in str(G):
					r.fail('%s: %s' % (what, G))
			elif o == 'max':
				if G.maxGain() != 3.:
					r.fail('%s: %s' % (what, G.maxGain()))
			elif o in ('butter', 'ellip', 'margin', 'center'):
				m = 0.2 if o == 'margin' else 0.
				T = G.to_dTF(ftype='butter' if o == 'butter' else 'ellip', designMargin=m, centeredZero=o == 'center')
				inside(r, what, T, W, A, m, 60, 2. if o == 'center' else 0.)
				if o == 'center':
					T = None
			elif o in ('plot', 'plotlin'):
				plt.close('all')
				G.plot(T, dB=o == 'plot')
				ax = plt.gca()
				if len(ax.patches) != len(F) or len(ax.lines) != (1 if T is not None else 0):
					r.fail('%s: %d rectangles and %d curves' % (what, len(ax.patches), len(ax.lines)))
				if T is not None and ax.lines:
					xy = ax.lines[0].get_xydata()
					y = gain(T, xy[:, 0] * 2. / fs)
					y = y if o == 'plot' else 10 ** (y / 20)
					big = y > (-150 if o == 'plot' else 1e-9)
					if len(xy) < 100 or not numpy.allclose(xy[big, 1], y[big], rtol=1e-5, atol=1e-5):
						r.fail('%s: the curve is not the gain of the transfer function' % what)
				plt.close('all')
			elif o == 'rect':
				for b, g in zip(G.bands, A):
					for dB in (True, False):
						R = b.Rectangle(dB, minG=-150)
						x0, y0, x1, y1 = R.get_x(), R.get_y(), R.get_x() + R.get_width(), R.get_y() + R.get_height()
						f = (lambda v: v) if dB else (lambda v: 10 ** (v / 20.))
						hi = f(g[1] if isinstance(g, tuple) else g)
						lo = f(g[0]) if isinstance(g, tuple) else None
						ok = abs(min(x0, x1) - b.F1) < 1e-9 and abs(max(x0, x1) - b.F2) < 1e-9 and abs(max(y0, y1) - hi) < 1e-9
						ok = ok and (abs(min(y0, y1) - lo) < 1e-9 if lo is not None else min(y0, y1) <= (-150 if dB else 1e-9))
						if not ok:
							r.fail('%s: the rectangle of %s (dB: %s) is [%g,%g]x[%g,%g]' % (what, b, dB, x0, x1, y0, y1))
			if r.fails:
				return
		bands(r, 'Gabarit(%s, %s, %s), after %s' % (c['Fs'], F, A, list(seq)), G, F, A, W, c['Fs'])
		r.state((c['Fs'], c['form'], seq))
		if r.fails:
			return
	r.outcome((c['form'], c['first']))


def bad(r):
	from fixif.LTI import Gabarit
	F2, F3 = [(0, 0.3), (0.5, None)], [(0, 0.2), (0.35, 0.5), (0.7, None)]
	P = (-1, 1)
	def refused(what, f):
		r.step()
		r.state(what)
		try:
			f()
			r.fail('%s is accepted' % what)
		except ValueError:
			r.outcome('refused')
	for F, A in ((F2, [P]), (F3, [P, -20]), (F2, [P, -20, P]), ([], [P])):
		refused('%d bands with %d gains' % (len(F), len(A)), lambda: Gabarit(None, F, A))
	# what the scipy methods cannot do
	for ft in ('butter', 'ellip', 'cheby1', 'cheby2'):
		for a, b in ((-20, -30), (-30, -20), (-20, -20.5), (-20.01, -20), (-20, -20.01), (-3, -90), (0, -20), (-20, 0.)):
			refused('bandpass with stop gains %s and %s (%s)' % (a, b, ft), lambda: Gabarit(None, F3, [a, P, b]).to_dTF(ft))
		for a, b in (((-1, 1), (-2, 1)), ((-2, 1), (-1, 1)), ((-1, 1), (-1, 2)), ((-2, 2), (-1, 1)), ((0, 2), (-1, 1)), ((-1, 1), (-1.01, 1)), ((-1, 1), (-1, 1.01)), ((-1, 1.01), (-1, 1)), ((-1.01, 1.01), (-1, 1)), ((-10, 10), (-1, 1))):
			refused('bandstop with pass gains %s and %s (%s)' % (a, b, ft), lambda: Gabarit(None, F3, [a, -20, b]).to_dTF(ft))
	# a stop gain of 0dB is a stop gain
	for c in (20., 12.):
		for form in ('lowpass', 'highpass', 'bandpass', 'bandstop'):
			cc = dict(Fs=None, e=(0.3, 0.5, 0.6, 0.8), c=c, wd=2., st=0., form=form)
			F, A, W = spec(cc)
			for ft in ('butter', 'cheby2'):
				r.step()
				G = Gabarit(None, F, A)
				inside(r, '%s %s %s' % (form, A, ft), G.to_dTF(ft), W, A, 0., 200)
				bands(r, '%s %s' % (form, A), G, F, A, W, None)


def frequencies(form):
	return [[0.3, 0.5], [0.2, 0.8], [0.1, 0.3], (0.45, 0.6)] if 'band' in form else [0.1, 0.25, 0.5, 0.8]


def butter(c, r):
	from fixif.LTI import Butter
	n, form = c['n'], c['form']
	for Wn in frequencies(form):
		F = Butter(n, Wn, form, name='bu')
		what = 'Butter(%d, %s, %s)' % (n, Wn, form)
		r.state(what)
		r.step()
		if (F.n, F.Wn, F.btype, F.name) != (n, Wn, form, 'bu') or not F.isStable() or not F.isButter() or not F.isSISO():
			r.fail('%s: %s' % (what, (F.n, F.Wn, F.btype, F.name, F.isStable(), F.isButter())))
		response(r, what, F, n, Wn, form, 10 * numpy.log10(2), None)
		# monotonic
		w = numpy.linspace(0, 1, 400)
		y = numpy.array([v if v > -120 else -120. for v in gain(F.dTF, w)])
		ww = numpy.array(Wn).ravel()
		ref = {'low': 0., 'high': 1.}.get(form[:4].replace('lowp', 'low'), None)
		if form.startswith('low') and (numpy.diff(y) > 1e-6).any() or form.startswith('high') and (numpy.diff(y) < -1e-6).any():
			r.fail('%s: the gain is not monotonic' % what)
		d = Butter(n, Wn) if form == 'low' else None
		if d is not None and not numpy.array_equal(d.dTF.num, F.dTF.num):
			r.fail('%s: it should be a lowpass by default' % what)


def response(r, what, F, n, Wn, form, rp, rs):
	"""gain -rp at the cut frequencies, between -rp and 0 in the pass bands, lower than -rs in the stop bands (far from the edges)"""
	T = F.dTF
	W = numpy.array(Wn, dtype=float).ravel()
	tol = 1e-4 if n < 6 else 1e-2
	if F.order != n * len(W) or F.dSS.n != F.order:
		r.fail('%s has order %s' % (what, F.order))
	den = numpy.array(T.den, dtype=float).ravel()
	if abs(numpy.roots(den)).max() >= 1:
		r.fail('%s is not stable' % what)
	g = gain(T, W)
	r.step(len(W))
	r.outcome(what)
	if abs(g + rp).max() > tol:
		r.fail('%s: the gain at the cut frequencies is %s dB instead of -%g' % (what, g, rp))
		return
	if form.startswith('low'):
		P, S = [(0, W[0])], [(W[0], 1)]
	elif form.startswith('high'):
		P, S = [(W[0], 1)], [(0, W[0])]
	elif form == 'bandpass':
		P, S = [(W[0], W[1])], [(0, W[0]), (W[1], 1)]
	else:
		P, S = [(0, W[0]), (W[1], 1)], [(W[0], W[1])]
	for a, b in P:
		y = gain(T, numpy.linspace(a, b, 500))
		if y.max() > tol or y.min() < -rp - tol:
			r.fail('%s: the gain is in [%g, %g] in the pass band [%g, %g]' % (what, y.min(), y.max(), a, b))
			return
	for a, b in S:
		w = numpy.linspace(a, b, 500)
		y = gain(T, w)
		if y.max() > -rp + tol:
			r.fail('%s: the gain is up to %g in the stop band [%g, %g]' % (what, y.max(), a, b))
			return
		if rs is not None:
			# once it has reached -rs, it stays under it, up to the other end (or down to the middle of the stop band)
			under = y <= -rs + tol
			if not under.any() and n > 3:
				r.fail('%s: the attenuation %g is not reached in [%g, %g]' % (what, rs, a, b))
			if under.any():
				i, j = numpy.flatnonzero(under)[[0, -1]]
				if not under[i:j + 1].all():
					r.fail('%s: the attenuation is not %g in the whole stop band [%g, %g]' % (what, rs, w[i], w[j]))
					return


def ellip(c, r):
	from fixif.LTI import Elliptic
	n, form = c['n'], c['form']
	for Wn in frequencies(form):
		for rp, rs in ((1., 40.), (0.1, 20.), (3., 60.)):
			F = Elliptic(n, rp, rs, Wn, form, name='el')
			what = 'Elliptic(%d, %s, %s, %s, %s)' % (n, rp, rs, Wn, form)
			r.state(what)
			r.step()
			if (F.n, F.rp, F.rs, F.Wn, F.etype, F.name) != (n, rp, rs, Wn, form, 'el') or not F.isStable() or F.isButter():
				r.fail('%s: %s' % (what, (F.n, F.rp, F.rs, F.Wn, F.etype, F.name, F.isStable(), F.isButter())))
			if F.details() != {"n": n, "ripple passband": rp, "attenuation stopband": rs, "frequency": Wn, "type": form}:
				r.fail('%s: details %s' % (what, F.details()))
			response(r, what, F, n, Wn, form, rp, rs)
			if r.fails:
				return


def run(c, r):
	import warnings
	warnings.simplefilter('ignore')
	if c['k'] == 'design':
		design(c, r)
	elif c['k'] == 'type':
		types(c, r)
	elif c['k'] == 'hist':
		history(c, r)
	elif c['k'] == 'bad':
		bad(r)
	elif c['k'] == 'butter':
		butter(c, r)
	else:
		ellip(c, r)
