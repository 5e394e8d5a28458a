From 6db5191fdebc358266c1901f62ab5d0264d884bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:38:29 +0000
Subject: [PATCH 01/58] fix: MPFMatrix.mul_exact checks self.cols against
 other.rows and sums over self.cols

---
 fixif/func_aux/MPFMatrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixif/func_aux/MPFMatrix.py b/fixif/func_aux/MPFMatrix.py
index 92c638d..d4143fa 100644
--- a/fixif/func_aux/MPFMatrix.py
+++ b/fixif/func_aux/MPFMatrix.py
@@ -219,11 +219,11 @@ class MPFMatrix(object):
 		# test sizes
 
 
-		if self.rows != other.cols:
+		if self.cols != other.rows:
 			raise ValueError('Cannot compute exact product of two matrices: incorrect sizes.')
 
 		m = self.rows
-		n = self.rows
+		n = self.cols
 		p = other.cols
 
 		C = mpmath.zeros(m, p)
-- 
2.43.0


From d194932c30937561b30940192fc2515fcba8ee04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:38:46 +0000
Subject: [PATCH 02/58] fix: func_aux error and warning messages are formatted
 before being raised/printed (TypeError instead of ValueError)

---
 fixif/func_aux/MPFMatrix.py             | 14 +++++++-------
 fixif/func_aux/mpf_matrix_fadd.py       |  4 ++--
 fixif/func_aux/mpf_matrix_fmul.py       |  4 ++--
 fixif/func_aux/mpf_matrix_fsub.py       |  4 ++--
 fixif/func_aux/mpf_matrix_lt_inverse.py |  6 +++---
 fixif/func_aux/mpf_matrix_to_sollya.py  |  4 ++--
 6 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/fixif/func_aux/MPFMatrix.py b/fixif/func_aux/MPFMatrix.py
index d4143fa..959114e 100644
--- a/fixif/func_aux/MPFMatrix.py
+++ b/fixif/func_aux/MPFMatrix.py
@@ -142,7 +142,7 @@ class MPFMatrix(object):
 		# check input type
 
 		if not isinstance(other, MPFMatrix):
-				raise ValueError('Cannot compute exact sum of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s') % type(other)
+				raise ValueError('Cannot compute exact sum of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s' % type(other))
 
 		#test sizes
 		if self.shape != other.shape:
@@ -156,7 +156,7 @@ class MPFMatrix(object):
 			for j in range(0, n):
 				C[i,j] = mpmath.fadd(self[i,j], other[i,j], exact=True)
 				if mpmath.isnan(C[i,j]) or mpmath.isinf(C[i,j]):
-					print('WARNING: in matrix sum an abnormal number (NaN/Inf) occured: %f') % C[i,j]
+					print('WARNING: in matrix sum an abnormal number (NaN/Inf) occured: %f' % C[i, j])
 		# TODO: use np.vectorize !
 
 		return MPFMatrix(C)
@@ -177,7 +177,7 @@ class MPFMatrix(object):
 		# check input type
 
 		if not isinstance(other, MPFMatrix):
-			raise ValueError('Cannot compute exact sum of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s') % type(other)
+			raise ValueError('Cannot compute exact sum of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s' % type(other))
 
 		# test sizes
 		if self.shape != other.shape:
@@ -191,7 +191,7 @@ class MPFMatrix(object):
 			for j in range(0, n):
 				C[i, j] = mpmath.fsub(self[i, j], other[i, j], exact=True)
 				if mpmath.isnan(C[i, j]) or mpmath.isinf(C[i, j]):
-					print('WARNING: in matrix sum an abnormal number (NaN/Inf) occured: %f') % C[i, j]
+					print('WARNING: in matrix sum an abnormal number (NaN/Inf) occured: %f' % C[i, j])
 		# TODO: use np.vectorize !
 
 		return MPFMatrix(C)
@@ -214,7 +214,7 @@ class MPFMatrix(object):
 
 		# check input type
 		if not isinstance(other, MPFMatrix):
-			raise ValueError('Cannot compute exact product of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s') % type(other)
+			raise ValueError('Cannot compute exact product of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s' % type(other))
 
 		# test sizes
 
@@ -233,7 +233,7 @@ class MPFMatrix(object):
 					tmp = mpmath.fmul(self[i, k], other[k, j], exact=True)
 					C[i, j] = mpmath.fadd(C[i, j], tmp, exact=True)
 					if mpmath.isnan(C[i, j]) or mpmath.isinf(C[i, j]):
-						print('WARNING: in matrix multiplication an abnormal number (NaN/Inf) occured: %f') % C[i, j]
+						print('WARNING: in matrix multiplication an abnormal number (NaN/Inf) occured: %f' % C[i, j])
 
 		return MPFMatrix(C)
 
@@ -256,7 +256,7 @@ class MPFMatrix(object):
 
 		# checking the size
 		if self.rows != self.cols:
-			raise ValueError('Cannot compute inverse: matrix must be square but istead is %s x %s' % self.rows, self.cols)
+			raise ValueError('Cannot compute inverse: matrix must be square but istead is %s x %s' % (self.rows, self.cols))
 		else:
 			n = self.rows
 
diff --git a/fixif/func_aux/mpf_matrix_fadd.py b/fixif/func_aux/mpf_matrix_fadd.py
index 56b400c..f78d33a 100644
--- a/fixif/func_aux/mpf_matrix_fadd.py
+++ b/fixif/func_aux/mpf_matrix_fadd.py
@@ -28,7 +28,7 @@ def mpf_matrix_fadd(A, B):
 			raise ValueError('Cannot compute exact sum of two matrices. %s' % e)
 	else:
 		if not isinstance(A, mpmath.matrix):
-			raise ValueError('Cannot compute exact sum of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s') %type(A)
+			raise ValueError('Cannot compute exact sum of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s' % type(A))
 
 	if isinstance(B, numpy.matrix):
 		try:
@@ -37,7 +37,7 @@ def mpf_matrix_fadd(A, B):
 			raise ValueError('Cannot compute exact sum of two matrices. %s' % e)
 	else:
 		if not isinstance(B, mpmath.matrix):
-			raise ValueError('Cannot compute exact sum of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s') % type(B)
+			raise ValueError('Cannot compute exact sum of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s' % type(B))
 
 
 	#here both A and B are mpmath matrices
diff --git a/fixif/func_aux/mpf_matrix_fmul.py b/fixif/func_aux/mpf_matrix_fmul.py
index 2c50ce2..cbce90d 100644
--- a/fixif/func_aux/mpf_matrix_fmul.py
+++ b/fixif/func_aux/mpf_matrix_fmul.py
@@ -28,7 +28,7 @@ def mpf_matrix_fmul(A, B):
 			raise ValueError('Cannot compute exact product of two matrices. %s' % e)
 	else:
 		if not isinstance(A, mpmath.matrix):
-			raise ValueError('Cannot compute exact product of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s') %type(A)
+			raise ValueError('Cannot compute exact product of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s' % type(A))
 
 	if isinstance(B, numpy.matrix):
 		try:
@@ -37,7 +37,7 @@ def mpf_matrix_fmul(A, B):
 			raise ValueError('Cannot compute exact product of two matrices. %s' % e)
 	else:
 		if not isinstance(B, mpmath.matrix):
-			raise ValueError('Cannot compute exact product of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s') % type(B)
+			raise ValueError('Cannot compute exact product of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s' % type(B))
 
 
 	#here both A and B are mpmath matrices
diff --git a/fixif/func_aux/mpf_matrix_fsub.py b/fixif/func_aux/mpf_matrix_fsub.py
index cfae140..36235eb 100644
--- a/fixif/func_aux/mpf_matrix_fsub.py
+++ b/fixif/func_aux/mpf_matrix_fsub.py
@@ -28,7 +28,7 @@ def mpf_matrix_fsub(A, B):
 			raise ValueError('Cannot compute exact difference of two matrices. %s' % e)
 	else:
 		if not isinstance(A, mpmath.matrix):
-			raise ValueError('Cannot compute exact difference of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s') %type(A)
+			raise ValueError('Cannot compute exact difference of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s' % type(A))
 
 	if isinstance(B, numpy.matrix):
 		try:
@@ -37,7 +37,7 @@ def mpf_matrix_fsub(A, B):
 			raise ValueError('Cannot compute exact difference of two matrices. %s' % e)
 	else:
 		if not isinstance(B, mpmath.matrix):
-			raise ValueError('Cannot compute exact difference of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s') % type(B)
+			raise ValueError('Cannot compute exact difference of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s' % type(B))
 
 
 	#here both A and B are mpmath matrices
diff --git a/fixif/func_aux/mpf_matrix_lt_inverse.py b/fixif/func_aux/mpf_matrix_lt_inverse.py
index 2622a6b..4d074ed 100644
--- a/fixif/func_aux/mpf_matrix_lt_inverse.py
+++ b/fixif/func_aux/mpf_matrix_lt_inverse.py
@@ -64,15 +64,15 @@ def mpf_matrix_lt_inverse(L):
 		try:
 			L = python2mpf_matrix(L)
 		except ValueError as e:
-			raise ValueError('Cannot compute exact difference of two matrices. %s') % e
+			raise ValueError('Cannot compute exact difference of two matrices. %s' % e)
 	else:
 		if not isinstance(L, mpmath.matrix):
-			raise ValueError('Cannot compute exact difference of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s') % type(L)
+			raise ValueError('Cannot compute exact difference of two matrices: unexpected input type, excpected numpy.matrix or mpmath.matrix but got %s' % type(L))
 
 
 	#checking the size
 	if L.rows != L.cols:
-		raise ValueError('Cannot compute inverse: matrix must be square but istead is %s x %s' % L.rows, L.cols)
+		raise ValueError('Cannot compute inverse: matrix must be square but istead is %s x %s' % (L.rows, L.cols))
 	else:
 		n = L.rows
 
diff --git a/fixif/func_aux/mpf_matrix_to_sollya.py b/fixif/func_aux/mpf_matrix_to_sollya.py
index 95fec46..a56658b 100644
--- a/fixif/func_aux/mpf_matrix_to_sollya.py
+++ b/fixif/func_aux/mpf_matrix_to_sollya.py
@@ -24,10 +24,10 @@ def mpf_matrix_to_sollya(A):
 	"""
 
 	if not isinstance(A,mpmath.matrix):
-		raise ValueError('Cannot convert matrix to sollya: expected mpmath.matrix but instead got %s') % type(A)
+		raise ValueError('Cannot convert matrix to sollya: expected mpmath.matrix but instead got %s' % type(A))
 
 	if not isinstance(A[0,0], mpmath.mpf):
-		raise ValueError('Cannot convert matrix to sollya: expected a real matrix but instead got %s') % type(A[0,0])
+		raise ValueError('Cannot convert matrix to sollya: expected a real matrix but instead got %s' % type(A[0,0]))
 
 	#First, we need to get the (long, long) representation of the matrix A
 	#We compute matrices Y and N such that A[i,j] = Y[i,j] * 2 ** N[i,j]
-- 
2.43.0


From b595583a2661695a96437e832a6a1da5095c5e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:39:41 +0000
Subject: [PATCH 03/58] fix: python2mpf_matrix converts exactly whatever the
 working precision, and refuses complex elements with ValueError

---
 fixif/func_aux/python2mpf_matrix.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fixif/func_aux/python2mpf_matrix.py b/fixif/func_aux/python2mpf_matrix.py
index f493d45..79e5228 100644
--- a/fixif/func_aux/python2mpf_matrix.py
+++ b/fixif/func_aux/python2mpf_matrix.py
@@ -11,7 +11,10 @@ def python2mpf_matrix(M):
 	Mmp = mp.zeros(n, m)
 	for i in range(0, n):
 		for j in range(0, m):
-			Mmp[i, j] = mp.mpf(M[i, j])
+			# mpmathify is exact (mpf(x) would round to the working precision)
+			Mmp[i, j] = mp.mpmathify(M[i, j])
+			if not isinstance(Mmp[i, j], mp.mpf):
+				raise ValueError('Expected a real numpy matrix, instead have an element of %s' % type(M[i, j]))
 
 
 	return Mmp
-- 
2.43.0


From e31df8dc3987cdb7d3bf22937d001bba11970bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:39:41 +0000
Subject: [PATCH 04/58] fix: mp_poly_product accepts a single root

---
 fixif/func_aux/mp_poly_product.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fixif/func_aux/mp_poly_product.py b/fixif/func_aux/mp_poly_product.py
index f268778..a6b2150 100644
--- a/fixif/func_aux/mp_poly_product.py
+++ b/fixif/func_aux/mp_poly_product.py
@@ -27,14 +27,17 @@ def mp_poly_product(p, j=-1):
 
 	"""
 	degP = len(p)
-	if degP < 2:
+	if degP < 1:
 		raise ValueError('error in polynomial product: empty polynomial')
 	if j == -1:
 		c = mp.matrix([1, p[0]])
 		for i in range(1, degP):
 			c = mpf_poly_mult(c, mp.matrix([mpmath.mpf(1), p[i]]))
 	else:
-		if j == 0:
+		if degP == 1:
+			# no root left: the empty product
+			c = mp.matrix([1])
+		elif j == 0:
 			c = mp.matrix([1, p[1]])
 			for i in range(2, degP):
 				c = mpf_poly_mult(c, mp.matrix([mpmath.mpf(1), p[i]]))
-- 
2.43.0


From 38e453cfb4098cd046b31d2fd2a22d79f74ed918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:05 +0000
Subject: [PATCH 05/58] fix: dTF with numerator/denominator of different
 lengths or leading zero coefficients (order, to_dSS, +, -, *)

---
 fixif/LTI/dTF.py | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/fixif/LTI/dTF.py b/fixif/LTI/dTF.py
index 43da056..f11db52 100644
--- a/fixif/LTI/dTF.py
+++ b/fixif/LTI/dTF.py
@@ -17,8 +17,8 @@ __status__ = "Beta"
 
 from fixif.WCPG import WCPG_TF
 from numpy import ndenumerate, array, linspace
-from numpy import matrix as mat, polymul, polyadd
-from numpy import diagflat, zeros, ones, r_, atleast_2d, fliplr
+from numpy import matrix as mat, convolve
+from numpy import diagflat, zeros, ones, r_, c_, atleast_2d, fliplr
 from scipy.signal import tf2ss, TransferFunction, dbode
 from scipy.linalg import norm
 
@@ -46,10 +46,10 @@ class dTF(object):
 			self._den = den/den[0, 0]
 
 		# filter order
-		# if den.shape!=num.shape:
-		# 	raise ValueError( 'Numerator and denomintator must have same length !')
-
-		self._order = num.shape[1]-1
+		# the coefficients are those of z^-i: complete the shortest polynomial with (trailing) zeros
+		self._order = max(num.shape[1], den.shape[1])-1
+		self._num = mat(c_[self._num, zeros((1, self._order+1-num.shape[1]))])
+		self._den = mat(c_[self._den, zeros((1, self._order+1-den.shape[1]))])
 
 		# cached sollya numerator and denominator
 		self._sollya = None
@@ -93,8 +93,8 @@ class dTF(object):
 		if type(other) in [int, float]:
 			return dTF(self._num * other, self._den)
 		elif isinstance(other, dTF):
-			numer = polymul(self.num.A1, other.num.A1)
-			denom = polymul(self.den.A1, other.den.A1)
+			numer = convolve(self.num.A1, other.num.A1)
+			denom = convolve(self.den.A1, other.den.A1)
 			return dTF(numer, denom)
 		else:
 			raise ValueError("Cannot multiply a dTF with a %s", type(other))
@@ -103,10 +103,10 @@ class dTF(object):
 	def __add__(self, other):
 		"""addition"""
 		if type(other) in [int, float]:
-			return dTF(polyadd(self._num.A1, self._den.A1 * other), self._den)
+			return dTF(self._num.A1 + self._den.A1 * other, self._den)
 		if isinstance(other, dTF):
-			numer = polyadd(polymul(self._num.A1, other.den.A1), polymul(self._den.A1, other.num.A1))
-			denom = polymul(self._den.A1, other.den.A1)
+			numer = convolve(self._num.A1, other.den.A1) + convolve(self._den.A1, other.num.A1)
+			denom = convolve(self._den.A1, other.den.A1)
 			return dTF(numer, denom)
 		raise ValueError("Cannot add a dTF with a %s", type(other))
 	__radd__ = __add__  # lazy definition
@@ -114,20 +114,20 @@ class dTF(object):
 	def __sub__(self, other):
 		"""substraction"""
 		if type(other) in [int, float]:
-			return dTF(polyadd(self._num.A1, -self._den.A1 * other), self._den)
+			return dTF(self._num.A1 - self._den.A1 * other, self._den)
 		if isinstance(other, dTF):
-			numer = polyadd(polymul(self._num.A1, other.den.A1), -polymul(self._den.A1, other.num.A1))
-			denom = polymul(self._den.A1, other.den.A1)
+			numer = convolve(self._num.A1, other.den.A1) - convolve(self._den.A1, other.num.A1)
+			denom = convolve(self._den.A1, other.den.A1)
 			return dTF(numer, denom)
 		raise ValueError("Cannot substract a dTF with a %s", type(other))
 
 	def __rsub__(self, other):
 		"""right substraction"""
 		if type(other) in [int, float]:
-			return dTF(polyadd(-self._num.A1, self._den.A1 * other), self._den)
+			return dTF(self._den.A1 * other - self._num.A1, self._den)
 		if isinstance(other, dTF):
-			numer = polyadd(polymul(other.num.A1, self._den.A1), -polymul(other.den.A1, self._num.A1))
-			denom = polymul(self._den.A1, other.den.A1)
+			numer = convolve(other.num.A1, self._den.A1) - convolve(other.den.A1, self._num.A1)
+			denom = convolve(self._den.A1, other.den.A1)
 			return dTF(numer, denom)
 
 
-- 
2.43.0


From 4eab72bed1eb0311f71e4c54a3b5c77d4f09c8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:47 +0000
Subject: [PATCH 06/58] fix: dTFmp normalises by den[0] without modifying its
 arguments, accepts polynomials of different lengths, and to_dSSmp is exact

---
 fixif/LTI/dTFmp.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/fixif/LTI/dTFmp.py b/fixif/LTI/dTFmp.py
index 4afb131..9b8ade4 100644
--- a/fixif/LTI/dTFmp.py
+++ b/fixif/LTI/dTFmp.py
@@ -48,12 +48,21 @@ class dTFmp(object):
 			raise ValueError('Cannot create a dTFmp pbject: incorrect sizes')
 
 
-		n = a.rows
-		if a[0, 0] != mpmath.mp.one:
+		# work on copies (the given matrices should not be modified),
+		# and complete the shortest polynomial with zeros, so that they have the same length
+		n = max(a.rows, b.rows)
+		a = mpmath.matrix([a[i, 0] if i < a.rows else mpmath.mp.zero for i in range(n)])
+		b = mpmath.matrix([b[i, 0] if i < b.rows else mpmath.mp.zero for i in range(n)])
+
+		a0 = a[0, 0]
+		if a0 == 0:
+			raise ValueError('dTFmp: The 1st coefficient of the denominator cannot be ZERO !')
+		if a0 != mpmath.mp.one:
+			# division cannot be performed exactly but we do it with doubled precision
+			prec = 2 * max([mpmath.mp.prec] + [x._mpf_[3] for x in list(a) + list(b)])
 			for i in range(0, n):
-				# division cannot be performed exactly but we do it with doubled precision
-				a[i, 0] = mpmath.fdiv(a[i, 0], a[0, 0], prec=a[i, 0]._mpf_[3] * 2)
-				b[i, 0] = mpmath.fdiv(b[i, 0], b[0, 0], prec=b[i, 0]._mpf_[3] * 2)
+				a[i, 0] = mpmath.fdiv(a[i, 0], a0, prec=prec)
+				b[i, 0] = mpmath.fdiv(b[i, 0], a0, prec=prec)
 
 		self._order = n - 1
 		self._num = b
@@ -124,7 +133,8 @@ class dTFmp(object):
 		N = self.order + 1
 
 		A = mpmath.mp.zeros(N - 1, N - 1)
-		A[0, :] = -self.den.transpose()[0, 1:N]
+		for i in range(0, N - 1):
+			A[0, i] = mpmath.fneg(self.den[i + 1, 0], exact=True)
 		for i in range(1, N - 1):
 			A[i, i - 1] = mpmath.mp.one
 		B = mpmath.mp.zeros(N - 1, 1)
-- 
2.43.0


From 4538743ebcd4afbad705f8b0bef4b0ace7b9a683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:47 +0000
Subject: [PATCH 07/58] fix: dSSmp subtraction negates C exactly (not at the
 working precision)

---
 fixif/LTI/dSSmp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/LTI/dSSmp.py b/fixif/LTI/dSSmp.py
index 474a135..73bb7e0 100644
--- a/fixif/LTI/dSSmp.py
+++ b/fixif/LTI/dSSmp.py
@@ -265,7 +265,7 @@ class dSSmp(object):
 				D[i, j] = mpmath.fsub(self.D[i, j], S.D[i, j], exact=True)
 		for i in range(0, self.p):
 			for j in range(0, S.n):
-				C[i, j + self.n] = -S.C[i, j]
+				C[i, j + self.n] = mpmath.fneg(S.C[i, j], exact=True)
 
 		return dSSmp(A, B, C, D)
 
-- 
2.43.0


From 80b9a53daeed7b82022a24488e88bf8f360a9230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:47 +0000
Subject: [PATCH 08/58] fix: dSSmp.to_dTFmp works for order 1 and
 non-diagonalizable A, and no more leaks the working precision when it raises

---
 fixif/LTI/dSSmp.py | 64 +++++++++++++++++++---------------------------
 1 file changed, 27 insertions(+), 37 deletions(-)

diff --git a/fixif/LTI/dSSmp.py b/fixif/LTI/dSSmp.py
index 73bb7e0..d82853e 100644
--- a/fixif/LTI/dSSmp.py
+++ b/fixif/LTI/dSSmp.py
@@ -14,7 +14,7 @@ import mpmath
 import numpy
 
 from numpy.random.mtrand import randint, rand
-from fixif.func_aux import python2mpf_matrix, mpf_to_numpy, mp_poly_product, mpf_matrix_fadd, mpf_matrix_fmul, mpf_matrix_to_sollya
+from fixif.func_aux import python2mpf_matrix, mpf_to_numpy, mpf_matrix_fadd, mpf_matrix_fmul, mpf_matrix_to_sollya
 from fixif.LTI import random_dSS
 
 
@@ -288,48 +288,38 @@ class dSSmp(object):
 		TF - a dTFmp object
 
 		"""
-		# converting the dSS matrices to mp type
-
-		oldprec = mpmath.mp.prec
-		mpmath.mp.prec = prec
-
 		from fixif.LTI import dTFmp
 
 		if self.p != 1 or self.q != 1:
 			raise ValueError('dSS: cannot convert a dSSmp to dTFmp for not a SISO system')
 
-		E, V = mpmath.mp.eig(self.A)  # eig returns a list E and a matrix V
-		Cmp = self.C * V
-		Vinv = mpmath.mp.inverse(V)
-		Bmp = Vinv * self.B
-
-		Q = mp_poly_product([-e for e in E])
-		PP = mpmath.mp.zeros(Q.rows - 1, 1)
-		# tmp_polyproduct = mp.zeros([self.n, 1]) #temporary polynomial products
-		for i in range(0, self.n):
-			# P = sum_i=0^n c_i * b_i * product_j!=i p_j
-			tmp_polyproduct = mp_poly_product([-e for e in E], i)
-			PP = PP + Cmp[0, i] * Bmp[i, 0] * tmp_polyproduct
-
-
-		if self.D[0, 0] != mpmath.mp.zero:
-			P = self.D[0, 0] * Q
-		else:
-			P = mpmath.mp.zeros(Q.rows, 1)
-
-		for i in range(1, P.rows):
-			P[i, 0] = P[i, 0] + PP[i - 1, 0]
-
-		b = mpmath.mp.zeros(P.rows, 1)
-		a = mpmath.mp.zeros(Q.rows, 1)
-		for i in range(0, P.rows):
-			b[i, 0] = P[i, 0].real
-			b[i, 0] = mpmath.fadd(b[i, 0], mpmath.mp.zero, prec=prec)
-		for i in range(0, Q.rows):
-			a[i, 0] = Q[i, 0].real
-			a[i, 0] = mpmath.fadd(a[i, 0], mpmath.mp.zero, prec=prec)
+		# Faddeev-LeVerrier algorithm (A does not have to be diagonalizable), where all the operations are exact:
+		#   det(zI-A) = sum_k Q_k * z^(n-k)    and    adj(zI-A) = sum_k M_k * z^(n-1-k)
+		n = self.n
+		Q = mpmath.mp.zeros(n + 1, 1)
+		P = mpmath.mp.zeros(n + 1, 1)
+		Q[0, 0] = mpmath.mp.one
+		P[0, 0] = self.D[0, 0]
+		M = mpmath.mp.eye(n)
+		for k in range(1, n + 1):
+			# coefficient of C*adj(zI-A)*B
+			P[k, 0] = mpf_matrix_fmul(self.C, mpf_matrix_fmul(M, self.B))[0, 0]
+			M = mpf_matrix_fmul(self.A, M)
+			trace = mpmath.mp.zero
+			for i in range(0, n):
+				trace = mpmath.fadd(trace, M[i, i], exact=True)
+			# trace is (exactly) a multiple of k, and the quotient does not need more bits than the trace
+			Q[k, 0] = mpmath.fdiv(mpmath.fneg(trace, exact=True), k, prec=max(trace._mpf_[3], 1))
+			for i in range(0, n):
+				M[i, i] = mpmath.fadd(M[i, i], Q[k, 0], exact=True)
+			P[k, 0] = mpmath.fadd(P[k, 0], mpmath.fmul(self.D[0, 0], Q[k, 0], exact=True), exact=True)
+
+		b = mpmath.mp.zeros(n + 1, 1)
+		a = mpmath.mp.zeros(n + 1, 1)
+		for i in range(0, n + 1):
+			b[i, 0] = mpmath.fadd(P[i, 0], mpmath.mp.zero, prec=prec)
+			a[i, 0] = mpmath.fadd(Q[i, 0], mpmath.mp.zero, prec=prec)
 
-		mpmath.mp.prec = oldprec
 		return dTFmp(b, a)
 
 	def WCPGmp(self, delta=2**-53):
-- 
2.43.0


From e1dea7f600516bdb414b437228ffefd4cd09d0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:47 +0000
Subject: [PATCH 09/58] fix: dSSmp.simulate takes x0 into account, and updates
 (rounded to double) the state when exact=False

---
 fixif/LTI/dSSmp.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/fixif/LTI/dSSmp.py b/fixif/LTI/dSSmp.py
index d82853e..f433552 100644
--- a/fixif/LTI/dSSmp.py
+++ b/fixif/LTI/dSSmp.py
@@ -419,8 +419,10 @@ class dSSmp(object):
 			raise ValueError('Cannot perform somulation: u is of incorrect size')
 
 		xk = mpmath.mp.zeros(self._n, 1)
-		if x0:
-			if not isinstance(x0, mpmath.matrix):
+		if x0 is not None:
+			if isinstance(x0, mpmath.matrix):
+				xk = x0.copy()
+			else:
 				if isinstance(x0, numpy.matrix):
 					xk = python2mpf_matrix(x0)
 				else:
@@ -450,8 +452,8 @@ class dSSmp(object):
 				yk[:, i] = mpf_matrix_fmul(self._C, xk)
 				yk[:, i] = mpf_matrix_fadd(yk[:, i], mpf_matrix_fmul(self._D, u[:, i]))
 
-			for i in range(0, xk.rows):
-				xk[i, 0] = mpmath.fadd(xkp1[i, 0], mpmath.mp.zero, prec=64, rounding='n')
+				for j in range(0, xk.rows):
+					xk[j, 0] = mpmath.fadd(xkp1[j, 0], mpmath.mp.zero, prec=53, rounding='n')
 
 
 		return yk
-- 
2.43.0


From 0dae36e38b61b0158d18a575a8f9135cb90da3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:47 +0000
Subject: [PATCH 10/58] fix: dSS product checks that the inputs of the first
 system are the outputs of the second one

---
 fixif/LTI/dSS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixif/LTI/dSS.py b/fixif/LTI/dSS.py
index f520783..3032f20 100644
--- a/fixif/LTI/dSS.py
+++ b/fixif/LTI/dSS.py
@@ -528,8 +528,8 @@ class dSS(object):
 		n1, p1, q1 = self.size
 		n2, p2, q2 = other.size
 
-		if p1 != q2:
-			raise ValueError("dSS: second state space should have same number of inputs as first state number of outputs")
+		if q1 != p2:
+			raise ValueError("dSS: second state space should have the same number of outputs as the number of inputs of the first one")
 
 		# TODO: possible simplification if self.A==other.A ??
 
-- 
2.43.0


From 167d5343198b592d3eb8abae255bab6842b9a459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:47 +0000
Subject: [PATCH 11/58] fix: dSS.similarity invalidates the cached Gramians

---
 fixif/LTI/dSS.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fixif/LTI/dSS.py b/fixif/LTI/dSS.py
index 3032f20..833f912 100644
--- a/fixif/LTI/dSS.py
+++ b/fixif/LTI/dSS.py
@@ -446,6 +446,9 @@ class dSS(object):
 		self._B = Tinv * self._B
 		self._C = self._C * T
 		# D is unchanged
+		# the Gramians depend on the state-space basis (the norms do not)
+		self._Wo = None
+		self._Wc = None
 
 	# ======================================================================================
 	def _check_dimensions(self):
-- 
2.43.0


From 7b1b912f50a0a3183475089731009eb4be2fb8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:47 +0000
Subject: [PATCH 12/58] fix: random_dSS draws the masks again when they are all
 zeros (not when they are all ones)

---
 fixif/LTI/dSS.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fixif/LTI/dSS.py b/fixif/LTI/dSS.py
index 833f912..3b2651e 100644
--- a/fixif/LTI/dSS.py
+++ b/fixif/LTI/dSS.py
@@ -901,12 +901,12 @@ def random_dSS(n, p, q, pRepeat=0.01, pReal=0.5, pBCmask=0.90, pDmask=0.8, pDzer
 	# Make masks to zero out some of the elements.
 	while True:
 		Bmask = rand(n, q) < pBCmask
-		if not Bmask.all():  # Retry if we get all zeros.
+		if Bmask.any():  # Retry if we get all zeros.
 			break
 
 	while True:
 		Cmask = rand(p, n) < pBCmask
-		if not Cmask.all():  # Retry if we get all zeros.
+		if Cmask.any():  # Retry if we get all zeros.
 			break
 
 	if rand() < pDzero:
@@ -915,7 +915,7 @@ def random_dSS(n, p, q, pRepeat=0.01, pReal=0.5, pBCmask=0.90, pDmask=0.8, pDzer
 	else:
 		while True:
 			Dmask = rand(p, q) < pDmask
-			if not Dmask.all():  # Retry if we get all zeros.
+			if Dmask.any():  # Retry if we get all zeros.
 				break
 
 
-- 
2.43.0


From c1df280c36006604f1007213af09ca07248b41ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:17 +0000
Subject: [PATCH 13/58] fix: dSS.simplify only removes null states (it dropped
 the delay of the others, or never returned)

---
 fixif/LTI/dSS.py | 79 +++++++++++-------------------------------------
 1 file changed, 17 insertions(+), 62 deletions(-)

diff --git a/fixif/LTI/dSS.py b/fixif/LTI/dSS.py
index 3b2651e..7c792a3 100644
--- a/fixif/LTI/dSS.py
+++ b/fixif/LTI/dSS.py
@@ -572,83 +572,38 @@ class dSS(object):
 
 	def simplify(self):
 		"""
-		This function tries to simplify the state-space msystem.
-		It may occur that matrix A contains one or several rows that contain only zeros.
-		In this case we have that the corresponding state-space variable depends only on
-		the term B[i,:]*u(k):
-		x1(k+1) = A[1,:] * x(k) +  B[1,:]*u(k)
-		..
-		xi(k+1) = B[i,:]*u(k)
-		...
-		y(k) = C * x(k) + D * u(k)
+		This function tries to simplify the state-space system.
+		It may occur that matrices A and B contain one or several (common) rows that contain only zeros.
+		In this case the corresponding state-space variable is always null (x(0) is null)
 
-		Then, we can re-write
-		x1(k+1) = A[1,:] * x(k) +  B[1,:]*u(k)
-		..
-		xi(k+1) = 0
-		...
-		y(k) = C * x(k) + C[:,i]*(B[i,:]*u(k)) + D * u(k)
+			xi(k+1) = 0
 
-		or in matrix form:
-
-			A' is the matrix A with column i and row i deleted
-			C' is the matrix C with column i deleted
-
-			then,
-
-			x(k+1) = A' * x(k) + B * u(k)
-			y(k)   = C' * x(k) + (D + C[:, i] * B[i,:]) * u(k)
+		so it can be removed: row i and column i of A, row i of B and column i of C are deleted.
+		(when only the row of A contains only zeros, then xi(k+1) = B[i,:]*u(k), and the state is still
+		required, since it delays the input).
 
 		Returns
 		-------
-
+		an equivalent dSS (with the same transfer function)
 		"""
 
-
-
-
 		newS = self
 
-		while newS.n > numpy.linalg.matrix_rank(newS._A):
-			l = list()
-			for i in range(0, newS.n):
-				if numpy.count_nonzero(newS._A[i, :]) == 0:
-					l.append(i)
-
-			A = newS._A
-			B = newS._B
-			C = newS._C
-			D = newS._D
-
-
-			while len(l) > 0:
-				index = l.pop()
-
-				A = numpy.delete(A, index, 1)
-				A = numpy.delete(A, index, 0)
-
-				D = D + C[:, index] * B[index, :]
+		while newS.n > 1:
+			A, B, C, D = newS.A, newS.B, newS.C, newS.D
 
-				C = numpy.delete(C, index, 1)
-
-				B = numpy.delete(B, index, 0)
-
-
-			newS = dSS(A, B, C, D)
+			l = [i for i in range(0, newS.n) if numpy.count_nonzero(A[i, :]) == 0 and numpy.count_nonzero(B[i, :]) == 0]
+			# at least one state should remain
+			if len(l) == newS.n:
+				l = l[1:]
+			if not l:
+				break
 
-			print("number of states: %d \n rank: %d " % (newS.n, numpy.linalg.matrix_rank(newS._A)))
+			newS = dSS(numpy.delete(numpy.delete(A, l, 1), l, 0), numpy.delete(B, l, 0), numpy.delete(C, l, 1), D)
 
 		return newS
 
 
-
-
-
-
-
-
-
-
 	def assert_close(self, other, eps=1e-5):
 		"""
 		Check if two dSS are almost equal
-- 
2.43.0


From 9a328ad632668861f71e8865557ffe439d408547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:49 +0000
Subject: [PATCH 14/58] fix: SIF setters rebuild everything that depends on Z
 (cached Hu, Hepsilon, Hzeta, and M1, M2, N1, N2 for P)

---
 fixif/SIF/SIF.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fixif/SIF/SIF.py b/fixif/SIF/SIF.py
index 9217322..bca6103 100644
--- a/fixif/SIF/SIF.py
+++ b/fixif/SIF/SIF.py
@@ -246,6 +246,10 @@ class SIF(SIF_sensibility):
 	def _build_fromZ(self):
 		self._build_AZtoDZ()
 		self._build_M1M2N1N2()
+		# the associated state-spaces depend on Z: they will be computed again when required
+		self._Hu = None
+		self._Hepsilon = None
+		self._Hzeta = None
 
 
 	# Only matrix Z is kept in memory
@@ -435,7 +439,7 @@ class SIF(SIF_sensibility):
 	def P(self, mymat):
 		self._Z[self._l: self._l + self._n, self._l: self._l + self._n] = mymat
 		self._build_dZ(None)  # TODO: all these setters should call _build_dZ(None) !!
-		self._build_AZtoDZ()
+		self._build_fromZ()
 
 	@Q.setter
 	def Q(self, mymat):
-- 
2.43.0


From fb88281c0dc4774b86ef683dec70f7156d172bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:49 +0000
Subject: [PATCH 15/58] fix: SIF keeps its own floating-point Z and dZ (they
 were shared with the caller, or truncated when built from integers)

---
 fixif/SIF/SIF.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fixif/SIF/SIF.py b/fixif/SIF/SIF.py
index bca6103..1e0f7cf 100644
--- a/fixif/SIF/SIF.py
+++ b/fixif/SIF/SIF.py
@@ -159,7 +159,8 @@ class SIF(SIF_sensibility):
 		build Z or dZ depending on provided matrix tuple
 		"""
 		J, K, L, M, N, P, Q, R, S = [np.matrix(X) for X in JtoS]
-		self._Z = np.bmat([[-J, M, N], [K, P, Q], [L, R, S]])
+		# (in floating-point: with integer matrices, the coefficients set afterwards would be truncated)
+		self._Z = np.bmat([[-J, M, N], [K, P, Q], [L, R, S]]).astype(float)
 
 
 
@@ -313,13 +314,13 @@ class SIF(SIF_sensibility):
 	# Z, dZ setters
 	@Z.setter
 	def Z(self, mymat):
-		self._Z = mymat
+		self._Z = np.matrix(mymat, dtype=float)		# copy
 		self._invJ = inv(self.J)
 		self._build_fromZ()
 
 	@dZ.setter
 	def dZ(self, mymat):
-		self._dZ = mymat
+		self._dZ = np.matrix(mymat)		# copy
 
 
 	#  JtoS getters
-- 
2.43.0


From 9828a9a518ed583c8ae8f774dca2d88a56fa8c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:49 +0000
Subject: [PATCH 16/58] fix: SIF.dJ is not negated (as its setter, and contrary
 to J)

---
 fixif/SIF/SIF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/SIF/SIF.py b/fixif/SIF/SIF.py
index 1e0f7cf..d19ec14 100644
--- a/fixif/SIF/SIF.py
+++ b/fixif/SIF/SIF.py
@@ -372,7 +372,7 @@ class SIF(SIF_sensibility):
 
 	@property
 	def dJ(self):
-		return -self._dZ[0: self._l, 0: self._l]
+		return self._dZ[0: self._l, 0: self._l]
 
 	@property
 	def dK(self):
-- 
2.43.0


From 01f80d7277e2ef0b1b6a4ff4fef50113ab426fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:49 +0000
Subject: [PATCH 17/58] fix: SIF.generate_inputs gives the inputs that maximise
 the last output (products were in the wrong order, it could not run)

---
 fixif/SIF/SIF.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/fixif/SIF/SIF.py b/fixif/SIF/SIF.py
index d19ec14..f4609db 100644
--- a/fixif/SIF/SIF.py
+++ b/fixif/SIF/SIF.py
@@ -542,10 +542,10 @@ class SIF(SIF_sensibility):
 		"""
 		Given a 1 x q vector of bound on the input interval and a positive
 		integer N, this function generates N inputs for a filter simulation
-		such that the output is the largest possible for u \in [-u_bar; u_bar] .
+		such that the (last) output is the largest possible for u \in [-u_bar; u_bar] .
 		For this,
 
-		u[i] = u_bar * sign( h(N - i) ),
+		u[i] = u_bar * sign( h(N-1 - i) ),
 
 		where h(k) is the filter's impulse response.
 
@@ -566,14 +566,20 @@ class SIF(SIF_sensibility):
 		u_bar = np.matrix(u_bar)
 		if u_bar.shape != (self._dSS.q, 1):
 			if u_bar.shape == (1, self._dSS.q):
-				u_bar.transpose()
+				u_bar = u_bar.transpose()
 			else:
 				raise ValueError('Cannot generate inputs: u_bar is of incorrect size')
+		if self._dSS.p != 1:
+			raise ValueError('Cannot generate inputs: the filter should have only one output')
 
+		# the last output is sum_i h(N-1-i)*u(i), with h(0)=D and h(k)=C*A^(k-1)*B
 		u = np.matrix(np.zeros([self._dSS.q, N]))
-		u[:, 0] = self.dSS.D
-		for i in range(1, N):
-			u[:, i] = u_bar * np.sign(self.dSS.B * (self.dSS.A ** (N - i)) * self.dSS.C)		# TODO: ugly A**(N-i) !!
+		h = self.dSS.D
+		CAk = self.dSS.C
+		for i in range(N-1, -1, -1):
+			u[:, i] = np.multiply(u_bar, np.sign(h).transpose())
+			h = CAk * self.dSS.B
+			CAk = CAk * self.dSS.A
 		return u
 
 
-- 
2.43.0


From 630884987bfac1ec305f2cab1f3aa9f54634216f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:49 +0000
Subject: [PATCH 18/58] fix: SIF.getZtpmatrixLaTeX, the line of (no) temporary
 variables has n+q separators

---
 fixif/SIF/SIF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/SIF/SIF.py b/fixif/SIF/SIF.py
index f4609db..b229cd7 100644
--- a/fixif/SIF/SIF.py
+++ b/fixif/SIF/SIF.py
@@ -730,7 +730,7 @@ class SIF(SIF_sensibility):
 		the null element are not shown when sparse=True
 		"""
 		l, n, p, q = self.size
-		code = [] if l > 0 else [r"\&" * (l + n + p) + r"\\" + "\n"]
+		code = [] if l > 0 else [r"\&" * (n + q) + r"\\" + "\n"]
 		for i in range(l+n+p):
 			line = [] if l>0 else [""]
 			for j in range(l+n+q):
-- 
2.43.0


From fb1b0c45c6e37783165b7286026ad1f14addcd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:17 +0000
Subject: [PATCH 19/58] fix: Realization.quantize works with current numpy
 (np.float), and does not share MSB, C code nor dZ with the initial
 realization

---
 fixif/SIF/Realization.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/fixif/SIF/Realization.py b/fixif/SIF/Realization.py
index cfcad67..8b8bb28 100644
--- a/fixif/SIF/Realization.py
+++ b/fixif/SIF/Realization.py
@@ -154,7 +154,12 @@ class Realization(SIF, R_algorithm, R_FxP, R_implementation):
 
 		# copy the realization and quantized the matrix Z
 		R = copy(self)
-		quantizeMat = np.vectorize(lambda x: quant(x, w), otypes=[np.float])
+		quantizeMat = np.vectorize(lambda x: quant(x, w), otypes=[float])
 		R.Z = quantizeMat(R.Z)
+		# what has been deduced from (or is modified with) the coefficients of self is not shared
+		R.dZ = R.dZ
+		R._MSB = None
+		R._LSB = None
+		R._Cdouble = None
 		return R
 
-- 
2.43.0


From dff2cd585b801e02843731963c260fe6cb031677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:17 +0000
Subject: [PATCH 20/58] fix: pole sensitivity without moduli is complex (its
 imaginary part was lost)

---
 fixif/SIF/SIF_sensibility.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixif/SIF/SIF_sensibility.py b/fixif/SIF/SIF_sensibility.py
index 17a94ca..04de9c6 100644
--- a/fixif/SIF/SIF_sensibility.py
+++ b/fixif/SIF/SIF_sensibility.py
@@ -75,10 +75,10 @@ def deigdZ(A, M1, M2, shapeZ, moduli=True):
 	mylambda = mat(conj(mylambda))
 
 	# sensitivity matrix
-	dlk_dZ = zeros((shapeZ[0], shapeZ[1], mylambda.shape[1]))  #  numpy does not know about hypermatrixes
+	dlk_dZ = zeros((shapeZ[0], shapeZ[1], mylambda.shape[1]), dtype=float if moduli else complex)  #  numpy does not know about hypermatrixes
 
 	for k in range(0, mylambda.shape[1]):
-		if moduli == 1:
+		if moduli:
 			dlk_dZ[:, :, k] = transpose(M1) * (1 / abs(mylambda[0, k]) * real(
 				conj(mylambda[0, k] * conj(My[:, k]) * transpose(Mx[:, k])))) * transpose(M2)
 		else:
-- 
2.43.0


From 4822f5c30b374dc126fc65f36cf9046f5859d80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:16 +0000
Subject: [PATCH 21/58] fix: generated C code for a realization with only one
 state (xk is an array)

---
 fixif/SIF/Realization_implementation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/SIF/Realization_implementation.py b/fixif/SIF/Realization_implementation.py
index cbc232d..609c107 100644
--- a/fixif/SIF/Realization_implementation.py
+++ b/fixif/SIF/Realization_implementation.py
@@ -83,7 +83,7 @@ class R_implementation:
 		# input(s), output(s), states, intermediate variables
 		strU = genCvarNames('u', q)
 		strY = genCvarNames('y', p)
-		strXk = genCvarNames('xk', n)
+		strXk = ['xk[%d]' % (i,) for i in range(n)]		# xk is always an array in the signature
 		strXkp = ['x%d_kp1' % (i,) for i in range(n)]
 		strT = ['T%d' % (i,) for i in range(l)]
 
-- 
2.43.0


From cd4558a1a641514ea93e287e52fd8568fb30d14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:16 +0000
Subject: [PATCH 22/58] fix: runCdouble returns doubles, for any number of
 inputs/outputs, from the library of its own realization, with its current
 coefficients

---
 fixif/SIF/Realization_implementation.py | 62 ++++++++++++++++---------
 1 file changed, 41 insertions(+), 21 deletions(-)

diff --git a/fixif/SIF/Realization_implementation.py b/fixif/SIF/Realization_implementation.py
index 609c107..0230798 100644
--- a/fixif/SIF/Realization_implementation.py
+++ b/fixif/SIF/Realization_implementation.py
@@ -12,7 +12,7 @@ __status__ = "Beta"
 
 
 from jinja2 import Environment, FileSystemLoader
-from numpy import tril, all, zeros, matrix as mat
+from numpy import tril, all, zeros, array_equal, ascontiguousarray, matrix as mat
 from datetime import datetime
 from subprocess import Popen, PIPE
 from ctypes import CDLL, POINTER, c_double
@@ -25,7 +25,8 @@ import numpy
 from inspect import getfile
 from fixif import SIF
 from fixif.SoP import SoP
-from os.path import dirname
+from os.path import dirname, join
+from tempfile import TemporaryDirectory
 FIXIF_SIF_PATH = dirname(getfile(SIF))
 
 GENERATED_PATH = FIXIF_SIF_PATH + '/../generated/code/'
@@ -158,25 +159,35 @@ class R_implementation:
 		# TODO: manage the place where the code is generated (it should be an absolute path?)
 
 		# generate C code
+		code = self.implementCdouble("implementCdouble")
 		with open(GENERATED_PATH+"runC.c", "w") as cFile:
-			cFile.write(self.implementCdouble("implementCdouble"))
+			cFile.write(code)
 
 		print("Compiling runC.c")
 
-		# compile it
-		proc = Popen("cd " + GENERATED_PATH + "&& cc -Wall -fPIC -shared -o runC.so runC.c ", stderr=PIPE, shell=True)
-		# check the output and print it
-		line = 'non-empty'
-		while line:
-			line = proc.stderr.readline().decode('utf-8')
-			print(line[:-1])		# TODO: log it somewhere ?
-
-		# use ctype
-		self._Cdouble = CDLL(GENERATED_PATH + 'runC.so').implementCdouble
+		# compile it, in a library that is not shared with the other realizations
+		# (its file can be removed once it is loaded)
+		with TemporaryDirectory(dir=GENERATED_PATH) as libPath:
+			libName = join(libPath, 'runC.so')
+			proc = Popen(['cc', '-Wall', '-fPIC', '-shared', '-o', libName, '-x', 'c', '-'], stdin=PIPE, stderr=PIPE)
+			_, err = proc.communicate(code.encode('utf-8'))
+			# check the output and print it
+			print(err.decode('utf-8'))		# TODO: log it somewhere ?
+			if proc.returncode != 0:
+				raise ValueError("makeCdouble: the generated C code cannot be compiled\n" + err.decode('utf-8'))
+
+			# use ctype
+			self._Cdouble = CDLL(libName).implementCdouble
+
+		inType = c_double if self._q == 1 else POINTER(c_double)
 		if self.p == 1:
-			self._Cdouble.argtypes = (c_double if self._q == 1 else POINTER(c_double), POINTER(c_double))
+			self._Cdouble.argtypes = (inType, POINTER(c_double))
+			self._Cdouble.restype = c_double
 		else:
-			self._Cdouble.argtypes = (POINTER(c_double), c_double if self._q == 1 else POINTER(c_double), POINTER(c_double))
+			self._Cdouble.argtypes = (POINTER(c_double), inType, POINTER(c_double))
+			self._Cdouble.restype = None
+		# keep the coefficients of the generated code
+		self._CdoubleZ = self._Z.copy()
 
 
 
@@ -192,8 +203,8 @@ class R_implementation:
 
 		Returns the ouput (pxN)
 		"""
-		# generate and compile code, if it is not yet done
-		if self._Cdouble is None:
+		# generate and compile code, if it is not yet done (or if the coefficients have been changed since)
+		if self._Cdouble is None or not array_equal(self._CdoubleZ, self._Z):
 			self.makeCdouble()
 
 		u = mat(u)
@@ -204,7 +215,16 @@ class R_implementation:
 		y = zeros((self._p, N))
 
 		# loop to compute the outputs
-		if self.p == 1 and self.q == 1:
-			for i in range(N):
-				y[:, i] = self._Cdouble(u[:, i], px)
-		return y
\ No newline at end of file
+		for i in range(N):
+			if self._q == 1:
+				ui = float(u[0, i])
+			else:
+				ui = ascontiguousarray(u[:, i], dtype=float)
+				ui = ui.ctypes.data_as(POINTER(c_double))
+			if self._p == 1:
+				y[0, i] = self._Cdouble(ui, px)
+			else:
+				yi = zeros((self._p, 1))
+				self._Cdouble(yi.ctypes.data_as(POINTER(c_double)), ui, px)
+				y[:, i] = yi[:, 0]
+		return y
-- 
2.43.0


From a629fc33afc251fd8e189328d9275487ee81768f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:16 +0000
Subject: [PATCH 23/58] fix: algorithm with surnames and without time also
 checks the surnames of the states

---
 fixif/SIF/Realization_algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/SIF/Realization_algorithms.py b/fixif/SIF/Realization_algorithms.py
index b6e43f6..c0d1497 100644
--- a/fixif/SIF/Realization_algorithms.py
+++ b/fixif/SIF/Realization_algorithms.py
@@ -108,7 +108,7 @@ class R_algorithm:
 		if withSurname and not withTime:
 			# it raises an error only when at least one VarName has a surname with time (with shift != 0)
 			v = [v for v in self._varNameT if v.hasSurnameWithIndex()]
-			v.extend([v for v in self._varNameT if v.hasSurnameWithIndex()])
+			v.extend([v for v in self._varNameX if v.hasSurnameWithIndex()])
 			if len(v) > 0:
 				raise ValueError("algorithmTxt: wichSurname=True and withTime=False are incoherent")
 
-- 
2.43.0


From bfb27c1092c847f688e5a1fe61437ddceb27fb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:57 +0000
Subject: [PATCH 24/58] fix: the lines of an algorithm are never cut inside a
 coefficient or a name, and generateNames accepts no surname for no variable

---
 fixif/SoP/SoP.py     | 2 +-
 fixif/SoP/VarName.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixif/SoP/SoP.py b/fixif/SoP/SoP.py
index 16ee774..e9e5d2b 100644
--- a/fixif/SoP/SoP.py
+++ b/fixif/SoP/SoP.py
@@ -77,7 +77,7 @@ class SoP:
 		if self._resName == S:
 			return ''
 		else:
-			return "\n".join(wrap(self._resName + ' ' + assign + ' ' + S, 60))
+			return "\n".join(wrap(self._resName + ' ' + assign + ' ' + S, 60, break_long_words=False, break_on_hyphens=False))
 
 
 
diff --git a/fixif/SoP/VarName.py b/fixif/SoP/VarName.py
index 293c008..8b2889d 100644
--- a/fixif/SoP/VarName.py
+++ b/fixif/SoP/VarName.py
@@ -114,7 +114,7 @@ def generateNames(baseName, nbVar, surnames=None):
 	# initial values when surnames is None
 	if surnames is None:
 		surnames = [(None, i+1 if nbVar > 1 else None, 0) for i in range(nbVar)]
-	elif isinstance(surnames[0], str):		# simple surnames, without index and shift
+	elif surnames and isinstance(surnames[0], str):		# simple surnames, without index and shift
 		surnames = [(s, None, 0) for s in surnames]
 
 	return [VarName(baseName, i + 1 if nbVar > 1 else None, sn, ind, sh) for i, (sn, ind, sh) in enumerate(surnames)]
-- 
2.43.0


From 03948f6f0784bd45646014528530c09685ff7ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:39 +0000
Subject: [PATCH 25/58] fix: transfer function and pole sensitivities are
 computed with respect to the coefficients of Z (N1, N2 were those of Hu)

---
 fixif/SIF/SIF_sensibility.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/fixif/SIF/SIF_sensibility.py b/fixif/SIF/SIF_sensibility.py
index 04de9c6..5168946 100644
--- a/fixif/SIF/SIF_sensibility.py
+++ b/fixif/SIF/SIF_sensibility.py
@@ -10,7 +10,7 @@ __status__ = "Beta"
 
 
 from fixif.LTI import dSS
-from numpy import zeros, matrix as mat, multiply, conj, transpose, real, diag
+from numpy import zeros, eye, r_, matrix as mat, multiply, conj, transpose, real, diag
 from numpy.linalg import norm, eig, inv
 
 
@@ -112,13 +112,18 @@ class SIF_sensibility:
 	This class adds methods to compute the sensibility (wrt Z)
 	"""
 
+	def _Hcoeffs(self):
+		"""Returns the matrices N1 and N2 such that N1*x(k) + N2*u(k) are the variables t(k+1), x(k) and u(k) the coefficients of Z are multiplied by"""
+		return r_[self.invJ * self.M, eye(self.n), zeros((self.q, self.n))], r_[self.invJ * self.N, zeros((self.n, self.q)), eye(self.q)]
+
 	def dTFsensitivity(self):
 		"""Compute the transfer function sensitivity measure and matrix
 		Returns
 			- M: tf sensitivity measure
 			- MX: tf sensitivity matrix
 		"""
-		return _w_norm_prod(dSS(self.AZ, self._M1, self.CZ, self._M2), dSS(self.AZ, self.BZ, self._N1, self._N2), self.dZ)
+		N1, N2 = self._Hcoeffs()
+		return _w_norm_prod(dSS(self.AZ, self._M1, self.CZ, self._M2), dSS(self.AZ, self.BZ, N1, N2), self.dZ)
 		#TODO: check if the object is a controller, and use M1bar, M2bar, N1bar and N2bar instead of M1, M2, N1 and N2
 
 
@@ -132,7 +137,7 @@ class SIF_sensibility:
 			- MXk: pole sensitivity matrices for each pole
 		"""
 
-		dlambda_dZ, dlk_dZ = deigdZ(self.AZ, self._M1, self._N1, self.Z.shape, moduli)
+		dlambda_dZ, dlk_dZ = deigdZ(self.AZ, self._M1, self._Hcoeffs()[0], self.Z.shape, moduli)
 
 		#TODO: check if the object is a controller, and then
 		# Abar, Bbar, Cbar, Dbar, M1bar, M2bar, N1bar, N2bar = calc_plantSIF(R, plant)
-- 
2.43.0


From c1f6e7be4ee9b4f974a68b0956391fab3e1f00c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:11 +0000
Subject: [PATCH 26/58] fix: LGS and LCW decompositions for order 2 (the first
 gamma is also the last one)

---
 fixif/Structures/LGS_LCW/LGS_LCW.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixif/Structures/LGS_LCW/LGS_LCW.py b/fixif/Structures/LGS_LCW/LGS_LCW.py
index 60f6a12..7fc39af 100644
--- a/fixif/Structures/LGS_LCW/LGS_LCW.py
+++ b/fixif/Structures/LGS_LCW/LGS_LCW.py
@@ -110,7 +110,7 @@ def A_decomposition_LGS(alpha, Phi_in):
 	Ad = []
 	# On calcule d'abord tous les beta_i et gamma_i
 	beta = [-alpha[0]]
-	gamma = [1 / (1 + alpha[0] ** 2)]
+	gamma = [1 / (1 + alpha[0] ** 2)] if n > 2 else []
 	for i in range(1, n - 1):
 		beta.append(-alpha[i] / (1 - alpha[i - 1] * beta[i - 1]))
 		if i < n - 2:
@@ -135,7 +135,7 @@ def A_decomposition_LCW(alpha, Phi_in):
 	Ad = []
 	# On calcule d'abord tous les beta_i et gamma_i
 	beta = [-alpha[0]]
-	gamma = [1 / (1 + alpha[0] ** 2)]
+	gamma = [1 / (1 + alpha[0] ** 2)] if n > 2 else []
 	for i in range(1, n - 1):
 		beta.append(-alpha[i] / (1 - alpha[i - 1] * beta[i - 1]))
 		if i < n - 2:
-- 
2.43.0


From 771ab80f12157c6c093e37d6372925c41f14acdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:11 +0000
Subject: [PATCH 27/58] fix: LGS and LCW do not accept first order filters
 (their decomposition needs at least 2 states, IndexError was raised)

---
 fixif/Structures/LGS_LCW/LGS_LCW.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixif/Structures/LGS_LCW/LGS_LCW.py b/fixif/Structures/LGS_LCW/LGS_LCW.py
index 7fc39af..49a9949 100644
--- a/fixif/Structures/LGS_LCW/LGS_LCW.py
+++ b/fixif/Structures/LGS_LCW/LGS_LCW.py
@@ -369,9 +369,9 @@ def makeLCW(filt, transposed=False):
 
 def acceptLGSLCW(filt, **options):
 	"""
-	return True only if the filter is SISO and stable
+	return True only if the filter is SISO and stable (and its order is at least 2)
 	"""
-	return filt.isSISO() and filt.isStable()
+	return filt.isSISO() and filt.isStable() and filt.order > 1
 
 
 # build the Direct Form I
-- 
2.43.0


From ca8c682e8365b910859a55dc46bd5d74ebc25707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:11 +0000
Subject: [PATCH 28/58] fix: rhoDFII with all the Deltas equal to 1 uses the
 gammas (P was built as if they were 1), and Delta may be given as a list

---
 fixif/Structures/rhoDFIIt/rhoDFIIt.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fixif/Structures/rhoDFIIt/rhoDFIIt.py b/fixif/Structures/rhoDFIIt/rhoDFIIt.py
index 705fbff..241d852 100644
--- a/fixif/Structures/rhoDFIIt/rhoDFIIt.py
+++ b/fixif/Structures/rhoDFIIt/rhoDFIIt.py
@@ -53,6 +53,8 @@ def makerhoDFII(filt, gamma=None, Delta=None, transposed=True, scaling=None, equ
 	if gamma is None:
 		gamma = ones((1, n))
 	gamma = mat(gamma)
+	if Delta is not None:
+		Delta = mat(Delta)
 
 	# =====================================
 	#  Step 1: build Valapha_bar, Vbeta_bar
@@ -163,7 +165,7 @@ def makerhoDFII(filt, gamma=None, Delta=None, transposed=True, scaling=None, equ
 			L = mat(1)
 			M = c_[atleast_2d(1), zeros((1, n - 1))]
 			N = mat(Vbeta[0, 0])
-			P = mat(diagflat(Delta)) + mat(diagflat(ones((1, n - 1)), 1))
+			P = mat(diagflat(gamma)) + mat(diagflat(ones((1, n - 1)), 1))
 			Q = Vbeta[1:n + 1, 0]
 			R = zeros((1, n))
 			S = mat(0)
-- 
2.43.0


From 2e0878700e393e4b6ebfb97b0a1533e3892ba023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:55 +0000
Subject: [PATCH 29/58] fix: rhoDFII scaling when a state is always null
 (division by zero), and State_Space accepts a filter without option

---
 fixif/Structures/State_Space/State_Space.py |  2 +-
 fixif/Structures/rhoDFIIt/rhoDFIIt.py       | 14 ++++++++------
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/fixif/Structures/State_Space/State_Space.py b/fixif/Structures/State_Space/State_Space.py
index ccdded9..0709439 100644
--- a/fixif/Structures/State_Space/State_Space.py
+++ b/fixif/Structures/State_Space/State_Space.py
@@ -46,7 +46,7 @@ def makeSS(filt, form=None):
 	return {"JtoS": JtoS}
 
 
-def acceptSS(filt, form):
+def acceptSS(filt, form=None):
 	"""
 	The forms 'ctrl' and 'obs' cannot be applied to MIMO filters
 	'balanced' form is for stable filter
diff --git a/fixif/Structures/rhoDFIIt/rhoDFIIt.py b/fixif/Structures/rhoDFIIt/rhoDFIIt.py
index 241d852..4e95f99 100644
--- a/fixif/Structures/rhoDFIIt/rhoDFIIt.py
+++ b/fixif/Structures/rhoDFIIt/rhoDFIIt.py
@@ -18,7 +18,7 @@ __status__ = "Beta"
 from fixif.Structures.Structure import Structure
 from fixif.LTI import dSS
 from numpy import mat, array_equal
-from numpy import zeros, poly, sqrt, prod, transpose, diagflat, r_, c_, ones, atleast_2d, eye
+from numpy import zeros, where, poly, sqrt, prod, transpose, diagflat, r_, c_, ones, atleast_2d, eye
 from numpy import matrix as mat
 from numpy.linalg import inv
 from math import floor, log
@@ -96,19 +96,21 @@ def makerhoDFII(filt, gamma=None, Delta=None, transposed=True, scaling=None, equ
 			Delta = ones((1, n))
 
 		else:
-			Wc = dSS(Abar, Bbar, Cbar, Dbar).Wc
+			Wc = dSS(Abar, Bbar, Cbar, Dbar).Wc.diagonal().A1
+			# (there is nothing to scale for a state that is always null)
+			Wc = where(Wc > 1e-14 * max(Wc), Wc, 1)
 			Delta = zeros((1, n))
 			if scaling == 'l2':
 				# compute the Deltas that perform a l2-scaling (see Li04b)
-				Delta[0, 0] = sqrt(Wc[0, 0])
+				Delta[0, 0] = sqrt(Wc[0])
 				for i in range(1, n):
-					Delta[0, i] = sqrt(Wc[i, i] / Wc[i - 1, i - 1])
+					Delta[0, i] = sqrt(Wc[i] / Wc[i - 1])
 
 			elif scaling == 'l2-relaxed':
 				# compute the Deltas that perform a l2-scaling (see Hila09b)
-				Delta[0, 0] = floor2(sqrt(Wc[0, 0]))
+				Delta[0, 0] = floor2(sqrt(Wc[0]))
 				for i in range(1, n):
-					Delta[0, i] = floor2(sqrt(Wc[i, i] / Wc[i - 1, i - 1]))
+					Delta[0, i] = floor2(sqrt(Wc[i] / Wc[i - 1]))
 
 			else:
 				raise ValueError("rhoDFII: the `scaling` parameter should be None, 'l2' or 'l2-relaxed'")
-- 
2.43.0


From 7f104c27519d3e20a9d8e71b573387b145a589f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:42 +0000
Subject: [PATCH 30/58] fix: optimalUniformWL and optimalWL can run (unknown
 method, negative powers of integers, builtin all on a matrix)

---
 fixif/SIF/Realization_FxP.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/fixif/SIF/Realization_FxP.py b/fixif/SIF/Realization_FxP.py
index d3b08ee..6c0d9f3 100644
--- a/fixif/SIF/Realization_FxP.py
+++ b/fixif/SIF/Realization_FxP.py
@@ -13,7 +13,7 @@ __status__ = "Beta"
 from os import path
 import mpmath
 from numpy import zeros, ones, matrix, power, ndenumerate, kron, multiply, nditer
-from numpy import floor, log2, ceil, bmat, inf
+from numpy import floor, log2, ceil, bmat, inf, all
 from string import Template
 
 from fixif.config import SIF_TEMPLATES_PATH
@@ -115,16 +115,16 @@ class R_FxP:
 			return d
 
 		# determining the MSB and w_tilde
-		m_tilde = matrix(self._computeNaiveMSB(u_bar)).transpose()
+		m_tilde = matrix(self.computeNaiveMSB(u_bar)).transpose()
 		w_tilde = matrix(self._w_tilde(u_bar)).transpose()
 
 		# error
 		Weps = self.Hepsilon.WCPG()
-		E = multiply(Weps, kron(ones((self.p, 1)), power(2, m_tilde.transpose())))
+		E = multiply(Weps, kron(ones((self.p, 1)), power(2., m_tilde.transpose())))
 
 		# determining the minimal word-length with uniform scheme
 		w_guess = int(max(ceil(log2(E * ones((self.l + self.n + self.p, 1))) - log2(eps)))[0, 0])
-		return w_guess if all(E * power(2, -w_guess + delta(w_guess * ones((self.l + self.n + self.p, 1)))) < eps) else w_guess + 1
+		return w_guess if all(E * power(2., -w_guess + delta(w_guess * ones((self.l + self.n + self.p, 1)))) < eps) else w_guess + 1
 
 
 	def optimalWL(self, u_bar, eps, AMPLfilename='xmpl.dat', AMPLpath='.', wmax=64):
@@ -150,12 +150,12 @@ class R_FxP:
 		wmax = wmax * ones((self.l + self.n + self.p, 1))
 
 		# determining the MSB
-		m_tilde = matrix(self._computeNaiveMSB(u_bar)).transpose()
+		m_tilde = matrix(self.computeNaiveMSB(u_bar)).transpose()
 		w_tilde = matrix(self._w_tilde(u_bar)).transpose()
 
 		# error
 		Weps = self.Hepsilon.WCPG()
-		E = multiply(Weps, kron(ones((self.p, 1)), power(2, m_tilde.transpose())))
+		E = multiply(Weps, kron(ones((self.p, 1)), power(2., m_tilde.transpose())))
 
 		# generate the .dat file
 		AMPLcode = {
-- 
2.43.0


From 0e32c47cdf0ffe82db11c8c6d136229cfad9d636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:44 +0000
Subject: [PATCH 31/58] fix: the word-length threshold w_tilde is infinite when
 the bound of a variable is a power of 2 (OverflowError)

---
 fixif/SIF/Realization_FxP.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/fixif/SIF/Realization_FxP.py b/fixif/SIF/Realization_FxP.py
index 6c0d9f3..2f70450 100644
--- a/fixif/SIF/Realization_FxP.py
+++ b/fixif/SIF/Realization_FxP.py
@@ -12,7 +12,7 @@ __status__ = "Beta"
 
 from os import path
 import mpmath
-from numpy import zeros, ones, matrix, power, ndenumerate, kron, multiply, nditer
+from numpy import zeros, ones, matrix, power, ndenumerate, kron, multiply, nditer, minimum
 from numpy import floor, log2, ceil, bmat, inf, all
 from string import Template
 
@@ -85,13 +85,16 @@ class R_FxP:
 		Returns: a vector of thresholds w_tilde
 
 		We use:  w_tilde = 1 + ceil(log2(zeta_bar)) - floor(log2( 2^ceil(log2(zeta_bar)) - zeta_bar ))
-		with zeta_bar = <<Hzeta>>.u_bar
+		with zeta_bar = <<Hzeta>>.u_bar (so it's +inf when zeta_bar is a power of 2)
 		"""
-		#TODO: test if zeta_bar is a power of 2 (should be +Inf in that case)
 		zeta_bar = self.Hzeta.WCPG() * u_bar
 
 		with mpmath.workprec(500):  # TODO: compute how many bit we need !!
-			wtilde = [int(1+mpmath.ceil(mpmath.log(x[0], 2)) - mpmath.floor(mpmath.log(mpmath.power(2, mpmath.ceil(mpmath.log(x[0], 2))) - x[0], 2))) for x in zeta_bar.tolist()]
+			wtilde = []
+			for x in zeta_bar.tolist():
+				msb = mpmath.ceil(mpmath.log(x[0], 2))
+				gap = mpmath.power(2, msb) - x[0]
+				wtilde.append(int(1 + msb - mpmath.floor(mpmath.log(gap, 2))) if gap != 0 else inf)
 
 		return wtilde
 
@@ -164,7 +167,7 @@ class R_FxP:
 			'def_u': generateAMPLParam('u', wmax, "%d"),
 			'def_E': generateAMPLParam('E', E),
 			'def_eps': generateAMPLParam('eps', eps),
-			'def_wtilde': generateAMPLParam('wtilde', w_tilde, "%d")}
+			'def_wtilde': generateAMPLParam('wtilde', minimum(w_tilde, wmax), "%d")}
 
 		# generate the xmpl.dat file
 		with open(SIF_TEMPLATES_PATH + "xmpl.dat.template") as f:
-- 
2.43.0


From e89d01f060c3eb02e5ae8269a38c199950b254b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:02 +0000
Subject: [PATCH 32/58] fix: the AMPL data keep all the digits of E and eps,
 and E has two indexes with one output (all its values had the index 1)

---
 fixif/SIF/Realization_FxP.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fixif/SIF/Realization_FxP.py b/fixif/SIF/Realization_FxP.py
index 2f70450..b00f3f5 100644
--- a/fixif/SIF/Realization_FxP.py
+++ b/fixif/SIF/Realization_FxP.py
@@ -19,7 +19,7 @@ from string import Template
 from fixif.config import SIF_TEMPLATES_PATH
 
 # functions to define some parameters in a AMPL .dat file
-def generateAMPLParam(name, val, format="%f"):
+def generateAMPLParam(name, val, format="%.17g"):
 	"""generate AMPL code for the data of a given parameter
 	Parameters:
 		- name: name of the parameter
@@ -29,8 +29,8 @@ def generateAMPLParam(name, val, format="%f"):
 	"""
 	if isinstance(val, int):
 		return "param %s := %d;" % (name, val)
-	if val.shape[0] == 1 or val.shape[1] == 1:
-		# 1d vector
+	if val.shape[1] == 1:
+		# 1d vector (column); a row is a 2d array with one line (as E for one output)
 		return "param %s := \n%s;" % (name, "\n".join(("%d "+format) % (i[0]+1, wm) for i, wm in ndenumerate(val)))
 	else:
 		# 2d array
-- 
2.43.0


From 54abeaa75a7251fae1ffb68d013d676b5243625d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:10 +0000
Subject: [PATCH 33/58] fix: the failure of scipy to solve a Lyapunov equation
 is reported as a LinAlgError (AttributeError was raised)

---
 fixif/LTI/dSS.py | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/fixif/LTI/dSS.py b/fixif/LTI/dSS.py
index 7c792a3..647048d 100644
--- a/fixif/LTI/dSS.py
+++ b/fixif/LTI/dSS.py
@@ -208,13 +208,7 @@ class dSS(object):
 				self._Wo = mat(X)
 
 			except LinAlgError as ve:
-				if ve.info < 0:
-					e = LinAlgError(ve.message)
-					e.info = ve.info
-				else:
-					e = LinAlgError("dSS: Wo: scipy Linalg failed to compute eigenvalues of Lyapunov equation")
-					e.info = ve.info
-				raise e
+				raise LinAlgError("dSS: Wo: scipy Linalg failed to solve the Lyapunov equation (%s)" % ve)
 
 		elif method == 'slycot':
 			# Solve the Lyapunov equation by calling the Slycot function sb03md
@@ -284,13 +278,7 @@ class dSS(object):
 				self._Wc = mat(X)
 
 			except LinAlgError as ve:
-				if ve.info < 0:
-					e = LinAlgError(ve.message)
-					e.info = ve.info
-				else:
-					e = LinAlgError("dSS: Wc: scipy Linalg failed to compute eigenvalues of Lyapunov equation")
-					e.info = ve.info
-				raise e
+				raise LinAlgError("dSS: Wc: scipy Linalg failed to solve the Lyapunov equation (%s)" % ve)
 
 		elif method == 'slycot':
 			# Solve the Lyapunov equation by calling the Slycot function sb03md
-- 
2.43.0


From 3080743a7e83a3a9e62ad73964afb4eef23b8e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:10 +0000
Subject: [PATCH 34/58] fix: iter_random_dSS accepts p=1 and q=1, together or
 not, for stable systems too

---
 fixif/LTI/dSS.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/fixif/LTI/dSS.py b/fixif/LTI/dSS.py
index 647048d..cc4b111 100644
--- a/fixif/LTI/dSS.py
+++ b/fixif/LTI/dSS.py
@@ -731,16 +731,12 @@ def iter_random_dSS(number, stable=True, n=(5, 10), p=(1, 5), q=(1, 5),
 
 	"""
 	for i in range(number):
+		nn = randint(*n)
+		pp = 1 if p == 1 else randint(*p)
+		qq = 1 if q == 1 else randint(*q)
 		if stable:
-			yield random_dSS(randint(*n), randint(*p), randint(*q), pRepeat, pReal, pBCmask, pDmask, pDzero)
+			yield random_dSS(nn, pp, qq, pRepeat, pReal, pBCmask, pDmask, pDzero)
 		else:
-			nn = randint(*n)
-			if p == 1 and q == 1:
-				pp = 1
-				qq = 1
-			else:
-				pp = randint(*p)
-				qq = randint(*q)
 			A = mat(rand(nn, nn))
 			B = mat(rand(nn, qq))
 			C = mat(rand(pp, nn))
-- 
2.43.0


From 738864329be0e8caeb00f4597aff49dabe68a81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:10 +0000
Subject: [PATCH 35/58] fix: random filters and gabarits accept the seed 0 (it
 was ignored) and no seed (TypeError)

---
 fixif/LTI/Butter.py   | 4 ++--
 fixif/LTI/Elliptic.py | 4 ++--
 fixif/LTI/Filter.py   | 2 +-
 fixif/LTI/Gabarit.py  | 4 ++--
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/fixif/LTI/Butter.py b/fixif/LTI/Butter.py
index 8862413..661f0f9 100644
--- a/fixif/LTI/Butter.py
+++ b/fixif/LTI/Butter.py
@@ -88,7 +88,7 @@ def random_Butter(n=(5, 10), Wc=(0.1, 0.8), W1=(0.1, 0.5), W2=(0.5, 0.8), form=N
 		- seed: if not None, indicates the seed toi use for the random part (in order to be reproductible, the seed is stored in the name of the filter)
 	"""
 	# change the seed if asked
-	if seed:
+	if seed is not None:
 		numpy_seed(seed)
 	# choose a form if asked
 	if form is None:
@@ -111,4 +111,4 @@ def random_Butter(n=(5, 10), Wc=(0.1, 0.8), W1=(0.1, 0.5), W2=(0.5, 0.8), form=N
 	if onlyEven and order % 2 == 0:
 		order += 1
 
-	return Butter(order, W, form, name='Butterworth-random-%d' % seed)
+	return Butter(order, W, form, name='Butterworth-random' + ('-%d' % seed if seed is not None else ''))
diff --git a/fixif/LTI/Elliptic.py b/fixif/LTI/Elliptic.py
index b1243ca..0ac5509 100644
--- a/fixif/LTI/Elliptic.py
+++ b/fixif/LTI/Elliptic.py
@@ -99,7 +99,7 @@ def random_Elliptic(n=(5, 10), rp=(10,50), rs=(10,50), Wc=(0.1, 0.8), W1=(0.1, 0
 		- seed: if not None, indicates the seed toi use for the random part (in order to be reproductible, the seed is stored in the name of the filter)
 	"""
 	# change the seed if asked
-	if seed:
+	if seed is not None:
 		numpy_seed(seed)
 	# choose a form if asked
 	if form is None:
@@ -129,7 +129,7 @@ def random_Elliptic(n=(5, 10), rp=(10,50), rs=(10,50), Wc=(0.1, 0.8), W1=(0.1, 0
 		if isinstance(W, list):
 			W = [quantify(W[0], quant), quantify(W[1], quant)]
 
-	return Elliptic(order, rp=rip, rs=rst, Wn=W, etype=form, name='Elliptic-random-%d' % seed)
+	return Elliptic(order, rp=rip, rs=rst, Wn=W, etype=form, name='Elliptic-random' + ('-%d' % seed if seed is not None else ''))
 
 
 
diff --git a/fixif/LTI/Filter.py b/fixif/LTI/Filter.py
index b4aebc7..2c39c1e 100644
--- a/fixif/LTI/Filter.py
+++ b/fixif/LTI/Filter.py
@@ -233,7 +233,7 @@ def random_Filter(n=10, p=5, q=5, seed=None, name=None):
 		else:
 			raise ValueError("randomFilter: the string should be a valid string, ie be like 'RandomFilter-7/1/4-12345678'")
 	# change the seed if asked
-	if seed:
+	if seed is not None:
 		numpy_seed(seed)
 		name = 'RandomFilter-%d/%d/%d-%d' % (n, p, q, seed) 	# for example 'RandomFilter-(5,10)/(1,2)/(1,10)-12345678' for a MISO filter (#states between 5 and 10, #inputs between 1 and 10), seed=12345678)
 	else:
diff --git a/fixif/LTI/Gabarit.py b/fixif/LTI/Gabarit.py
index eab4c55..1fcd6aa 100644
--- a/fixif/LTI/Gabarit.py
+++ b/fixif/LTI/Gabarit.py
@@ -224,7 +224,7 @@ class Gabarit(object):
 		self._seed = seed
 
 	def __str__(self):
-		seed = "Seed=%s\n" % (self._seed,) if self._seed else ""
+		seed = "Seed=%s\n" % (self._seed,) if self._seed is not None else ""
 		return "%sType: %s (Fs=%sHz)\n%s" % (seed, self.type, self._Fs, "\n".join(str(b) for b in self._bands))
 
 	@property
@@ -462,7 +462,7 @@ def random_Gabarit(form=None, seed=None):
 	- seed: if not None, indicates the seed to use for the random part (in order to be reproductible, the seed is stored in the name of the gabarit)
 	"""
 	# change the seed if asked (otherwise, set the seed)
-	if not seed:
+	if seed is None:
 		set_seed(None)  # (from doc):  If seed is omitted or None, current system time is used
 		seed = randint(0, 16777215)  # between 0 and 2^24-1
 	set_seed(seed)
-- 
2.43.0


From c38bca83d47f66457c288d26f17bdfef045a07ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:10 +0000
Subject: [PATCH 36/58] fix: random_Butter with onlyEven gives even orders
 (they were all odd)

---
 fixif/LTI/Butter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixif/LTI/Butter.py b/fixif/LTI/Butter.py
index 661f0f9..571d038 100644
--- a/fixif/LTI/Butter.py
+++ b/fixif/LTI/Butter.py
@@ -108,7 +108,7 @@ def random_Butter(n=(5, 10), Wc=(0.1, 0.8), W1=(0.1, 0.5), W2=(0.5, 0.8), form=N
 		W = (Wc[1] - Wc[0]) * random_sample() + Wc[0]
 	# choose order
 	order = randint(*n)
-	if onlyEven and order % 2 == 0:
-		order += 1
+	if onlyEven and order % 2 == 1:
+		order += 1 if order + 1 < n[1] else -1
 
 	return Butter(order, W, form, name='Butterworth-random' + ('-%d' % seed if seed is not None else ''))
-- 
2.43.0


From 7b2b30c41e4785521fd45617aa2c835c9dbc077f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:10 +0000
Subject: [PATCH 37/58] fix: iter_random_Filter with ftype='all' chooses a type
 for each filter (all had the type of the first one)

---
 fixif/LTI/Filter.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/fixif/LTI/Filter.py b/fixif/LTI/Filter.py
index 2c39c1e..2e65eae 100644
--- a/fixif/LTI/Filter.py
+++ b/fixif/LTI/Filter.py
@@ -196,11 +196,10 @@ def iter_random_Filter(number, n=(5, 10), p=(1, 5), q=(1, 5), seeded=True, ftype
 	seeds = [randint(0, 1e9) if seeded else None for _ in range(number)]  # generate a particular seed for each random dSS, or None (if seeded is set to False)
 
 	for s in seeds:
-		if ftype not in pq.keys():
-			ftype = choice(list(pq.keys()))
+		t = ftype if ftype in pq.keys() else choice(list(pq.keys()))
 		nn = randint(*n)
-		pp = randint(*pq[ftype][0])
-		qq = randint(*pq[ftype][1])
+		pp = randint(*pq[t][0])
+		qq = randint(*pq[t][1])
 		yield random_Filter(n=nn, p=pp, q=qq, seed=s)
 
 
-- 
2.43.0


From 9764cc25eb08012ca1b78df96a8232294687f10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:10 +0000
Subject: [PATCH 38/58] fix: random_Elliptic quantizes the frequency of lowpass
 and highpass filters, and its default ripples give a filter (it was often
 NaN, when rp>rs)

---
 fixif/LTI/Elliptic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fixif/LTI/Elliptic.py b/fixif/LTI/Elliptic.py
index 0ac5509..e91ff1e 100644
--- a/fixif/LTI/Elliptic.py
+++ b/fixif/LTI/Elliptic.py
@@ -84,7 +84,7 @@ def iter_random_Elliptic(number, n=(5, 10), rp=(0,10), rs=(30,80), Wc=(0.1, 0.8)
 
 
 
-def random_Elliptic(n=(5, 10), rp=(10,50), rs=(10,50), Wc=(0.1, 0.8), W1=(0.1, 0.5), W2=(0.5, 0.8), form=None, seed=None, quant=None):
+def random_Elliptic(n=(5, 10), rp=(0,10), rs=(30,80), Wc=(0.1, 0.8), W1=(0.1, 0.5), W2=(0.5, 0.8), form=None, seed=None, quant=None):
 	"""
 	Generate a n-th order Butterworh filters
 	Parameters
@@ -128,6 +128,8 @@ def random_Elliptic(n=(5, 10), rp=(10,50), rs=(10,50), Wc=(0.1, 0.8), W1=(0.1, 0
 		rst = quantify(rst, quant)
 		if isinstance(W, list):
 			W = [quantify(W[0], quant), quantify(W[1], quant)]
+		else:
+			W = quantify(W, quant)
 
 	return Elliptic(order, rp=rip, rs=rst, Wn=W, etype=form, name='Elliptic-random' + ('-%d' % seed if seed is not None else ''))
 
-- 
2.43.0


From bed2a4d223eff15f946ffa8b130ed33f15624960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:10 +0000
Subject: [PATCH 39/58] fix: Gabarit.to_dTF refuses a bandstop with different
 pass gains (it compared the first one with itself), and accepts a stop gain
 of 0dB

---
 fixif/LTI/Gabarit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixif/LTI/Gabarit.py b/fixif/LTI/Gabarit.py
index 1fcd6aa..091d0bc 100644
--- a/fixif/LTI/Gabarit.py
+++ b/fixif/LTI/Gabarit.py
@@ -102,7 +102,7 @@ class Band(object):
 	def __sub__(self, other):
 		"""Substract a Band and a Gain"""
 		try:
-			stopGain = self._stopGain-other if self._stopGain else None
+			stopGain = self._stopGain-other if self._stopGain is not None else None
 			passGains = (self._passGains[0]-other, self._passGains[1]-other) if self._passGains else None
 		except Exception:
 			raise ValueError("The gain should be a constant")
@@ -314,7 +314,7 @@ class Gabarit(object):
 			pass1b, stopb, pass2b = bands
 			matlabParams = [pass1b.w2, stopb.w1, stopb.w2, pass2b.w1, -pass1b.passGains[0], -stopb.stopGain, -pass2b.passGains[0]]
 			scipyParams = [[pass1b.w2, pass2b.w1], [stopb.w1, stopb.w2], -pass1b.passGains[0], -stopb.stopGain]
-			if not matlabEng and pass1b.passGains[0] != pass1b.passGains[0]:
+			if not matlabEng and pass1b.passGains != pass2b.passGains:
 					raise ValueError("Scipy cannot handle bandstop when the two pass bands have different gains")
 
 
-- 
2.43.0


From 7c45c513fbb8872cb115780c7fa8f25021889a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:21 +0000
Subject: [PATCH 40/58] fix: random_dTF and random_dTFmp give transfer
 functions of the asked order (it was one less)

---
 fixif/LTI/dTF.py   | 4 ++--
 fixif/LTI/dTFmp.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/fixif/LTI/dTF.py b/fixif/LTI/dTF.py
index f11db52..c6b818b 100644
--- a/fixif/LTI/dTF.py
+++ b/fixif/LTI/dTF.py
@@ -281,8 +281,8 @@ def random_dTF(order=(5, 10)):
 		n = order[0]
 	else:
 		n = randint(*order)
-	num = mat(rand(1, n))
-	den = mat(rand(1, n))
+	num = mat(rand(1, n+1))
+	den = mat(rand(1, n+1))
 	return dTF(num, den)
 
 
diff --git a/fixif/LTI/dTFmp.py b/fixif/LTI/dTFmp.py
index 9b8ade4..2c9c295 100644
--- a/fixif/LTI/dTFmp.py
+++ b/fixif/LTI/dTFmp.py
@@ -201,8 +201,8 @@ def random_dTFmp(order=(5, 10)):
 		n = order[0]
 	else:
 		n = randint(*order)
-	num = numpy.matrix(rand(1, n))
-	den = numpy.matrix(rand(1, n))
+	num = numpy.matrix(rand(1, n+1))
+	den = numpy.matrix(rand(1, n+1))
 	return dTFmp(num, den)
 
 
-- 
2.43.0


From 50fb8adc85166cd1c61fccfdb2f6bbf78c636f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:18 +0000
Subject: [PATCH 41/58] fix: Gabarit.plot with normalised frequencies (Fs=None)

---
 fixif/LTI/Gabarit.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fixif/LTI/Gabarit.py b/fixif/LTI/Gabarit.py
index 091d0bc..42708cc 100644
--- a/fixif/LTI/Gabarit.py
+++ b/fixif/LTI/Gabarit.py
@@ -352,13 +352,14 @@ class Gabarit(object):
 			- dB: (boolean)
 		"""
 		minG = -200
+		Fs = self._Fs if self._Fs else 2      # as for the bands
 		if tf:
 			w, h = freqz(tf.num.transpose(), tf.den.transpose())
 			if dB:
-				plt.plot((self._Fs * 0.5 / pi) * w, 20*log10(abs(h)))
+				plt.plot((Fs * 0.5 / pi) * w, 20*log10(abs(h)))
 				minG = min(20 * log10(abs(h)))
 			else:
-				plt.plot((self._Fs * 0.5 / pi)*w, abs(h))
+				plt.plot((Fs * 0.5 / pi)*w, abs(h))
 
 
 		currentAxis = plt.gca()
-- 
2.43.0


From c3065bcf91a9c833f736100b0b9078c34ac68c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:58 +0000
Subject: [PATCH 42/58] fix: importSimulink adds the contributions of a block
 that reaches a Sum by several ways (only the last one was kept, or
 RuntimeError)

---
 fixif/Structures/Simulink/diagram.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/fixif/Structures/Simulink/diagram.py b/fixif/Structures/Simulink/diagram.py
index 146698e..41d2e64 100644
--- a/fixif/Structures/Simulink/diagram.py
+++ b/fixif/Structures/Simulink/diagram.py
@@ -220,7 +220,8 @@ class System(object):
 		for bsid in self.blocks.keys(): 
 			neweq = Equation(bsid)
 			# we list here all inputs blocks for a given block
-			neweq.termes = dict((block.sid, 1.0) for block in self.blocks[bsid].inlist.values()) # python2.6
+			for block in self.blocks[bsid].inlist.values():
+				neweq.add(block.sid, 1.0)
 
 			# for a gain block : give right coeff for all inputs
 			#  bi : input block / termes[bi]: bi coeff
@@ -232,10 +233,10 @@ class System(object):
 			# affect -1.0 to coeff if the sign corresponding to input block is '-'
 			if self.blocks[bsid].type == 'Sum':
 				curblock = self.blocks[bsid]
-				for pi in curblock.inlist.keys():
-					if curblock.inportsign[int(pi)-1] == '-': # port number start on '1'
-						bi = curblock.inlist[pi] # inlist = {porti:blocki} : block feeding the given input port 
-						neweq.termes[bi.sid] = 0 - 1.0 
+				neweq.termes = {}
+				for pi, bi in curblock.inlist.items():	# inlist = {porti:blocki} : block feeding the given input port
+					# port number start on '1'
+					neweq.add(bi.sid, -1.0 if curblock.inportsign[int(pi)-1] == '-' else 1.0)
 			
 				
 			if self.blocks[bsid].type != 'Inport':
@@ -254,14 +255,12 @@ class System(object):
 				for inp in list(eq.termes): # a copy of the dict key / dict is changing during iteration
 					inpb =  self.getblockbysid(inp)
 					inpcoeff = eq.termes[inp]
-					assert abs(inpcoeff) == 1.0 # Sum have no gain
 					if inpb.type == 'Sum' and len(inpb.outlist) == 1: # merge if it's not used somewhere else
 						# handle here sum sign propagation: coeff2*inpcoeff  
-						d = dict((inp2, coeff2*inpcoeff) for (inp2,coeff2) in self.getequation(inp).termes.items())
-						eq.termes.update(d)
-						del eq.termes[inp]
-
 						subequa = self.getequation(inp)
+						del eq.termes[inp]
+						for inp2, coeff2 in subequa.termes.items():
+							eq.add(inp2, coeff2*inpcoeff)
 						self.equations.remove(subequa)
 
 
@@ -274,14 +273,14 @@ class System(object):
 		# ? keep cascading gain block : test if the current block is a sum
 		# 								and create also an inter var for upstream gain block
 		for eq in self.equations:
-			for eqin in eq.termes:
+			for eqin in list(eq.termes): # a copy of the keys, the dict is changing during iteration
 				if self.blocks[eqin].type == 'Gain':
 					oldgain = eq.termes[eqin]	
 					del eq.termes[eqin] 
 
 					gaineq = self.getequation(eqin)
 					for gin in gaineq.termes:
-						eq.termes[gin] = gaineq.termes[gin] * oldgain
+						eq.add(gin, gaineq.termes[gin] * oldgain)
 
 
 	def isequationused(self,eq): 
@@ -386,6 +385,10 @@ class Equation(object):
 		self.out = eqid
 		self.termes = {}
 
+	def add(self, sid, coeff):
+		"""Add coeff*sid to the terms (a block can feed the same equation several times)"""
+		self.termes[sid] = self.termes.get(sid, 0.0) + coeff
+
 	def __str__(self):
 		return str(self.out) + "-" + str(self.termes)
 
-- 
2.43.0


From e0bdf360bcc21f017fbd08f626c87f1eb70d63d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:58 +0000
Subject: [PATCH 43/58] fix: importSimulink gives the inputs and outputs in the
 order of their ports, and treats all the outputs (with several outputs, some
 feedbacks were lost)

---
 fixif/Structures/Simulink/diagram.py | 12 +++++++-----
 fixif/Structures/Simulink/sif.py     | 27 +++++++++++++--------------
 2 files changed, 20 insertions(+), 19 deletions(-)

diff --git a/fixif/Structures/Simulink/diagram.py b/fixif/Structures/Simulink/diagram.py
index 41d2e64..dabcb63 100644
--- a/fixif/Structures/Simulink/diagram.py
+++ b/fixif/Structures/Simulink/diagram.py
@@ -329,7 +329,7 @@ class System(object):
 			block = self.getblockbysid(sid)
 			if block.type == 'Inport':
 				inports.append(block)
-		return inports
+		return sorted(inports, key=lambda b: int(b.port))
 	
 	def getoutblocks(self):
 	# return a list of all Outports blocks
@@ -340,6 +340,11 @@ class System(object):
 				outports.append(block)
 		return outports
 
+	def getoutputs(self):
+		"""Return the sid of the blocks that feed the Outports, in the order of the output ports"""
+		outports = sorted(self.getoutblocks(), key=lambda b: int(b.port))
+		return [b.inlist['1'].sid for b in outports]
+
 	def getblocksbytype(self,type):
 	# return a list of blocks with a given type : 'Sum', 'Delay', ...
 		tblocks = []
@@ -372,10 +377,7 @@ class System(object):
 		# t and y are modified so we rely on equation list ( this hold final result on block diag processing)
 		sum = [self.getblockbysid(teq.out) for teq in self.equations if self.getblockbysid(teq.out).type == 'Sum']
 		t = [bs.name for bs in sum if  bs.isoutblock() == False]
-		y = [bs.name for bs in sum if  bs.isoutblock() == True]
-		# add support for output on Gain block
-		g = [xeq.out for xeq in self.equations if self.getblockbysid(xeq.out).type == 'Gain']
-		y += [s for s in g if  self.getblockbysid(s).isoutblock() == True]
+		y = [self.getblockbysid(sid).name for sid in self.getoutputs()]
 		return (u,x,t,y)
 
 	
diff --git a/fixif/Structures/Simulink/sif.py b/fixif/Structures/Simulink/sif.py
index 3dd2960..d8e892a 100644
--- a/fixif/Structures/Simulink/sif.py
+++ b/fixif/Structures/Simulink/sif.py
@@ -47,10 +47,7 @@ class Sif(object):
 		x = [xeq.out for xeq in system.equations if system.getblockbysid(xeq.out).type == 'Delay']
 		sum = [teq.out for teq in system.equations if system.getblockbysid(teq.out).type == 'Sum']
 		t = [s for s in sum if  system.getblockbysid(s).isoutblock() == False]
-		y = [s for s in sum if  system.getblockbysid(s).isoutblock() == True]
-		# add support for output on Gain block
-		g = [xeq.out for xeq in system.equations if system.getblockbysid(xeq.out).type == 'Gain']
-		y += [s for s in g if  system.getblockbysid(s).isoutblock() == True]
+		y = system.getoutputs()
 
 		# TODO: dirty work, just for test, clean useless variables and computation
 		# for block labeling : type+sid
@@ -68,14 +65,13 @@ class Sif(object):
 			bsids.append(block)
 		# get a new free SID
 		def get_new_sid(sids):
-			nb = len(sids) + 2
-			for tsid in range(1,nb):
-				if tsid not in sids:
-					sid = tsid
-			sids.append(sid) #update local blocks list
-			return str(sid) 
+			sid = 1
+			while str(sid) in sids:
+				sid += 1
+			sids.append(str(sid)) #update local blocks list
+			return str(sid)
 		# correct equations
-		for outb in y:
+		for i, outb in enumerate(y):
 			for eq in system.equations:
 				feedback = False
 				for block in eq.termes:
@@ -83,15 +79,18 @@ class Sif(object):
 						feedback = True
 						break	
 				if feedback:
-					t.append(outb)
-					y.remove(outb)
+					newt = outb not in t	# a block can feed several outputs
+					if newt:
+						t.append(outb)
 					new_out = get_new_sid(bsids)
 					#bsids.append(new_out) #update done in get_new_sid()
 					# add a new equation
 					neweq=Equation(new_out)
 					neweq.termes[outb] = 1.0
 					system.equations.append(neweq)
-					y.append(new_out)
+					y[i] = new_out
+					if not newt:
+						break
 					#correct matrix size
 					self.l +=1
 					def mat( a, b):
-- 
2.43.0


From 6e6688d4dea50768fb09a68735d57be12efb0159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:58 +0000
Subject: [PATCH 44/58] fix: importSimulink keeps the coefficients of J as
 numbers (a null coefficient was seen as a dependency)

---
 fixif/Structures/Simulink/sif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/Structures/Simulink/sif.py b/fixif/Structures/Simulink/sif.py
index d8e892a..94a9392 100644
--- a/fixif/Structures/Simulink/sif.py
+++ b/fixif/Structures/Simulink/sif.py
@@ -133,7 +133,7 @@ class Sif(object):
 			elif eq.out in t: # intermediate eq
 				for block,coeff in eq.termes.items() : # scan current equation inputs
 					if block in t:
-						self.J[t.index(eq.out)] [t.index(block)] = str(0-coeff)
+						self.J[t.index(eq.out)] [t.index(block)] = -coeff
 					elif block in x:
 						self.M[t.index(eq.out)] [x.index(block)] = coeff
 					elif block in u:
-- 
2.43.0


From 22aae42c818cf3e1b626614a507aa6d02d2cb9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:58 +0000
Subject: [PATCH 45/58] fix: importSimulink takes into account the length of
 the Delay blocks (they were all delays of one sample)

---
 fixif/Structures/Simulink/diagram.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/fixif/Structures/Simulink/diagram.py b/fixif/Structures/Simulink/diagram.py
index dabcb63..da82e97 100644
--- a/fixif/Structures/Simulink/diagram.py
+++ b/fixif/Structures/Simulink/diagram.py
@@ -13,6 +13,7 @@ __email__ = "thibault.hilaire@lip6.fr"
 __status__ = "Beta"
 
 import sys
+from copy import copy
 from lxml import etree
 from fixif.Structures.Simulink.blocks import *
 
@@ -35,6 +36,7 @@ class System(object):
 		# For the given system model, build blocks and lines list
 		self.blocks, self.lines = self.parsesys(self.tree, self.syspath)
 		self.flattendesign() # eliminate subsys block box 
+		self.splitdelays() # a delay of k samples is a chain of k blocks
 		self.fillblocksiolist() # update in/out blocks list of all blocks
 		self.equations = self.buildequations() # build a simplified relationship of all blocks
 
@@ -200,6 +202,22 @@ class System(object):
 
 
 
+	def splitdelays(self):
+		"""Replace each Delay of k samples by a chain of k Delay blocks of one sample"""
+		for block in [b for b in self.blocks.values() if b.type == 'Delay']:
+			for k in range(1, block.delay):
+				# insert a new Delay just before the block
+				new = copy(block)
+				new.sid = '%s_%d' % (block.sid, k)
+				new.inlist, new.outlist = {}, []
+				for line in self.lines:
+					if line.dstsid == block.sid:
+						line.dstsid = new.sid
+				self.lines.append(Line(new.sid + '#out:1', block.sid + '#in:1'))
+				self.blocks[new.sid] = new
+
+
+
 	def fillblocksiolist(self):
 		""" Update blocks inlist and outlist attribute : linked blocks
 			inlist : list (dict) of all blocks connected to input ports
-- 
2.43.0


From 3f872478333bd54b19e43949d66f41a1d03c80bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:58 +0000
Subject: [PATCH 46/58] fix: importSimulink accepts a Sum without sign list,
 and reports an algebraic loop (sys was not imported)

---
 fixif/Structures/Simulink/blocks.py | 1 +
 fixif/Structures/Simulink/sif.py    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/fixif/Structures/Simulink/blocks.py b/fixif/Structures/Simulink/blocks.py
index 8cc2c95..38290bd 100644
--- a/fixif/Structures/Simulink/blocks.py
+++ b/fixif/Structures/Simulink/blocks.py
@@ -99,6 +99,7 @@ class Sum(Block):
 				self.outports = int(iochar[2])
 
 		# parse input sign string
+		signtext = '+' * self.inports	# value when not given by user in diagram
 		for p in bel.findall("P"):
 			if p.get("Name") == "Inputs":
 				signtext = p.text # |++ -> 1st:+ / 2nd:+
diff --git a/fixif/Structures/Simulink/sif.py b/fixif/Structures/Simulink/sif.py
index 94a9392..99f5b01 100644
--- a/fixif/Structures/Simulink/sif.py
+++ b/fixif/Structures/Simulink/sif.py
@@ -14,6 +14,7 @@ __email__ = "thibault.hilaire@lip6.fr"
 __status__ = "Beta"
 
 
+import sys
 from fixif.Structures.Simulink.diagram import Equation
 
 class Sif(object):
-- 
2.43.0


From d97b08d927026d2174abaa2f4a49b6e5da8960ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:58 +0000
Subject: [PATCH 47/58] fix: importSimulink accepts a diagram without
 intermediate variable (wrong shape of the matrices)

---
 fixif/Structures/Simulink/Simulink.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/fixif/Structures/Simulink/Simulink.py b/fixif/Structures/Simulink/Simulink.py
index 3dcc0d4..1dedc25 100755
--- a/fixif/Structures/Simulink/Simulink.py
+++ b/fixif/Structures/Simulink/Simulink.py
@@ -23,7 +23,7 @@ from zipfile import is_zipfile, ZipFile
 from os.path import split
 
 from fixif.SIF import Realization
-from numpy import mat
+from numpy import array, mat
 
 from fixif.LTI.Filter import random_Filter
 
@@ -86,10 +86,14 @@ def importSimulink(fileName, constants=None):
     print("inter t", t)
     print("output y", y)
 
+    def tomat(lines, nrows, ncols):
+        # the shape is given, since there may be no row (no intermediate variable)
+        return mat(array(lines, dtype='float').reshape(nrows, ncols))
+    l = mysif.l
     return Realization(None,
-                       (mat(mysif.J, dtype='float'), mat(mysif.K, dtype='float'), mat(mysif.L, dtype='float'),
-                        mat(mysif.M, dtype='float'), mat(mysif.N, dtype='float'), mat(mysif.P, dtype='float'),
-                        mat(mysif.Q, dtype='float'), mat(mysif.R, dtype='float'), mat(mysif.S, dtype='float')),
+                       (tomat(mysif.J, l, l), tomat(mysif.K, n, l), tomat(mysif.L, p, l),
+                        tomat(mysif.M, l, n), tomat(mysif.N, l, m), tomat(mysif.P, n, n),
+                        tomat(mysif.Q, n, m), tomat(mysif.R, p, n), tomat(mysif.S, p, m)),
                        structureName='Simulink (%s)' % fileName)
 
 # TODO
-- 
2.43.0


From 7bc0ee85492dac4f31f5be67ce95de29cd8cdb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:49 +0000
Subject: [PATCH 48/58] fix: importSimulink accepts an output fed directly by a
 Delay or an Inport (it was lost)

---
 fixif/Structures/Simulink/sif.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fixif/Structures/Simulink/sif.py b/fixif/Structures/Simulink/sif.py
index 99f5b01..b7155db 100644
--- a/fixif/Structures/Simulink/sif.py
+++ b/fixif/Structures/Simulink/sif.py
@@ -80,7 +80,8 @@ class Sif(object):
 						feedback = True
 						break	
 				if feedback:
-					newt = outb not in t	# a block can feed several outputs
+					# new intermediate variable (a block can feed several outputs)
+					newt = outb not in t and outb not in x and outb not in u
 					if newt:
 						t.append(outb)
 					new_out = get_new_sid(bsids)
-- 
2.43.0


From 27ee8cc9b03ca8a6d7afbb3357d4124ae338c1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:24 +0000
Subject: [PATCH 49/58] fix: the text of a SoP is an assignment (the
 coefficient format was used as assignment sign)

---
 fixif/SoP/SoP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/SoP/SoP.py b/fixif/SoP/SoP.py
index e9e5d2b..40ccdae 100644
--- a/fixif/SoP/SoP.py
+++ b/fixif/SoP/SoP.py
@@ -83,4 +83,4 @@ class SoP:
 
 	def __str__(self):
 		"""display the SoP"""
-		return self.toAlgoStr('%4f')
+		return self.toAlgoStr(coefFormat='%4f')
-- 
2.43.0


From 7690e9ddf7dbb3c0877835f1499d2c4686cd202e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:47 +0000
Subject: [PATCH 50/58] fix: dTF.bode works with current matplotlib (the
 parameter b of grid does not exist any more)

---
 fixif/LTI/dTF.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fixif/LTI/dTF.py b/fixif/LTI/dTF.py
index c6b818b..53fc0d2 100644
--- a/fixif/LTI/dTF.py
+++ b/fixif/LTI/dTF.py
@@ -196,15 +196,15 @@ class dTF(object):
 		plt.subplot(2, 1, 1)
 		plt.semilogx(w, mag, 'b-', linewidth=1)
 		plt.xlim((wmin, 3.5))
-		plt.grid(b=True, which='major', color='gray', linestyle='-')
-		plt.grid(b=True, which='minor', color='silver', linestyle='--')
+		plt.grid(True, which='major', color='gray', linestyle='-')
+		plt.grid(True, which='minor', color='silver', linestyle='--')
 		plt.ylabel('Magnitude (dB)')
 		plt.axvline(x=3.14159, color='grey', zorder=2)
 		plt.subplot(2, 1, 2)
 		plt.semilogx(w, phase, 'b-', linewidth=1)
 		plt.xlim((wmin, 3.5))
-		plt.grid(b=True, which='major', color='gray', linestyle='-')
-		plt.grid(b=True, which='minor', color='silver', linestyle='--')
+		plt.grid(True, which='major', color='gray', linestyle='-')
+		plt.grid(True, which='minor', color='silver', linestyle='--')
 		plt.axvline(x=3.14159, color='grey', zorder=2)
 		plt.ylabel('Phase')
 		plt.xlabel('Frequency ($rad.s^{-1}$)')
-- 
2.43.0


From 4336d4612d28341a3bdf6bd7c5cff12936ab33aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:20 +0000
Subject: [PATCH 51/58] fix: dSS.assert_close compares all the samples that
 tell two systems apart, and their sizes (z^-5 was close to 0)

---
 fixif/LTI/dSS.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fixif/LTI/dSS.py b/fixif/LTI/dSS.py
index cc4b111..7bdee9a 100644
--- a/fixif/LTI/dSS.py
+++ b/fixif/LTI/dSS.py
@@ -610,10 +610,16 @@ class dSS(object):
 		# assert_allclose(self.C * self.A * self.B, other.C * other.A * other.B, rtol=rtol)
 		# assert_allclose(self.C * self.A * self.A * self.B, other.C * other.A * other.A * other.B, rtol=rtol)
 		# assert_allclose(self.D, other.D, rtol=rtol)
+		assert (self.p, self.q) == (other.p, other.q)
 		assert norm(self.C * self.B - other.C * other.B) < eps
 		assert norm(self.C * self.A * self.B - other.C * other.A * other.B) < eps
 		assert norm(self.C * self.A * self.A * self.B - other.C * other.A * other.A * other.B) < eps
 		assert norm(self.D - other.D) < eps
+		# the other samples of the impulse responses (two systems of order n1 and n2 are the same iff their n1+n2 first samples are)
+		h1, h2 = self.A ** 3 * self.B, other.A ** 3 * other.B
+		for _ in range(3, self.n + other.n):
+			assert norm(self.C * h1 - other.C * h2) < eps * max(1, norm(self.C * h1))
+			h1, h2 = self.A * h1, other.A * h2
 
 
 
-- 
2.43.0


From 8e03ff20aeee43ac9a64bb27d10a9ee3547d89b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:54 +0000
Subject: [PATCH 52/58] fix: dTF.to_dSS('obs') keeps the numerator coefficients
 smaller than 1e-14

---
 fixif/LTI/dTF.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/fixif/LTI/dTF.py b/fixif/LTI/dTF.py
index 53fc0d2..e78804a 100644
--- a/fixif/LTI/dTF.py
+++ b/fixif/LTI/dTF.py
@@ -18,8 +18,8 @@ __status__ = "Beta"
 from fixif.WCPG import WCPG_TF
 from numpy import ndenumerate, array, linspace
 from numpy import matrix as mat, convolve
-from numpy import diagflat, zeros, ones, r_, c_, atleast_2d, fliplr
-from scipy.signal import tf2ss, TransferFunction, dbode
+from numpy import diagflat, zeros, ones, eye, r_, c_, atleast_2d, fliplr
+from scipy.signal import TransferFunction, dbode
 from scipy.linalg import norm
 
 
@@ -152,8 +152,16 @@ class dTF(object):
 			C = mat(fliplr(self.num[0, 1:]) - fliplr(self.den[0, 1:])*self.num[0, 0])
 			D = mat(atleast_2d(self.num[0, 0]))
 		elif form == 'obs':
-			# TODO: to it manually!!
-			A, B, C, D = tf2ss(array(self.num)[0, :], array(self.den)[0, :])
+			# (done manually, since scipy's tf2ss drops the first coefficients of the numerator when they are smaller than 1e-14)
+			n = max(self.order, 1)
+			A = mat(zeros((n, n)))
+			A[0, :self.order] = -self.den[0, 1:]
+			A[1:, :-1] = eye(n-1)
+			B = mat(zeros((n, 1)))
+			B[0, 0] = 1
+			C = mat(zeros((1, n)))
+			C[0, :self.order] = self.num[0, 1:] - self.num[0, 0]*self.den[0, 1:]
+			D = mat(atleast_2d(self.num[0, 0]))
 		else:
 			raise ValueError('dTF.to_dSS: the form "%s" is invalid (must be "ctrl" or "obs")' % form)
 
-- 
2.43.0


From c6bb10daf925bd78216c21aa167f41c48a6ec1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:53 +0000
Subject: [PATCH 53/58] fix: mpf_matrix_to_sollya, sollya_matrix_to_numpy and
 dTFmp.to_Sollya import sollya (NameError was raised, even with Sollya)

---
 fixif/LTI/dTFmp.py                       | 1 +
 fixif/func_aux/mpf_matrix_to_sollya.py   | 2 ++
 fixif/func_aux/sollya_matrix_to_numpy.py | 2 ++
 3 files changed, 5 insertions(+)

diff --git a/fixif/LTI/dTFmp.py b/fixif/LTI/dTFmp.py
index 2c9c295..3a62248 100644
--- a/fixif/LTI/dTFmp.py
+++ b/fixif/LTI/dTFmp.py
@@ -159,6 +159,7 @@ class dTFmp(object):
 		- num, den: (sollya object) numerator and denominator of the transfer function
 		"""
 		if not self._sollya:
+			import sollya
 			tf_num_sollya, len_num, _ = mpf_matrix_to_sollya(self._num)
 			tf_den_sollya, len_den, _ = mpf_matrix_to_sollya(self._den)
 			num = sollya.horner(sum(sollya.SollyaObject(x) * sollya._x_ ** i for i, x in enumerate(tf_num_sollya)))
diff --git a/fixif/func_aux/mpf_matrix_to_sollya.py b/fixif/func_aux/mpf_matrix_to_sollya.py
index a56658b..f41d79c 100644
--- a/fixif/func_aux/mpf_matrix_to_sollya.py
+++ b/fixif/func_aux/mpf_matrix_to_sollya.py
@@ -29,6 +29,8 @@ def mpf_matrix_to_sollya(A):
 	if not isinstance(A[0,0], mpmath.mpf):
 		raise ValueError('Cannot convert matrix to sollya: expected a real matrix but instead got %s' % type(A[0,0]))
 
+	import sollya
+
 	#First, we need to get the (long, long) representation of the matrix A
 	#We compute matrices Y and N such that A[i,j] = Y[i,j] * 2 ** N[i,j]
 
diff --git a/fixif/func_aux/sollya_matrix_to_numpy.py b/fixif/func_aux/sollya_matrix_to_numpy.py
index 23b370a..5981fc5 100644
--- a/fixif/func_aux/sollya_matrix_to_numpy.py
+++ b/fixif/func_aux/sollya_matrix_to_numpy.py
@@ -18,6 +18,8 @@ def sollya_matrix_to_numpy(A, m, n):
 	B - numpy matrix
 	"""
 
+	import sollya
+
 	B = numpy.matrix(numpy.zeros([m,n]))
 	for i in range(0,m):
 		for j in range(0,n):
-- 
2.43.0


From 4e9af59a849f1d207edbc33ead6a0eac177d72ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:53 +0000
Subject: [PATCH 54/58] fix: dSSmp.WCPGmp loads wcpg.sol from its directory
 (fipogen/LTI/wcpg.sol does not exist any more)

---
 fixif/LTI/dSSmp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fixif/LTI/dSSmp.py b/fixif/LTI/dSSmp.py
index f433552..ab4e8dc 100644
--- a/fixif/LTI/dSSmp.py
+++ b/fixif/LTI/dSSmp.py
@@ -13,6 +13,7 @@ __status__ = "Beta"
 import mpmath
 import numpy
 
+from os.path import abspath, dirname, join
 from numpy.random.mtrand import randint, rand
 from fixif.func_aux import python2mpf_matrix, mpf_to_numpy, mpf_matrix_fadd, mpf_matrix_fmul, mpf_matrix_to_sollya
 from fixif.LTI import random_dSS
@@ -343,9 +344,9 @@ class dSSmp(object):
 		import sollya
 
 
-		# load gabarit.sol
+		# load wcpg.sol
 		# sollya.suppressmessage(57, 174, 130, 457)
-		sollya.execute("fipogen/LTI/wcpg.sol")
+		sollya.execute(join(dirname(abspath(__file__)), "wcpg.sol"))
 
 		wcpg = sollya.parse("wcpg")
 
-- 
2.43.0


From 046c602299ab3bffe408c3858169d700cd97ad9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:53 +0000
Subject: [PATCH 55/58] fix: dSSmp.simulate_rounded can run (sollya was not
 imported, a mpmath matrix has no shape), rounds the states to prec bits and
 gives all the outputs

---
 fixif/LTI/dSSmp.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/fixif/LTI/dSSmp.py b/fixif/LTI/dSSmp.py
index ab4e8dc..a30e670 100644
--- a/fixif/LTI/dSSmp.py
+++ b/fixif/LTI/dSSmp.py
@@ -370,10 +370,9 @@ class dSSmp(object):
 
 		# xk = mpf_matrix_to_sollya(xk)[0]
 
-		nSimulations = u.shape[1]
+		nSimulations = u.cols
 		yk = mpmath.mp.zeros(self._p, nSimulations)
 
-		yk_sollya = mpf_matrix_to_sollya(yk)[0]
 		for i in range(0, nSimulations):
 			xkp1 = mpf_matrix_fmul(self._A, xk)
 			xkp1 = mpf_matrix_fadd(xkp1, mpf_matrix_fmul(self._B, u[:, i]))
@@ -381,11 +380,13 @@ class dSSmp(object):
 			yk[:, i] = mpf_matrix_fmul(self._C, xk)
 			yk[:, i] = mpf_matrix_fadd(yk[:, i], mpf_matrix_fmul(self._D, u[:, i]))
 
+			# round the states and the outputs (to nearest)
+			xk = mpmath.matrix([mpmath.fadd(xkp1[j, 0], mpmath.mp.zero, prec=prec, rounding='n') for j in range(0, self._n)])
+			for j in range(0, self._p):
+				yk[j, i] = mpmath.fadd(yk[j, i], mpmath.mp.zero, prec=prec, rounding='n')
 
-			xk = mpmath.matrix([float(sollya.round(mpf_matrix_to_sollya(xkp1)[0][j], prec, sollya.RN)) for j in range(0, self._n)])
-			yk_sollya[i] = sollya.round(mpf_matrix_to_sollya(yk[:, i])[0][0], prec, sollya.RN)
-
-		return yk_sollya
+		# list of the p*T rounded outputs, row by row
+		return mpf_matrix_to_sollya(yk)[0]
 
 
 
-- 
2.43.0


From 4e88ad1f0a2438a30d146115add5f0b9a32738ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:53 +0000
Subject: [PATCH 56/58] fix: gabarit.sol is loaded from its directory, and
 without Sollya a ValueError is raised each time (NameError the second time)

---
 fixif/LTI/Gabarit.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fixif/LTI/Gabarit.py b/fixif/LTI/Gabarit.py
index 42708cc..bad244d 100644
--- a/fixif/LTI/Gabarit.py
+++ b/fixif/LTI/Gabarit.py
@@ -18,6 +18,7 @@ __status__ = "Beta"
 from fixif.LTI import dTF
 from fixif.func_aux import MatlabHelper, isMatlabInstalled
 
+from os.path import abspath, dirname, join
 from scipy.signal import iirdesign, freqz
 from numpy import array, pi, log10, infty
 from numpy.random import seed as set_seed, choice, randint, uniform
@@ -188,12 +189,12 @@ class Gabarit(object):
 		"""load gabarit.sol and check if ready/ok"""
 
 		if not Gabarit.isSollyaRunning:
-			Gabarit.isSollyaRunning = True
 			try:
 				sollya.suppressmessage(57, 174, 130, 457)
-				sollya.execute("fixif/LTI/gabarit.sol")
+				sollya.execute(join(dirname(abspath(__file__)), "gabarit.sol"))
 			except NameError:
 				raise ValueError("Sollya and SollyaPython are not installed !")
+			Gabarit.isSollyaRunning = True
 
 
 
-- 
2.43.0


From e8e08c07da516516cce1cbe6e9281b4becadc9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:53 +0000
Subject: [PATCH 57/58] fix: findMinimumMargin measures how much the amplitude
 is below betaInf from betaInf (betaSup was used, and the margin was too
 large)

---
 fixif/LTI/Gabarit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fixif/LTI/Gabarit.py b/fixif/LTI/Gabarit.py
index bad244d..8ff3e7d 100644
--- a/fixif/LTI/Gabarit.py
+++ b/fixif/LTI/Gabarit.py
@@ -508,9 +508,9 @@ def findMaxIssue(res):
 				H = dict(i)["H"]
 				betaInf = dict(dict(i)["specification"])["betaInf"]
 				betaSup = dict(dict(i)["specification"])["betaSup"]
-				if sollya.inf(H) > betaSup:
+				if sollya.sup(H) > betaSup:
 					maxError = sollya.max(maxError, sollya.sup(H) - betaSup)
 				else:
-					maxError = sollya.max(maxError, betaSup - sollya.inf(H))
+					maxError = sollya.max(maxError, betaInf - sollya.inf(H))
 
 	return maxError
-- 
2.43.0


From e9c875672da110f3845dc47926884c2477deda6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:30 +0000
Subject: [PATCH 58/58] fix: Simulink blocks identified by a SID with ':' were
 refused

---
 fixif/Structures/Simulink/blocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fixif/Structures/Simulink/blocks.py b/fixif/Structures/Simulink/blocks.py
index 38290bd..237f465 100644
--- a/fixif/Structures/Simulink/blocks.py
+++ b/fixif/Structures/Simulink/blocks.py
@@ -218,7 +218,7 @@ class Line(object):
 		return b[0]		
 
 	def getportnum(self, str):
-		port = str.partition(':')
+		port = str.rpartition(':')		# (a SID can contain ':')
 		return port[2]
 	
 	def __str__(self):
-- 
2.43.0

