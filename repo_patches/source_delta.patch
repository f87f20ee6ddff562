From 20c902366937fc316d4ad2eb245a2f919adb6498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:38 +0000
Subject: [PATCH 01/37] fix: reduce byte-constructed prime-field elements
 modulo p

---
 starks/modp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starks/modp.py b/starks/modp.py
index 17babff..437594f 100644
--- a/starks/modp.py
+++ b/starks/modp.py
@@ -31,7 +31,7 @@ def IntegersModP(p):
     def __init__(self, n):
       try:
         if isinstance(n, bytes):
-          self.n = int.from_bytes(n, 'big')
+          self.n = int.from_bytes(n, 'big') % IntegerModP.p
         else:
           self.n = int(n) % IntegerModP.p
       except:
-- 
2.43.0


From 16198c6887b8e2a15f052fa29874dd1956a229ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:38 +0000
Subject: [PATCH 02/37] fix: inverting a non-invertible residue raises
 ZeroDivisionError

---
 starks/modp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starks/modp.py b/starks/modp.py
index 437594f..9c2b6dc 100644
--- a/starks/modp.py
+++ b/starks/modp.py
@@ -74,7 +74,7 @@ def IntegersModP(p):
       x, y, d = extended_euclidean_algorithm(self.n, self.p)
 
       if d != 1:
-        raise Exception("Error: p is not prime in %s!" % (self.__name__))
+        raise ZeroDivisionError("%r has no inverse" % (self,))
 
       return IntegerModP(x)
 
-- 
2.43.0


From 0ceb6eb3dce140c484179aecedec05c9d3084cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:38 +0000
Subject: [PATCH 03/37] fix: RationalModP.__ne__ referred to an unbound class

---
 starks/rationals_modp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starks/rationals_modp.py b/starks/rationals_modp.py
index 6e547a1..269196d 100644
--- a/starks/rationals_modp.py
+++ b/starks/rationals_modp.py
@@ -78,7 +78,7 @@ def RationalsModP(p):
 
     @typecheck
     def __ne__(self, other):
-      return isinstance(other, IntegerModP) is False or (
+      return isinstance(other, RationalModP) is False or (
           (self.m * other.n) % RationalModP.p != (other.m * self.n) % RationalModP.p)
 
     # TODO(rbharath): This should be possible to implement. Think more about it.
-- 
2.43.0


From efa7e7cf67084d8be2640b5415d02e7678e53e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:38 +0000
Subject: [PATCH 04/37] fix: reduce byte-constructed extension-field elements

---
 starks/finitefield.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starks/finitefield.py b/starks/finitefield.py
index 9e8e609..aa96d2d 100644
--- a/starks/finitefield.py
+++ b/starks/finitefield.py
@@ -77,7 +77,7 @@ def FiniteField(p, m, polynomialModulus=None):
 
     def __init__(self, poly):
       if isinstance(poly, bytes):
-        self.poly = Polynomial(poly)
+        self.poly = Polynomial(poly) % polynomialModulus
       elif type(poly) is Fq:
         self.poly = poly.poly
       elif type(poly) is int or type(poly) is Zp:
-- 
2.43.0


From c3d1d7f83cb515b61cd98e492398dd0b0d1271bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:38 +0000
Subject: [PATCH 05/37] fix: Polynomial.to_bytes returns the encoding of its
 coefficients

---
 starks/polynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starks/polynomial.py b/starks/polynomial.py
index 4f224eb..18bfde2 100644
--- a/starks/polynomial.py
+++ b/starks/polynomial.py
@@ -164,7 +164,7 @@ def polynomials_over(ring=fractions.Fraction):
       return y
 
     def to_bytes(self):
-      coeff_bytes = [coeff.to_bytes(32, 'big') for coeff in self.coefficients]
+      return b''.join([coeff.to_bytes() for coeff in self.coefficients])
 
 
   def Zero():
-- 
2.43.0


From c5cfb9b1e5b1d9d9bf6287f880d8ad02de9661a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:38 +0000
Subject: [PATCH 06/37] fix: memoize keyed keyword arguments by name only,
 ignoring their values

---
 starks/modp.py       | 3 +++
 starks/numbertype.py | 2 +-
 starks/polynomial.py | 3 +++
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/starks/modp.py b/starks/modp.py
index 9c2b6dc..71f0fba 100644
--- a/starks/modp.py
+++ b/starks/modp.py
@@ -63,6 +63,9 @@ def IntegersModP(p):
     def __ne__(self, other):
       return isinstance(other, IntegerModP) is False or self.n != other.n
 
+    def __hash__(self):
+      return hash(self.n)
+
     @typecheck
     def __divmod__(self, divisor):
       q, r = divmod(self.n, divisor.n)
diff --git a/starks/numbertype.py b/starks/numbertype.py
index dac40bf..fcbb783 100644
--- a/starks/numbertype.py
+++ b/starks/numbertype.py
@@ -13,7 +13,7 @@ def memoize(f):
   cache = {}
 
   def memoizedFunction(*args, **kwargs):
-    argTuple = args + tuple(kwargs)
+    argTuple = (args, tuple(sorted(kwargs.items())))
     if argTuple not in cache:
       cache[argTuple] = f(*args, **kwargs)
     return cache[argTuple]
diff --git a/starks/polynomial.py b/starks/polynomial.py
index 18bfde2..2b1ce4a 100644
--- a/starks/polynomial.py
+++ b/starks/polynomial.py
@@ -105,6 +105,9 @@ def polynomials_over(ring=fractions.Fraction):
       return self.degree() != other.degree() or any(
           [x != y for (x, y) in zip(self, other)])
 
+    def __hash__(self):
+      return hash(tuple(self.coefficients))
+
     @typecheck
     def __add__(self, other):
       new_coefficients = [
-- 
2.43.0


From 02c0ebae56a0791ceb0bd9582fcf273374f5e847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:38 +0000
Subject: [PATCH 07/37] fix: negative exponents and unreduced powmod results

---
 starks/finitefield.py | 1 +
 starks/numbertype.py  | 6 +++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/starks/finitefield.py b/starks/finitefield.py
index aa96d2d..d7bd0a2 100644
--- a/starks/finitefield.py
+++ b/starks/finitefield.py
@@ -110,6 +110,7 @@ def FiniteField(p, m, polynomialModulus=None):
       return not self == other
 
     def __pow__(self, n):
+      if n < 0: return self.inverse()**(-n)
       if n == 0: return Fq([1])
       if n == 1: return self
       if n % 2 == 0:
diff --git a/starks/numbertype.py b/starks/numbertype.py
index fcbb783..9d18dba 100644
--- a/starks/numbertype.py
+++ b/starks/numbertype.py
@@ -68,6 +68,8 @@ class DomainElement(object):
   def __pow__(self, n):
     if type(n) is not int:
       raise TypeError
+    if n < 0:
+      return self.inverse()**(-n)
 
     Q = self
     R = self if n & 1 else self.__class__(1)
@@ -87,9 +89,11 @@ class DomainElement(object):
     """requires the additional % operator (i.e. a Euclidean Domain)"""
     if type(n) is not int:
       raise TypeError
+    if n < 0:
+      raise ValueError("powmod requires a nonnegative exponent")
 
     Q = self
-    R = self if n & 1 else self.__class__(1)
+    R = (self if n & 1 else self.__class__(1)) % modulus
 
     i = 2
     while i <= n:
-- 
2.43.0


From 596f7bc98d17ace5636cb3c4b22d10188754c6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:38 +0000
Subject: [PATCH 08/37] fix: multi_inv maps zero field elements to zero

---
 starks/poly_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starks/poly_utils.py b/starks/poly_utils.py
index 99694ac..4c3eae3 100644
--- a/starks/poly_utils.py
+++ b/starks/poly_utils.py
@@ -314,7 +314,7 @@ def multi_inv(field, values):
   inv = 1 / partials[-1]
   outputs = [0] * len(values)
   for i in range(len(values), 0, -1):
-    outputs[i - 1] = partials[i - 1] * inv if values[i - 1] else 0
+    outputs[i - 1] = partials[i - 1] * inv if values[i - 1] != 0 else 0
     if values[i-1] != 0:
       inv = inv * values[i - 1]
   return outputs
-- 
2.43.0


From 145a3ec92692c0ddd4663b9fb8099003f9e0e6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:28 +0000
Subject: [PATCH 09/37] fix: mul_polys omitted the 1/n scaling of the inverse
 transform

---
 starks/fft.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/starks/fft.py b/starks/fft.py
index 11a19d9..e4a4dd5 100644
--- a/starks/fft.py
+++ b/starks/fft.py
@@ -342,4 +342,5 @@ def mul_polys(a: List[FieldElement], b: List[FieldElement], root_of_unity: Field
     b = b + [0] * (len(rootz) - len(b) - 1)
   x1 = _fft(a, rootz[:-1])
   x2 = _fft(b, rootz[:-1])
-  return _fft([(v1 * v2) for v1, v2 in zip(x1, x2)], rootz[:0:-1])
+  n = root_of_unity**0 * len(x1)
+  return [x / n for x in _fft([(v1 * v2) for v1, v2 in zip(x1, x2)], rootz[:0:-1])]
-- 
2.43.0


From af0a730170077d1f96e644320238677c206f5550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:28 +0000
Subject: [PATCH 10/37] fix: Taylor_Expansion recursed on a float length

---
 starks/fft.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starks/fft.py b/starks/fft.py
index e4a4dd5..2ffcaca 100644
--- a/starks/fft.py
+++ b/starks/fft.py
@@ -89,8 +89,8 @@ class Additive_FFT(FFT):
     g1 = h+f_twoK*f2
 
     # recursive part
-    V1 = self.Taylor_Expansion(g0, n/2)
-    V2 = self.Taylor_Expansion(g1, n/2)
+    V1 = self.Taylor_Expansion(g0, n//2)
+    V2 = self.Taylor_Expansion(g1, n//2)
 
     return V1, V2
 
-- 
2.43.0


From 1c9be9451afac01ba2a074c07a34f5c241d934ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:28 +0000
Subject: [PATCH 11/37] fix: adfft_inverse used polysOver before binding it

---
 starks/fft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starks/fft.py b/starks/fft.py
index 2ffcaca..c5ed10b 100644
--- a/starks/fft.py
+++ b/starks/fft.py
@@ -169,6 +169,7 @@ class Additive_FFT(FFT):
   # this is the inverse of additive FFt which actually is interpolation
   def adfft_inverse(self, x, y, m): 
     # this is th exit condition where the size of x and y is 2 and we need to interpolate a finction that has these two points on it
+    polysOver = polynomials_over(IntegersModP(2))
     if m == 1:
       if x[0] == x[1]:
         return x[0]
@@ -176,7 +177,6 @@ class Additive_FFT(FFT):
         return ((y[1]-y[0])/(x[1]-x[0]))*(self.field(polysOver([0, 1]))-x[0])+y[0]
 
     # based on the value of x we can build all beta where beta_i = x_{2^i}
-    polysOver = polynomials_over(IntegersModP(2))
     beta = []
     for i in range(m):
       beta.append(x[2**i])
-- 
2.43.0


From 0dd2e834ad4e4682fcb189918a5f3e8bd70f3a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:28 +0000
Subject: [PATCH 12/37] fix: floating point subtraction mutated its right
 operand

---
 starks/floatingpoint.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/starks/floatingpoint.py b/starks/floatingpoint.py
index ef137f0..a95b72f 100644
--- a/starks/floatingpoint.py
+++ b/starks/floatingpoint.py
@@ -127,8 +127,7 @@ def FloatingPoint(field):
     @typecheck
     def __sub__(self, other):
       # subtraction is implemented based on addition
-      other.s = other.s ^ 1
-      output = self + other
+      output = self + Fp(other.v, other.p, other.z, other.s ^ 1)
       return output
 
     #this is division operation of two floating point numbers in binary finite field representation
-- 
2.43.0


From 03a280cac8b0b4d3074b43ee0a76d85c4fb510f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:28 +0000
Subject: [PATCH 13/37] fix: floating point product exponent used one operand's
 degree twice

---
 starks/floatingpoint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starks/floatingpoint.py b/starks/floatingpoint.py
index a95b72f..c21964a 100644
--- a/starks/floatingpoint.py
+++ b/starks/floatingpoint.py
@@ -190,7 +190,7 @@ def FloatingPoint(field):
         p_c = field(polysOver([0]))
       else:
         p_c = self.p + other.p
-        p_c = p_c + num_to_binary_list(self.v.poly.degree() + self.v.poly.degree() - (self.v.m - 1))
+        p_c = p_c + num_to_binary_list(self.v.poly.degree() + other.v.poly.degree() - (self.v.m - 1))
  
       output = Fp(v_c, p_c, z_c, s_c)
       return output
-- 
2.43.0


From 4ba661de420a36b2254e6d739e8cefdd414ba7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:28 +0000
Subject: [PATCH 14/37] fix: reduce byte-constructed rationals modulo p

---
 starks/rationals_modp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starks/rationals_modp.py b/starks/rationals_modp.py
index 269196d..a6c7a72 100644
--- a/starks/rationals_modp.py
+++ b/starks/rationals_modp.py
@@ -30,8 +30,8 @@ def RationalsModP(p):
       try:
         # This is awkward constructor overloading
         if isinstance(m, bytes):
-          num = int.from_bytes(m[:32], 'big')
-          den = int.from_bytes(m[32:], 'big')
+          num = int.from_bytes(m[:32], 'big') % RationalModP.p
+          den = int.from_bytes(m[32:], 'big') % RationalModP.p
         else:
           num = int(m) % RationalModP.p
           den = int(n) % RationalModP.p
-- 
2.43.0


From c0dce34933eb9ffc45d5b17517d15c9cd2d76f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:48 +0000
Subject: [PATCH 15/37] fix: FRI query reseeded the global generator and could
 sample no element

---
 starks/fri.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/starks/fri.py b/starks/fri.py
index 339ddc1..48a7214 100644
--- a/starks/fri.py
+++ b/starks/fri.py
@@ -1,7 +1,6 @@
 import math
 import hashlib
-from random import seed
-from random import randint
+from random import Random
 from typing import List
 from starks.merkle_tree import merkelize
 from starks.merkle_tree import mk_branch
@@ -101,7 +100,7 @@ class AffineSubspaceFRI(object):
         return interp.coefficients[:d+1]
 
   def query(self, f, coeff):
-    seed(1)
+    rng = Random(1)
     # rate parameter
     R = -math.log(self.rho, 2)
     # localization parameter
@@ -139,7 +138,7 @@ class AffineSubspaceFRI(object):
 
     for j in range(l):
       # randomly select a ellement of L[0]
-      random_n = randint(0, len(L[0]))
+      random_n = rng.randint(1, len(L[0]))
       #constructing s
       s_i = []
       count = 1
-- 
2.43.0


From 1d0d8af2042e00c228d6f09a86f9202d3f94f656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:48 +0000
Subject: [PATCH 16/37] fix: FRI query appended to the caller's oracle list

---
 starks/fri.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starks/fri.py b/starks/fri.py
index 48a7214..04508a1 100644
--- a/starks/fri.py
+++ b/starks/fri.py
@@ -125,7 +125,7 @@ class AffineSubspaceFRI(object):
     L_r = eval_on_subspace(q[-1], L[-1])
     x_ply = [val for val in L_r]
     y_ply = [P_prime(val) for val in x_ply]
-    f.append(lagrange_interp(self.field, x_ply, y_ply))
+    f = f + [lagrange_interp(self.field, x_ply, y_ply)]
 
     # a sequence of x can be computed as well
     x = []
-- 
2.43.0


From dcf7a8476e203d86f27977ed4aba3a8b104b69b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:48 +0000
Subject: [PATCH 17/37] fix: FRI query derived its challenges from object
 addresses

---
 starks/fri.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starks/fri.py b/starks/fri.py
index 04508a1..872941b 100644
--- a/starks/fri.py
+++ b/starks/fri.py
@@ -130,7 +130,7 @@ class AffineSubspaceFRI(object):
     # a sequence of x can be computed as well
     x = []
     for i in range(r):
-      x_str = str(R)+str(eta)+str(r)+str(k_0)+str(L[i])+str(L_0[i])
+      x_str = str(R + eta + r + k_0 + i)
       x.append(select_random(self.field, x_str))
 
     # we need to assign l, it can be a function of the security parameter
-- 
2.43.0


From adbdd761e4e069b95549e1dd3b07530abf15e1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:23 +0000
Subject: [PATCH 18/37] fix: is_irreducible accepted constant polynomials

---
 starks/poly_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/starks/poly_utils.py b/starks/poly_utils.py
index 4c3eae3..060c632 100644
--- a/starks/poly_utils.py
+++ b/starks/poly_utils.py
@@ -165,6 +165,10 @@ def is_irreducible(polynomial: Poly, p: int) -> bool:
     raise TypeError("Given a polynomial that's not over %s, but instead %r" %
                     (ZmodP.__name__, polynomial.ring.__name__))
 
+  # Constants (units and zero) are not irreducible
+  if polynomial.degree() < 1:
+    return False
+
   poly = polynomials_over(ZmodP).factory
   x = poly([0, 1])
   power_term = x
-- 
2.43.0


From 3fc6420e323f38b5d56e3aa4b24a449ac4a36eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:23 +0000
Subject: [PATCH 19/37] fix: FiniteField accepted a modulus whose degree is not
 m

---
 starks/finitefield.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/starks/finitefield.py b/starks/finitefield.py
index d7bd0a2..b3eccca 100644
--- a/starks/finitefield.py
+++ b/starks/finitefield.py
@@ -60,6 +60,8 @@ def FiniteField(p, m, polynomialModulus=None):
   if polynomialModulus is not None:
     if not is_irreducible(polynomialModulus, p):
       raise ValueError("Must provide an irreducible polynomial as modulus.")
+    if polynomialModulus.degree() != m:
+      raise ValueError("Modulus must have degree %d." % m)
   Zp = IntegersModP(p)
   if m == 1:
     return Zp
-- 
2.43.0


From ebb0bfb4d7339879097a1049bf0f47469c705520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:23 +0000
Subject: [PATCH 20/37] fix: gauss overwrote the caller's matrix

---
 starks/poly_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/starks/poly_utils.py b/starks/poly_utils.py
index 060c632..85ac293 100644
--- a/starks/poly_utils.py
+++ b/starks/poly_utils.py
@@ -97,6 +97,7 @@ def construct_affine_vanishing_polynomial_Moore(field: Field, aff: AffineSpace)
   return polysOver(kernel)
 
 def gauss(M, row, field):
+  M = [list(M_row) for M_row in M]
   for i in range(row):
     # Search for maximum in this column
     maxEl = M[i][i]
-- 
2.43.0


From 7c03fa6c48702e0e4747faf5a7318b9b5397a342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:23 +0000
Subject: [PATCH 21/37] fix: generate_random_constraint used an unbound name

---
 starks/ali.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starks/ali.py b/starks/ali.py
index cbcdcb4..91e1a19 100644
--- a/starks/ali.py
+++ b/starks/ali.py
@@ -33,7 +33,7 @@ class ALIProver(object):
     Phi = self.apr.Phi
     phi_R = 0
     for i, phi in enumerate(Phi):
-      phi_R += r[i] * phi
+      phi_R += rphi[i] * phi
     return phi_R
 
 
-- 
2.43.0


From d298762d13fd1b4392bdd30128730e819088ea55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:23 +0000
Subject: [PATCH 22/37] fix: stark used BinaryFFT without importing it

---
 starks/stark.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/starks/stark.py b/starks/stark.py
index 9b54365..7277d80 100644
--- a/starks/stark.py
+++ b/starks/stark.py
@@ -9,6 +9,7 @@ from starks.merkle_tree import merkelize_polynomial_evaluations
 from starks.merkle_tree import unpack_merkle_leaf
 from starks.polynomial import polynomials_over
 from starks.poly_utils import lagrange_interp_2
+from starks.fft import BinaryFFT
 from starks.fft import NonBinaryFFT
 from starks.fri import FRI
 from starks.utils import generate_Xi_s
-- 
2.43.0


From dd021b687a674b70e2f5fc31e1ff3855f2f4ea4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:23 +0000
Subject: [PATCH 23/37] fix: prover ignored the configured number of spot
 checks

---
 starks/stark.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/starks/stark.py b/starks/stark.py
index 7277d80..e8e117b 100644
--- a/starks/stark.py
+++ b/starks/stark.py
@@ -263,7 +263,8 @@ class STARK(object):
     l_evaluations = self.fft_solver.fft(l_poly)
     l_mtree = merkelize(l_evaluations)
 
-    branches = self.compute_merkle_spot_checks(mtree, l_mtree)
+    branches = self.compute_merkle_spot_checks(mtree, l_mtree,
+        self.spot_check_security_factor)
 
     fri = FRI(self.field)
     # Return the Merkle roots of P and D, the spot check Merkle
-- 
2.43.0


From 15c0270f2847d132847b9ae9031fd98d70f1ddb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:23 +0000
Subject: [PATCH 24/37] fix: get_pseudorandom_ks returned None for ten or more
 values

---
 starks/stark.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/starks/stark.py b/starks/stark.py
index e8e117b..6497eba 100644
--- a/starks/stark.py
+++ b/starks/stark.py
@@ -120,8 +120,7 @@ def get_pseudorandom_ks(m_root: bytes, num: int) -> List[int]:
     byte_list = [b'0x01', b'0x02', b'0x03', b'0x04']
     ks = [int.from_bytes(blake(m_root + byte_list[ind]), 'big') for ind in range(num)]
     return ks
-  # Is the < 10 restriction needed
-  elif num < 10:
+  else:
     byte_list = [("0x0%s" % str(i)).encode("UTF-8") for i in range(num)]
     ks = [int.from_bytes(blake(m_root + byte_list[ind]), 'big') for ind in range(num)]
     return ks
-- 
2.43.0


From 578c1dfda1694cf5c7ee11febc4bea5d049925dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:23 +0000
Subject: [PATCH 25/37] fix: resolve_conflicts trusted the peer's claimed chain
 length

---
 misc/blockchain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misc/blockchain.py b/misc/blockchain.py
index a65ec7e..774f2e2 100644
--- a/misc/blockchain.py
+++ b/misc/blockchain.py
@@ -84,8 +84,8 @@ class Blockchain:
       response = requests.get(f'http://{node}/chain')
 
       if response.status_code == 200:
-        length = response.json()['length']
         chain = response.json()['chain']
+        length = len(chain)
 
         # Check if the length is longer and the chain is valid
         if length > max_length and self.valid_chain(chain):
-- 
2.43.0


From de6c55889962dd7464f0eadf31683a263b61aa07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:23 +0000
Subject: [PATCH 26/37] fix: integer commitments verified with missing openings

---
 misc/commitment.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/misc/commitment.py b/misc/commitment.py
index 9f39539..4871795 100644
--- a/misc/commitment.py
+++ b/misc/commitment.py
@@ -106,6 +106,8 @@ class BBSIntCommitmentVerifier(object):
     ]
 
   def verify(self, secrets, bitCommitments):
+    if not len(secrets) == len(bitCommitments) == len(self.verifiers):
+      return False
     return all(
         bitVerifier.verify(secret, commitment)
         for (bitVerifier, secret,
-- 
2.43.0


From faa26513a116753208afec3e07cf5420f699b076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:23 +0000
Subject: [PATCH 27/37] fix: commit silently dropped bits of integers that do
 not fit

---
 misc/commitment.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/misc/commitment.py b/misc/commitment.py
index 4871795..bde81f6 100644
--- a/misc/commitment.py
+++ b/misc/commitment.py
@@ -84,6 +84,8 @@ class BBSIntCommitmentScheme(CommitmentScheme):
     return self.secret
 
   def commit(self, integer):
+    if not 0 <= integer < 2**len(self.schemes):
+      raise ValueError('integer does not fit in %d bits' % len(self.schemes))
     # first pad bits to desired length
     integer = bin(integer)[2:].zfill(len(self.schemes))
     bits = [int(bit) for bit in integer]
-- 
2.43.0


From 790bf53c089746151dba4efc121ef7ffbe630995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:23 +0000
Subject: [PATCH 28/37] fix: simulate_protocol returned a witness the verifier
 rejects

---
 misc/zero_knowledge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misc/zero_knowledge.py b/misc/zero_knowledge.py
index 48143e1..ce1176d 100644
--- a/misc/zero_knowledge.py
+++ b/misc/zero_knowledge.py
@@ -182,7 +182,7 @@ def simulate_protocol(G1, G2):
   pi = make_permutation_function(isomorphism)
   H = apply_isomorphism(G, pi)
 
-  return H, choice, pi
+  return H, choice, make_inverse_permutation_function(isomorphism)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 7cf388343710d0fcd0524ff31ff152ec1070dcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:48 +0000
Subject: [PATCH 29/37] fix: misc modules imported their siblings from a
 package that lacks them

---
 misc/blum_blum_shub.py | 2 +-
 misc/zkp_3_coloring.py | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/misc/blum_blum_shub.py b/misc/blum_blum_shub.py
index 0410f6f..3d542af 100644
--- a/misc/blum_blum_shub.py
+++ b/misc/blum_blum_shub.py
@@ -8,7 +8,7 @@ Note that the security of this construction depends on the security of integer
 factoring. That means BBS is *not* quantum-secure.
 """
 
-from starks.primality import probablyPrime
+from primality import probablyPrime
 import random
 
 
diff --git a/misc/zkp_3_coloring.py b/misc/zkp_3_coloring.py
index 0fd2419..69024bc 100644
--- a/misc/zkp_3_coloring.py
+++ b/misc/zkp_3_coloring.py
@@ -1,9 +1,9 @@
 import random
 
-from starks.zero_knowledge import num_vertices
-from starks.zero_knowledge import random_permutation
-from starks import blum_blum_shub
-from starks import commitment
+from zero_knowledge import num_vertices
+from zero_knowledge import random_permutation
+import blum_blum_shub
+import commitment
 
 ONE_WAY_PERMUTATION = blum_blum_shub.blum_blum_shub(512)
 HARDCORE_PREDICATE = blum_blum_shub.parity
-- 
2.43.0


From ca1cb5bfde7616f8b644ce0d3cfe78a4f1e21e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:48 +0000
Subject: [PATCH 30/37] fix: run_blockchain imported none of the names it uses

---
 misc/run_blockchain.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/misc/run_blockchain.py b/misc/run_blockchain.py
index 6c2182b..e849506 100644
--- a/misc/run_blockchain.py
+++ b/misc/run_blockchain.py
@@ -1,3 +1,9 @@
+from uuid import uuid4
+
+from flask import Flask, jsonify, request
+
+from blockchain import Blockchain
+
 # Instantiate the Node
 app = Flask(__name__)
 
-- 
2.43.0


From 565bf990da9fb23a8c0e63a525b8071a0744b1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:48 +0000
Subject: [PATCH 31/37] fix: zero_knowledge demo used unbound names

---
 misc/zero_knowledge.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/misc/zero_knowledge.py b/misc/zero_knowledge.py
index ce1176d..e2dd214 100644
--- a/misc/zero_knowledge.py
+++ b/misc/zero_knowledge.py
@@ -186,7 +186,7 @@ def simulate_protocol(G1, G2):
 
 
 if __name__ == "__main__":
-  G1 = exampleGraph
+  G1 = [(1, 2), (1, 4), (1, 3), (2, 5), (2, 5), (3, 6), (5, 6)]
   n = num_vertices(G1)
   p = random_permutation(n)
 
@@ -197,4 +197,4 @@ if __name__ == "__main__":
   assert apply_isomorphism(G1, f) == G2
   assert apply_isomorphism(G2, finv) == G1
 
-  convinceBeyondDoubt(G1, G2, p)
+  convince_beyond_doubt(G1, G2, p)
-- 
2.43.0


From c88c3d0333913c09d1d2c64b47ea960a72a6746b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:48 +0000
Subject: [PATCH 32/37] fix: multivariate factory called an unbound constructor

---
 starks/multivariate_polynomial.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/starks/multivariate_polynomial.py b/starks/multivariate_polynomial.py
index 44096e1..32d0998 100644
--- a/starks/multivariate_polynomial.py
+++ b/starks/multivariate_polynomial.py
@@ -73,7 +73,9 @@ def multivariates_over(ring: Field, num_vars: int) -> MultiVarPoly:
       if coefficients is not None:
         return MultivariatePolynomial(coefficients) 
       elif step_fn is not None:
-        coefficients = construct_multivariate_coefficients(step_fn)
+        # Imported here since poly_utils imports this module
+        from starks.poly_utils import construct_multivariate_coefficients
+        coefficients = construct_multivariate_coefficients(ring, step_fn, num_vars)
         return MultivariatePolynomial(coefficients)
 
     def __init__(self, c):
-- 
2.43.0


From 65f165e75f4cc62d60f527d4e1f0a4c2539456d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:13 +0000
Subject: [PATCH 33/37] fix: the isomorphism verifier rejects maps that are not
 one-to-one

---
 misc/zero_knowledge.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/misc/zero_knowledge.py b/misc/zero_knowledge.py
index e2dd214..6350535 100644
--- a/misc/zero_knowledge.py
+++ b/misc/zero_knowledge.py
@@ -133,8 +133,11 @@ class ZKVerifier(object):
 
     # The correctness of this check depends on python list comparison being
     # done with == since each graph is a list of tuples.
-    is_valid_isomorphism = (graph_to_check == apply_isomorphism(H, f))
-    return is_valid_isomorphism
+    if graph_to_check != apply_isomorphism(H, f):
+      return False
+    # An isomorphism never sends two vertices of H to the same vertex.
+    vertices = set(v for e in H for v in e)
+    return len(set(f(v) for v in vertices)) == len(vertices)
 
 
 def run_protocol(G1, G2, isomorphism):
-- 
2.43.0


From 455657a6937720635e9350e94271588da6d14c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:13 +0000
Subject: [PATCH 34/37] fix: the 3-coloring verifier rejects a fourth color

---
 misc/zkp_3_coloring.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/misc/zkp_3_coloring.py b/misc/zkp_3_coloring.py
index 69024bc..1fb905c 100644
--- a/misc/zkp_3_coloring.py
+++ b/misc/zkp_3_coloring.py
@@ -83,6 +83,9 @@ class ZK3ColVerifier(object):
       revealed_colors.append(trueColor)
       if not self.verifier.verify(bitSecrets, self.committed_coloring[w]):
         return False
+      # two bits can also encode a fourth color
+      if trueColor not in range(3):
+        return False
 
     return revealed_colors[0] != revealed_colors[1]
 
-- 
2.43.0


From 9e38f8200f73d80808cfe3239bf15540fa2be686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:15 +0000
Subject: [PATCH 35/37] fix: interpolate boundary points when the output
 register is zero

---
 starks/stark.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starks/stark.py b/starks/stark.py
index 6497eba..9e39547 100644
--- a/starks/stark.py
+++ b/starks/stark.py
@@ -93,8 +93,8 @@ def construct_boundary_polynomials(trace_polys: List[Poly], witness: List[List],
     constraint = boundary[dim]
     (_, _, input_value) = constraint
     output_dim = witness[dim][-1]
-    interpolant = lagrange_interp_2(field, polysOver([1, last_step_position]),
-        polysOver([input_value, output_dim]))
+    interpolant = lagrange_interp_2(field, [1, last_step_position],
+        [input_value, output_dim])
     interpolants.append(interpolant)
   # B = (P - I) / Z2
   b_polys = []
-- 
2.43.0


From 38dc8db873358fbef66ed5be3f8ae3a3b34884b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:26 +0000
Subject: [PATCH 36/37] fix: project the zero multivariate polynomial to the
 zero polynomial

---
 starks/poly_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starks/poly_utils.py b/starks/poly_utils.py
index 85ac293..ef4fe22 100644
--- a/starks/poly_utils.py
+++ b/starks/poly_utils.py
@@ -46,7 +46,7 @@ def project_to_univariate(multivar_poly: MultiVarPoly, i: int, field: Field, wid
   multiVarsOver = multivars.factory
   polysOver = polynomials_over(multivars).factory
   X = polysOver([0, 1])
-  out = 0 
+  out = polysOver([])
   for (term, coeff) in multivar_poly:
     # Remove i-th variable 
     term_minus_i = term[:i] + term[i+1:]
-- 
2.43.0


From c19c9ca0adbd430621411c2f5aab7baeda4223af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:26 +0000
Subject: [PATCH 37/37] fix: compile step functions over every point of F_q^n

---
 starks/poly_utils.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/starks/poly_utils.py b/starks/poly_utils.py
index ef4fe22..8201ce8 100644
--- a/starks/poly_utils.py
+++ b/starks/poly_utils.py
@@ -286,19 +286,16 @@ def construct_multivariate_coefficients(field: Field, step_fn: Callable, n:int)
   multi = multivariates_over(field, n).factory
   poly = multi(0)
   field_size = field.field_size
-  # Finite field case
+  # Every element of the field
   if field.__name__[:2] == "F_":
-    p = field.p
-    m = field.m
+    elements = [field(list(coeffs)) for coeffs in itertools.product(range(field.p), repeat=field.m)]
   elif field.__name__[:2] == "Z/":
-    p = field.p
-    m = 1
+    elements = [field(k) for k in range(field.p)]
   else:
     raise ValueError
-  # Iterate over field indices
-  field_indices = itertools.product(*[range(p) for _ in range(m)])
-  for index in field_indices:
-    index = [field(ind) for ind in list(index)]
+  # Iterate over all of F_q^n
+  for index in itertools.product(elements, repeat=n):
+    index = list(index)
     term = construct_multivariate_dirac_delta(field, index, n)
     poly += step_fn(index) * term
   return poly
-- 
2.43.0

