"""Equality, inequality and hashing."""
from starks.modp import IntegersModP
from starks.rationals_modp import RationalsModP
from starks.finitefield import FiniteField
from starks.polynomial import polynomials_over
from starks.floatingpoint import FloatingPoint
from starks.poly_utils import multivariates_over


def yes(*args):
  return True


def poly_ring(ring):
  return polys()


def prime_field(p):
  return field()


def law_modp_eq(p: Modulus, a: Int, b: Int):
  """residues are equal exactly when congruent"""
  K = IntegersModP(p)
  x, y = K(a), K(b)
  same(x == y, (a - b) % p == 0)
  same(x != y, (a - b) % p != 0)
  check(x == x)
  check(not x != x)
  same(y == x, x == y)
  same(y != x, x != y)


def law_modp_int(p: Modulus, a: Int, b: Int):
  """comparison with an integer, on either side, is congruence"""
  K = IntegersModP(p)
  same(K(a) == b, (a - b) % p == 0)
  same(K(a) != b, (a - b) % p != 0)
  same(b == K(a), (a - b) % p == 0)
  same(b != K(a), (a - b) % p != 0)


def law_modp_hash(p: Modulus, a: Int, k: Int):
  """equal residues have equal hashes"""
  K = IntegersModP(p)
  same(hash(K(a)), hash(K(a + k * p)))


def law_rational_eq(p: Prime, a: Int, b: Int, c: Int, d: Int):
  """fractions are equal exactly when their cross products are congruent"""
  contract('starks.euclidean.gcd', gcd)
  assume(b % p != 0)
  assume(d % p != 0)
  K = RationalsModP(p)
  x, y = K(a, b), K(c, d)
  same(x == y, (x.m * y.n - y.m * x.n) % p == 0)
  same(x != y, (x.m * y.n - y.m * x.n) % p != 0)
  check(x == x)
  check(not x != x)
  same(y == x, x == y)


def law_rational_same(p: Prime, a: Int, b: Int):
  """unreduced forms of the same fraction are equal"""
  contract('starks.euclidean.gcd', gcd)
  assume(b % p != 0)
  K = RationalsModP(p)
  check(K(a, b) == K(a + p, b))
  check(K(a, b) == K(a, b + p))
  check(not K(a, b) != K(a + p, b))
  check(K(2 * a, 2 * b) == K(a, b) or (2 * b) % p == 0)


def law_rational_hash(p: Prime, a: Int, b: Int, k: Int):
  """fractions either have no hash or equal ones have the same"""
  contract('starks.euclidean.gcd', gcd)
  assume(b % p != 0)
  assume(k % p != 0)
  K = RationalsModP(p)
  for m, n in [(a + p, b), (a, b + p), (a - p, b - p), (a * k, b * k)]:
    try:
      i, j = hash(K(a, b)), hash(K(m, n))
    except TypeError:
      i = j = 0
    same(i, j)


@config(field='prime')
def law_extension_eq(g: PolyGe(2), f: Poly, h: Poly):
  """extension-field elements are equal exactly when congruent modulo the field polynomial"""
  contract('starks.poly_utils.is_irreducible', yes)
  contract('starks.modp.IntegersModP', prime_field)
  contract('starks.polynomial.polynomials_over', poly_ring)
  F = FiniteField(field().p, g.degree(), g)
  x, y = F(f), F(h)
  same(x == y, (f % g) == (h % g))
  same(x != y, (f % g) != (h % g))
  check(x == x)
  check(not x != x)
  same(y == x, x == y)
  same(x == F(f + g * h), True)


@config(field='prime')
def law_extension_scalar(g: PolyGe(2), f: Poly, k: Int):
  """comparison with integers"""
  contract('starks.poly_utils.is_irreducible', yes)
  contract('starks.modp.IntegersModP', prime_field)
  contract('starks.polynomial.polynomials_over', poly_ring)
  F = FiniteField(field().p, g.degree(), g)
  same(F(f) == k, (f % g) == k)
  same(F(f) != k, (f % g) != k)
  same(k == F(f), (f % g) == k)


@config(field='prime')
def law_poly_eq(xs: Seq(Elt), ys: Seq(Elt)):
  """polynomials are equal exactly when their stored coefficient lists are"""
  P = polynomials_over(field())
  f, g = P(xs), P(ys)
  same(f == g, f.coefficients == g.coefficients)
  same(f != g, f.coefficients != g.coefficients)
  same(g == f, f == g)
  check(f == f)
  check(not f != f)


@config(field='prime')
def law_poly_eq_shapes(a: Elt, b: Elt, c: Elt, d: NonzeroElt, e: NonzeroElt):
  """polynomials of small degrees"""
  P = polynomials_over(field())
  check(P([a, b, d]) == P([a, b, d, 0]))
  check(P([a, b]) != P([a, b, d]))
  check(P([a, d]) != P([b, c, d]))
  same(P([a, b, d]) == P([c, b, d]), a == c)
  same(P([a, b, d]) != P([c, b, d]), a != c)
  same(P([a, b, d]) == P([a, c, d]), b == c)
  same(P([a, b, d]) != P([a, c, d]), b != c)
  same(P([a, b, d]) == P([a, b, e]), d == e)
  check(P([]) != P([d]))
  check(P([]) == P([0]))
  check(not P([]) != P([0, 0]))


@config(field='prime')
def law_poly_scalar(xs: Seq(Elt), c: Elt):
  """comparison with a scalar compares with the constant polynomial"""
  P = polynomials_over(field())
  f = P(xs)
  same(f == c, f == P([c]))
  same(f != c, f != P([c]))
  same(f == 0, len(f.coefficients) == 0)
  same(f != 0, len(f.coefficients) != 0)


@config(field='prime')
def law_poly_hash(xs: Seq(Elt)):
  """equal polynomials have equal hashes"""
  P = polynomials_over(field())
  same(hash(P(xs)), hash(P(xs + [field()(0)])))
  same(hash(P(P(xs))), hash(P(xs)))


@config(field='prime')
def law_multivariate_eq(a: Elt, b: Elt, c: Elt, d: Elt):
  """multivariate polynomials are equal exactly when all coefficients are"""
  M = multivariates_over(field(), 2)
  x, y = M({(0, 1): a, (2, 0): b}), M({(2, 0): d, (0, 1): c})
  same(x == y, a == c and b == d)
  same(x != y, not (a == c and b == d))
  check(x == x)
  check(not x != x)
  same(M({(0, 1): a, (1, 1): b}) == M({(0, 1): a}), b == 0)
  same(M({(0, 1): a}) == M({(0, 1): a, (1, 1): b}), b == 0)
  same(M({(1, 0): a}) == M({(0, 1): b}), a == 0 and b == 0)


@config(field='prime')
def law_multivariate_int(a: NonzeroElt, k: Int):
  """comparison with integers compares with the constant polynomial"""
  M = multivariates_over(field(), 2)
  same(M({(0, 0): a}) == k, a == field()(k))
  check(M({(0, 1): a}) != k)


@config(field='prime')
def law_floating_eq(v: Elt, p: Elt, s: Bit, w: Elt, q: Elt, t: Bit):
  """nonzero floating point numbers are equal only when significand, exponent and sign are"""
  K = FloatingPoint(field())
  same(K(v, p, 0, s) == K(w, q, 0, t), v == w and p == q and s == t)


@config(field='prime')
def law_floating_zero(v: Elt, p: Elt, s: Bit, w: Elt, q: Elt, t: Bit):
  """zero equals zero and nothing else; != is the negation"""
  K = FloatingPoint(field())
  z = K(field()(0), field()(0), 1, s)
  x = K(v, p, 0, t)
  check(x == x)
  check(not x != x)
  check(z == z)
  check(z == K(field()(0), field()(0), 1, t))
  check(x != z)
  check(not x == z)
  check(not z == x)
  y = K(w, q, 0, s)
  same(x != y, not x == y)
  same(x == y, y == x)


@config(field='prime')
def law_extension_differ(g: PolyGe(5), f: Poly, c: NonzeroElt):
  """representatives that differ in one coefficient are different elements"""
  contract('starks.poly_utils.is_irreducible', yes)
  contract('starks.modp.IntegersModP', prime_field)
  contract('starks.polynomial.polynomials_over', poly_ring)
  F = FiniteField(field().p, g.degree(), g)
  for k in range(5):
    d = polys()([0] * k + [c])
    same(F(f) == F(f + d), False)
    same(F(f) != F(f + d), True)


def law_extension_concrete():
  """elements of a small field are equal exactly when their coefficients are"""
  R = IntegersModP(2)
  P = polynomials_over(R)
  K = FiniteField(2, 3, P([1, 1, 0, 1]))
  for a in range(8):
    x = K([a & 1, a >> 1 & 1, a >> 2])
    for b in range(8):
      y = K([b & 1, b >> 1 & 1, b >> 2])
      same(x == y, a == b)
      same(x != y, a != b)


@config(field='prime')
def law_poly_differ(a: Elt, b: Elt, c: Elt, d: Elt, e: NonzeroElt, u: NonzeroElt):
  """polynomials that differ in one coefficient are different"""
  P = polynomials_over(field())
  f = P([a, b, c, d, e])
  for g in (P([a + u, b, c, d, e]), P([a, b + u, c, d, e]), P([a, b, c + u, d, e]), P([a, b, c, d + u, e]), P([a, b, c, d, e, u])):
    same(f == g, False)
    same(g == f, False)
    same(f != g, True)
    same(g != f, True)


@config(field='prime')
def law_multivariate_differ(a: Elt, b: Elt, c: NonzeroElt, u: NonzeroElt):
  """multivariate polynomials that differ in one coefficient or one exponent are different"""
  M = multivariates_over(field(), 2)
  f = M({(0, 0): a, (1, 2): b, (3, 0): c})
  for g in (M({(0, 0): a + u, (1, 2): b, (3, 0): c}), M({(0, 0): a, (1, 2): b + u, (3, 0): c}), M({(0, 0): a, (1, 2): b, (0, 3): c}),
            M({(0, 0): a, (1, 2): b, (3, 0): c, (2, 1): u})):
    same(f == g, False)
    same(g == f, False)
    same(f != g, True)
    same(g != f, True)


@config(field='prime', unroll=200)
def law_multivariate_many(c: NonzeroElt, u: NonzeroElt):
  """multivariate polynomials with many monomials that differ in a single one of them are different"""
  M = multivariates_over(field(), 2)
  f = M({(i, 3): c for i in range(40)})
  same(f == M({(39 - i, 3): c for i in range(40)}), True)
  same(f != M({(39 - i, 3): c for i in range(40)}), False)
  for k in (0, 1, 7, 8, 9, 10, 20, 38, 39):
    g = M({(i, 3): c + u if i == k else c for i in range(40)})
    same(f == g, False)
    same(g == f, False)
    same(f != g, True)
    g = M({(i, 4 if i == k else 3): c for i in range(40)})
    same(f == g, False)
    same(g == f, False)
  g = M({(i, 3): c for i in range(39)})
  same(f == g, False)
  same(g == f, False)
