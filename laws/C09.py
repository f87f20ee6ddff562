"""Division with remainder and the Euclidean algorithms."""
from starks.polynomial import polynomials_over
from starks.euclidean import gcd as euclid
from starks.euclidean import extended_euclidean_algorithm as eea


def make(x):
  return polys()(x)


@config(field='prime')
def law_divmod_identity(f: Poly, g: NonzeroPoly):
  """dividend = quotient * divisor + remainder, relative to the ring operations (C08)"""
  P = polynomials_over(field())
  contract('starks.polynomial.polynomials_over.Polynomial', make)
  q, r = P.__divmod__(f, g)
  same(q * g + r, f)
  check(r.degree() < g.degree())
  same(P.__truediv__(f, g), f / g)
  same(P.__mod__(f, g), f % g)


@config(field='prime')
def law_divmod_exact(f: Poly, g: NonzeroPoly):
  """dividing a product by a factor gives the other factor and no remainder"""
  P = polynomials_over(field())
  contract('starks.polynomial.polynomials_over.Polynomial', make)
  q, r = P.__divmod__(f * g, g)
  same(q, f)
  same(r, 0 * f)


@config(field='prime')
def law_mixed(f: Poly, c: NonzeroElt):
  """scalars divide as constant polynomials"""
  P = polynomials_over(field())
  contract('starks.polynomial.polynomials_over.Polynomial', make)
  g = make(c)
  same(P.__truediv__(f, c), f / g)
  same(P.__mod__(f, c), f % g)
  same(P.__divmod__(f, c)[0], f / g)


@config(field='prime')
def law_zero(xs: Seq(Elt)):
  """dividing by the zero polynomial raises"""
  P = polynomials_over(field())
  f = P(xs)
  check(raised(lambda: f / P([])))
  check(raised(lambda: f % P([])))
  check(raised(lambda: divmod(f, P([]))))
  check(raised(lambda: f / 0))
  check(raised(lambda: f / P([0, 0])))


def euclid_step(a, b):
  """the specification of one division step on integers"""
  return b, a % b


def law_gcd(a: Nat, b: Nat):
  """the algorithm returns the greatest common divisor"""
  same(euclid(a, b), gcd(a, b))
  same(euclid(b, a), euclid(a, b))


def law_gcd_divides(a: Nat, b: Nat):
  """the result divides both arguments"""
  d = euclid(a, b)
  assume(a > 0 or b > 0)
  check(d > 0)
  same(a % d, 0)
  same(b % d, 0)


def law_gcd_signed(a: Int, b: Int):
  """for integers of any sign the result is a greatest common divisor up to sign"""
  d = euclid(a, b)
  same(abs(d), gcd(abs(a), abs(b)))


def law_eea(a: Nat, b: Nat):
  """a*x + b*y = d, with the d of the plain algorithm"""
  x, y, d = eea(a, b)
  same(a * x + b * y, d)
  same(d, euclid(a, b))


def law_eea_gcd(a: Nat, b: Nat):
  """the third component is the greatest common divisor"""
  x, y, d = eea(a, b)
  same(d, gcd(a, b))


def law_eea_same(a: Int, b: Int):
  """both algorithms give the same divisor, whatever the signs"""
  same(euclid(a, b), eea(a, b)[2])


def law_eea_signed(a: Int, b: Int):
  """the identity also holds for negative integers"""
  x, y, d = eea(a, b)
  same(a * x + b * y, d)
  same(abs(d), gcd(abs(a), abs(b)))


def law_eea_zero(a: Nat):
  """a number and zero"""
  x, y, d = eea(a, 0)
  same(a * x, d)
  same(d, a)
  x, y, d = eea(0, a)
  same(a * y, d)
  same(d, a)


@config(field='prime')
def law_eea_poly(f: Poly, g: Poly):
  """for polynomials f*x + g*y = d and d divides both"""
  x, y, d = eea(f, g)
  same(f * x + g * y, d)
  same(d, euclid(f, g))
  assume(d != 0)
  same(f % d, 0 * f)
  same(g % d, 0 * f)


@config(field='prime')
def law_gcd_poly(f: Poly, g: Poly):
  """the polynomial result divides both arguments and is the same up to a unit in either order"""
  d = euclid(f, g)
  assume(f != 0 or g != 0)
  check(d != 0)
  same(f % d, 0 * f)
  same(g % d, 0 * f)
  e = euclid(g, f)
  same(e.degree(), d.degree())


@config(field='prime')
def law_gcd_poly_common(f: Poly, g: Poly, h: NonzeroPoly):
  """a common factor divides the result"""
  assume(f != 0 or g != 0)
  same(euclid(f * h, g * h) % h, 0 * f)


@config(field='prime')
def law_divmod_constants(a: NonzeroElt, b: NonzeroElt):
  """constants divide without remainder"""
  P = polynomials_over(field())
  q, r = divmod(P([a]), P([b]))
  same(q.coefficients, [a / b])
  same(r.coefficients, [])
  same((P([a]) % P([b])).coefficients, [])
  same((P([a]) / P([b])).coefficients, [a / b])


@config(field='prime')
def law_divmod_by_larger(a: NonzeroElt, b: Elt, c: NonzeroElt):
  """a constant by a linear polynomial"""
  P = polynomials_over(field())
  q, r = divmod(P([a]), P([b, c]))
  same(q.coefficients, [])
  same(r.coefficients, [a])


def law_divmod_table():
  """polynomials over a small field: the identity, and a remainder of smaller degree"""
  from starks.modp import IntegersModP
  F = IntegersModP(7)
  P = polynomials_over(F)
  gs = [P([4]), P([1, 3]), P([0, 1]), P([2, 0, 5]), P([0, 0, 0, 1])]
  fs = [P([]), P([6]), P([1, 1]), P([2, 5, 1]), P([3, 0, 0, 4]), P([1, 0, 2, 0, 0, 3])]
  for f in fs:
    for g in gs:
      q, r = divmod(f, g)
      same((q * g + r).coefficients, f.coefficients)
      check(r.degree() < g.degree())
      same((f / g).coefficients, q.coefficients)
      same((f % g).coefficients, r.coefficients)


@config(field='prime')
def law_divmod_same_degree(a: Elt, b: Elt, c: NonzeroElt, d: Elt, e: Elt, f: NonzeroElt):
  """two quadratics"""
  P = polynomials_over(field())
  q, r = divmod(P([a, b, c]), P([d, e, f]))
  k = c / f
  same(q.coefficients, [k])
  same(r.coefficients, P([a - k * d, b - k * e]).coefficients)


def law_gcd_table():
  """small numbers"""
  for a in range(13):
    for b in range(13):
      same(euclid(a, b), gcd(a, b))
      x, y, d = eea(a, b)
      same(d, gcd(a, b))
      same(a * x + b * y, d)


def law_gcd_large():
  """large numbers: coprime, with a small and with a large common factor, one dividing the other"""
  m = 2**127 - 1
  for a, b in ((m, 2**61 - 1), (m * 3, m * 5), (6 * 2**80, 2**61), (m, 1), (m * m, m), (987, 610), (2**64, 3**40), (0, m), (m, m)):
    same(euclid(a, b), gcd(a, b))
    same(euclid(b, a), gcd(a, b))
    x, y, d = eea(a, b)
    same(a * x + b * y, gcd(a, b))
    same(d, gcd(a, b))
    x, y, d = eea(b, a)
    same(b * x + a * y, gcd(a, b))


def law_gcd_signs():
  """negative numbers"""
  for a in (-12, -7, -2, -1, 0, 1, 5, 8):
    for b in (-9, -8, -3, -1, 0, 1, 4, 6):
      d = euclid(a, b)
      same(abs(d), gcd(abs(a), abs(b)))
      x, y, e = eea(a, b)
      same(a * x + b * y, e)
      same(abs(e), gcd(abs(a), abs(b)))


def law_gcd_one(a: IntGe(2)):
  """one is coprime to everything"""
  same(euclid(a, 1), 1)
  same(euclid(1, a), 1)
  x, y, d = eea(a, 1)
  same(d, 1)
  same(a * x + y, 1)
  x, y, d = eea(1, a)
  same(d, 1)
  same(x + a * y, 1)


def law_poly_table():
  """polynomials over a small field: the identity, and a divisor of both"""
  from starks.modp import IntegersModP
  F = IntegersModP(5)
  P = polynomials_over(F)
  fs = [P([]), P([3]), P([1, 1]), P([1, 2, 1]), P([4, 0, 0, 1])]
  for f in fs:
    for g in fs:
      x, y, d = eea(f, g)
      e = euclid(f, g)
      same((f * x + g * y).coefficients, d.coefficients)
      same(d.coefficients, e.coefficients)
      if f.is_zero() and g.is_zero():
        check(d.is_zero())
      else:
        check(not d.is_zero())
        check((f % d).is_zero())
        check((g % d).is_zero())
