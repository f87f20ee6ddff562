"""Exponentiation."""
from starks.numbertype import DomainElement
from starks.modp import IntegersModP
from starks.finitefield import FiniteField
from starks.polynomial import polynomials_over
from starks.rationals_modp import RationalsModP
from starks.poly_utils import multivariates_over


def yes(*args):
  return True


def ring_polys(ring):
  return polys()


def prime_field(p):
  return field()


def power(x, n):
  """the specification: the n-fold product, of the inverse for negative n"""
  if n < 0:
    return power_nat(x.inverse(), -n)
  return power_nat(x, n)


def power_nat(x, n):
  r = x.__class__(1)
  for _ in range(n):
    r = r * x
  return r


@config(field='prime')
def law_generic(x: Elt, n: Exp):
  """square and multiply is the n-fold product for every natural exponent"""
  same(DomainElement.__pow__(x, n), x**n)


@config(field='prime')
def law_generic_small(x: Elt):
  """exponents 0 to 12, symbolically in the base"""
  K = field()
  r = K(1)
  for n in [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12]:
    same(DomainElement.__pow__(x, n), x**n)


@config(field='prime')
def law_generic_negative(x: NonzeroElt, n: Pos):
  """a negative exponent gives the power of the inverse"""
  same(DomainElement.__pow__(x, -n), DomainElement.__pow__(x.inverse(), n))


@config(field='prime')
def law_generic_negative_small(x: NonzeroElt):
  """x**-n times x**n is 1"""
  same(DomainElement.__pow__(x, -1) * x, 1)
  same(DomainElement.__pow__(x, -2) * x * x, 1)
  same(DomainElement.__pow__(x, -5) * x**5, 1)


@config(field='prime')
def law_poly(f: Poly, n: Small):
  """powers of polynomials"""
  same(DomainElement.__pow__(f, n), f**n)


@config(field='prime')
def law_powmod(f: Poly, g: NonzeroPoly, n: Exp):
  """modular exponentiation is the power reduced by the modulus"""
  same(DomainElement.powmod(f, n, g), f**n % g)


@config(field='prime')
def law_powmod_small(f: Poly, g: NonzeroPoly):
  """modular exponentiation, exponents 0 to 6"""
  for n in [0, 1, 2, 3, 4, 5, 6]:
    same(DomainElement.powmod(f, n, g), f**n % g)


@config(field='prime')
def law_types(x: Elt, f: Poly, g: NonzeroPoly, n: Pos, fl: Float, s: Str):
  """non-integer exponents raise TypeError, negative exponents of powmod raise"""
  check(raised(lambda: DomainElement.__pow__(x, fl), 'TypeError'))
  check(raised(lambda: DomainElement.__pow__(x, s), 'TypeError'))
  check(raised(lambda: DomainElement.__pow__(x, x), 'TypeError'))
  check(raised(lambda: DomainElement.__pow__(x, None), 'TypeError'))
  check(raised(lambda: DomainElement.powmod(f, fl, g), 'TypeError'))
  check(raised(lambda: DomainElement.powmod(f, x, g), 'TypeError'))
  check(raised(lambda: DomainElement.powmod(f, -n, g)))


def law_modp(p: Prime, a: Int, n: Exp):
  """powers of residues"""
  K = IntegersModP(p)
  same((K(a)**n).n, pow(a, n, p))


def law_modp_small(p: Prime, a: Int):
  """powers of residues, small exponents"""
  K = IntegersModP(p)
  for n in [0, 1, 2, 3, 4, 5, 6, 7, 8]:
    same((K(a)**n).n, a**n % p)


def law_modp_negative(p: Prime, a: Int, n: Exp):
  """negative powers of residues"""
  contract('starks.euclidean.extended_euclidean_algorithm', egcd)
  K = IntegersModP(p)
  assume(a % p != 0)
  same(((K(a)**(-n)) * K(a)**n).n, 1)


def law_rationals(p: Prime, a: Int, b: Int, n: Small):
  """powers of rationals"""
  contract('starks.euclidean.gcd', gcd)
  assume(b % p != 0)
  x = RationalsModP(p)(a, b)
  y = x**n
  same((y.m * b**n) % p, (a**n * y.n) % p)


def law_polynomials():
  """polynomial types use the same exponentiation"""
  P = polynomials_over(IntegersModP(101))
  for n in [0, 1, 2, 3]:
    r = P([1])
    for _ in range(n):
      r = r * P([2, 3])
    same((P([2, 3])**n).coefficients, r.coefficients)


@config(field='prime')
def law_extension(f: Poly, g: PolyGe(2), n: Exp):
  """powers of extension-field elements: each recursion step is right if its recursive calls are"""
  contract('starks.poly_utils.is_irreducible', yes)
  contract('starks.polynomial.polynomials_over', ring_polys)
  contract('starks.modp.IntegersModP', prime_field)
  F = FiniteField(field().p, g.degree(), g)

  def spec(x, k):
    return F(x.poly**k)
  contract('starks.finitefield.FiniteField.Fq.__pow__', spec, 'inner')
  same((F(f)**n).poly, f**n % g)


@config(field='prime')
def law_extension_small(f: Poly, g: PolyGe(2)):
  """powers of extension-field elements, small exponents"""
  contract('starks.poly_utils.is_irreducible', yes)
  contract('starks.polynomial.polynomials_over', ring_polys)
  contract('starks.modp.IntegersModP', prime_field)
  F = FiniteField(field().p, g.degree(), g)
  for n in [0, 1, 2, 3, 4, 5, 6, 7]:
    same((F(f)**n).poly, f**n % g)


@config(field='prime')
def law_extension_negative(f: Poly, g: PolyGe(2), n: Pos):
  """a negative power is the power of the inverse"""
  contract('starks.poly_utils.is_irreducible', yes)
  contract('starks.polynomial.polynomials_over', ring_polys)
  contract('starks.modp.IntegersModP', prime_field)
  contract('starks.euclidean.extended_euclidean_algorithm', egcd)
  F = FiniteField(field().p, g.degree(), g)

  def spec(x, k):
    check(k >= 0)
    return F(x.poly**k)
  x = F(f)
  assume(x.poly != 0)
  assume(not raised(lambda: x.inverse()))
  y = x.inverse()
  contract('starks.finitefield.FiniteField.Fq.__pow__', spec, 'inner')
  same((x**(-n)).poly, y.poly**n % g)


LARGE = [31, 32, 33, 255, 256, 65537, 2**32, 2**32 + 1, 2**63 - 1, 2**64, 2**64 + 1, 2**65 + 5]


@config(field='prime')
def law_generic_large(x: Elt):
  """larger exponents"""
  for n in [31, 32, 33, 63, 64, 65]:
    same(DomainElement.__pow__(x, n), x**n)


@config(field='prime')
def law_powmod_large(f: Poly, g: NonzeroPoly):
  """large exponents of modular exponentiation"""
  for n in LARGE:
    same(DomainElement.powmod(f, n, g), f**n % g)


@config(field='prime')
def law_extension_large(f: Poly, g: PolyGe(2)):
  """larger powers of extension-field elements"""
  contract('starks.poly_utils.is_irreducible', yes)
  contract('starks.polynomial.polynomials_over', ring_polys)
  contract('starks.modp.IntegersModP', prime_field)
  F = FiniteField(field().p, g.degree(), g)
  for n in [8, 15, 16, 17, 31, 33, 63, 64, 100, 255, 257, 1000, 4097]:
    same((F(f)**n).poly, f**n % g)


def law_extension_concrete():
  """powers beyond the size of the field"""
  R = IntegersModP(2)
  P = polynomials_over(R)
  g = P([1, 1, 0, 1])
  K = FiniteField(2, 3, g)
  for f in (P([0, 1]), P([1, 0, 1])):
    r = P([1])
    for n in range(11):
      same((K(f)**n).poly.coefficients, r.coefficients)
      r = r * f % g
