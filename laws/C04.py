"""The conversion gate of the binary operators."""
from starks.numbertype import typecheck
from starks.numbertype import FieldElement
from starks.modp import IntegersModP
from starks.rationals_modp import RationalsModP
from starks.polynomial import polynomials_over
from starks.multivariate_polynomial import multivariates_over
from starks.finitefield import FiniteField


class Plain(object):

  def __init__(self, x):
    self.x = x


class Num(FieldElement):
  """a number type that converts integers, refuses strings and breaks on None"""
  operatorPrecedence = 5

  def __init__(self, x):
    if isinstance(x, str):
      raise TypeError('string')
    if x is None:
      raise ValueError('nothing')
    self.x = x.x if isinstance(x, (Num, Plain)) else x

  @typecheck
  def __add__(self, other):
    return (self.x, other.x, type(other) is Num)

  def direct(self, other):
    return type(self).__add__(self, other)


class Higher(object):
  operatorPrecedence = 6

  def __radd__(self, other):
    return ('higher', other.x)


class Equal(object):
  operatorPrecedence = 5
  x = 3

  def __radd__(self, other):
    return 'equal'


class Lower(Plain):
  operatorPrecedence = 4

  def __radd__(self, other):
    return 'lower'


def law_same_type(a: Int, b: Int):
  """an operand of the same type is passed as it is"""
  y = Num(b)
  same(Num(a) + y, (a, b, True))


def law_converted(a: Int, b: Int):
  """any other operand is converted first"""
  same(Num(a) + b, (a, b, True))
  same(Num(a) + Plain(b), (a, b, True))


def law_precedence(a: Int, b: Int):
  """only an operand of higher precedence is deferred to"""
  same(Num(a) + Higher(), ('higher', a))
  check(Num(a).direct(Higher()) is NotImplemented)
  same(Num(a) + Lower(b), (a, b, True))
  check(Num(a).direct(Equal()) is not NotImplemented)


def law_refused(a: Int):
  """an operand that cannot be converted raises TypeError, whatever conversion raised"""
  check(raised(lambda: Num(a) + 'text', 'TypeError'))
  check(raised(lambda: Num(a) + None, 'TypeError'))


class Base(FieldElement):
  operatorPrecedence = 5

  def __init__(self, x):
    self.x = x.x if isinstance(x, Base) else x
    self.tag = 'base'

  @typecheck
  def __add__(self, other):
    return (self.x, other.x, type(other) is type(self))


class Derived(Base):
  pass


def law_subclass(a: Int, b: Int):
  """an instance of another class is converted even if it is a subclass"""
  same(Base(a).__add__(Derived(b)), (a, b, True))
  same(Derived(a).__add__(Base(b)), (a, b, True))


def number_type(k):
  """number types that differ in nothing but their identity"""

  class Twin(FieldElement):
    kind = k

    def __init__(self, x):
      if isinstance(x, str):
        raise TypeError('string')
      self.x = x.x if isinstance(x, FieldElement) else x
      self.converted = isinstance(x, FieldElement)

    @typecheck
    def __add__(self, other):
      return (self.x, other.x, other.kind, other.converted)

  return Twin


def law_same_name(a: Int, b: Int):
  """types of the same name are different types"""
  A, B = number_type(1), number_type(2)
  same(A(a) + B(b), (a, b, 1, True))
  same(B(b) + A(a), (b, a, 2, True))
  same(A(a) + A(b), (a, b, 1, False))
  same(B(a) + B(b), (a, b, 2, False))


@config(field='prime', memo=True)
def law_extension_pair(f: PolyGe(2), g: PolyGe(2), a: Poly, b: Poly):
  """elements of two extension fields are never combined as they are"""
  assume(f != g)
  assume(f.degree() == g.degree())
  K, L = extension(f), extension(g)
  x, y = K(a), L(b)
  for op in (lambda: x + y, lambda: x - y, lambda: x * y, lambda: x == y):
    try:
      r = op()
    except TypeError:
      r = None
    same(r, None)


# prime fields and integers

def law_prime_field(p: Prime, a: Int, n: Int):
  """integers on either side of prime field elements"""
  F = IntegersModP(p)
  x, y = F(a), F(n)
  for r, s in [(x + n, x + y), (n + x, y + x), (x - n, x - y), (n - x, y - x), (x * n, x * y), (n * x, y * x)]:
    same(type(r) is F, True)
    same(r.n, s.n)
  same(x == n, x == y)
  same(n == x, x == y)
  same(x != n, x != y)
  same(n != x, x != y)


def law_prime_field_division(p: Prime, a: Int, n: Int):
  """division of integers by elements"""
  contract('starks.euclidean.extended_euclidean_algorithm', egcd)
  F = IntegersModP(p)
  u, v, d = egcd(a % p, p)
  assume(d == 1)
  x, y = F(a), F(n)
  r = n / x
  same(type(r) is F, True)
  same(r.n, (x.inverse() * y).n)


def law_prime_field_refuses(p: Prime, a: Int):
  """values that are no numbers"""
  F = IntegersModP(p)
  x = F(a)
  check(raised(lambda: x + 'a', 'TypeError'))
  check(raised(lambda: x - None, 'TypeError'))
  check(raised(lambda: x * [1], 'TypeError'))
  check(raised(lambda: 'a' + x, 'TypeError'))
  check(raised(lambda: [] - x, 'TypeError'))
  check(raised(lambda: None * x, 'TypeError'))
  check(raised(lambda: x == 'a', 'TypeError'))
  check(raised(lambda: x != None, 'TypeError'))


def rational(p, a, b, n):
  contract('starks.euclidean.gcd', gcd)
  assume(b % p != 0)
  K = RationalsModP(p)
  return K, K(a, b), K(n)


def law_rationals_add(p: Prime, a: Int, b: Int, n: Int):
  """integers on either side of rationals"""
  K, x, y = rational(p, a, b, n)
  for r, s in [(x + n, x + y), (n + x, y + x)]:
    same(type(r) is K, True)
    same((r.m * s.n) % p, (s.m * r.n) % p)


def law_rationals_sub(p: Prime, a: Int, b: Int, n: Int):
  """integers on either side of rationals"""
  K, x, y = rational(p, a, b, n)
  for r, s in [(x - n, x - y), (n - x, y - x)]:
    same(type(r) is K, True)
    same((r.m * s.n) % p, (s.m * r.n) % p)


def law_rationals_mul(p: Prime, a: Int, b: Int, n: Int):
  """integers on either side of rationals"""
  K, x, y = rational(p, a, b, n)
  for r, s in [(x * n, x * y), (n * x, y * x)]:
    same(type(r) is K, True)
    same((r.m * s.n) % p, (s.m * r.n) % p)


def law_rationals_refuse(p: Prime, a: Int, b: Int, n: Int):
  """values that are no numbers"""
  K, x, y = rational(p, a, b, n)
  check(raised(lambda: x + 'a', 'TypeError'))
  check(raised(lambda: x - None, 'TypeError'))
  check(raised(lambda: x * [1], 'TypeError'))
  check(raised(lambda: 'a' + x, 'TypeError'))
  check(raised(lambda: [] - x, 'TypeError'))
  check(raised(lambda: None * x, 'TypeError'))
  check(raised(lambda: x == 'a', 'TypeError'))
  check(raised(lambda: x != None, 'TypeError'))


@config(field='prime', memo=True)
def law_polynomial_scalar(xs: List(NonzeroElt, 3), n: Int, c: NonzeroElt):
  """integers and ring elements on either side of polynomials"""
  P = polynomials_over(field())
  f = P(xs)
  for k, g in [(n, P([field()(n)])), (c, P([c]))]:
    for r, s in [(f + k, f + g), (k + f, g + f), (f - k, f - g), (k - f, g - f), (f * k, f * g), (k * f, g * f)]:
      same(type(r) is P, True)
      same(r.coefficients, s.coefficients)
    same(f == k, f == g)
    same(k == f, f == g)
    same(f != k, f != g)
    same(k != f, f != g)


def law_polynomial_instances():
  """the same over an actual prime field"""
  F = IntegersModP(7)
  P = polynomials_over(F)
  for cs in [[], [1], [3, 5], [0, 0, 6]]:
    f = P([F(x) for x in cs])
    for n in [0, 1, 6, -3, 9]:
      g = P([F(n)])
      for k in [n, F(n)]:
        for r, s in [(f + k, f + g), (k + f, g + f), (f - k, f - g), (k - f, g - f), (f * k, f * g), (k * f, g * f)]:
          same(type(r) is P, True)
          same([x.n for x in r.coefficients], [x.n for x in s.coefficients])
        same((f == k, k == f, f != k, k != f), (f == g, f == g, f != g, f != g))


def law_polynomial_refuses(p: Prime, a: Int):
  """values that are no polynomials"""
  F = IntegersModP(p)
  P = polynomials_over(F)
  f = P([F(a), F(1)])
  check(raised(lambda: f + None, 'TypeError'))
  check(raised(lambda: f * object(), 'TypeError'))
  check(raised(lambda: f + 'ab', 'TypeError'))
  check(raised(lambda: f == None, 'TypeError'))


def prime_field(p):
  return field()


def yes(f, p):
  return True


def poly_ring(ring):
  return polys()


def extension(f):
  contract('starks.poly_utils.is_irreducible', yes)
  contract('starks.modp.IntegersModP', prime_field)
  contract('starks.polynomial.polynomials_over', poly_ring)
  return FiniteField(field().p, f.degree(), f)


@config(field='prime', memo=True)
def law_extension_scalar(f: PolyGe(2), a: Poly, n: Int, c: Elt):
  """integers and prime field elements on either side of extension field elements"""
  K = extension(f)
  x = K(a)
  for k in [n, c]:
    y = K(k)
    for r, s in [(x + k, x + y), (k + x, y + x), (x - k, x - y), (k - x, y - x), (x * k, x * y), (k * x, y * x)]:
      same(type(r) is K, True)
      same(r.poly, s.poly)
    same(x == k, x == y)
    same(k == x, x == y)
    same(x != k, x != y)
    same(k != x, x != y)


@config(field='prime', memo=True)
def law_extension_list(f: PolyGe(2), a: Poly, cs: Seq(Int)):
  """coefficient lists are converted"""
  K = extension(f)
  x = K(a)
  same((x + cs).poly, (x + K(cs)).poly)
  same((x * cs).poly, (x * K(cs)).poly)


@config(field='prime', memo=True)
def law_extension_refuses(f: PolyGe(2), a: Poly):
  """values that are no field elements"""
  K = extension(f)
  x = K(a)
  check(raised(lambda: x + None, 'TypeError'))
  check(raised(lambda: x * object(), 'TypeError'))
  check(raised(lambda: x == None, 'TypeError'))


@config(field='prime', memo=True)
def law_multivariate_scalar(a: NonzeroElt, b: NonzeroElt, n: Int, c: Elt):
  """integers and ring elements on either side of multivariate polynomials"""
  M = multivariates_over(field(), 2)
  f = M({(1, 0): a, (0, 0): b})
  for k, v in [(n, field()(n)), (c, c)]:
    g = M({(0, 0): v})
    for r, s in [(f + k, f + g), (k + f, g + f), (f - k, f - g), (k - f, g - f), (f * k, f * g), (k * f, g * f)]:
      same(type(r) is M, True)
      same((r[(1, 0)], r[(0, 0)]), (s[(1, 0)], s[(0, 0)]))
    same(f == k, f == g)


@config(field='prime', memo=True)
def law_multivariate_refuses(a: Elt):
  """values that are no polynomials"""
  M = multivariates_over(field(), 2)
  f = M({(1, 0): a})
  check(raised(lambda: f + None, 'TypeError'))
  check(raised(lambda: f * 'a', 'TypeError'))


def law_prime_field_foreign():
  """a fraction, a polynomial and an extension element are no residues"""
  F = IntegersModP(7)
  for x in (F(3), F(0), F(1)):
    for y in (RationalsModP(7)(1, 2), RationalsModP(11)(3, 1), RationalsModP(7)(2)):
      check(raised(lambda: x + y, 'TypeError'))
      check(raised(lambda: x - y, 'TypeError'))
      check(raised(lambda: x * y, 'TypeError'))
      check(raised(lambda: x == y, 'TypeError'))
      check(raised(lambda: x != y, 'TypeError'))
