"""Memoisation of the type constructors."""
from starks.numbertype import memoize
from starks.modp import IntegersModP
from starks.rationals_modp import RationalsModP
from starks.polynomial import polynomials_over
from starks.multivariate_polynomial import multivariates_over
from starks.floatingpoint import FloatingPoint
from starks.finitefield import FiniteField

CONFIG = {'memo': False}


def make():

  @memoize
  def build(*args, **kwargs):

    class Made(object):
      parts = (args, tuple(sorted(kwargs.items())))

    return Made

  return build


def law_same_class(a: Int, b: Int):
  """equal positional parameters give the identical class"""
  f = make()
  check(f(a) is f(a))
  check(f(a, b) is f(a, b))
  check(f() is f())


def law_same_class_later(a: Int, b: Int, c: Int):
  """also after other requests in between"""
  f = make()
  x = f(a)
  f(b)
  f(c)
  f(a, b)
  f(n=a)
  check(f(a) is x)


def law_own_parameters(a: Int, b: Int, c: Int):
  """whatever was asked before, the class was built for the parameters asked for"""
  f = make()
  f(b)
  f(c)
  f(b, a)
  f(n=a)
  same(f(a).parts, ((a,), ()))


def law_own_parameters_pairs(a: Int, b: Int, c: Int, d: Int):
  """the same for two parameters in either order"""
  f = make()
  f(c, d)
  f(b, a)
  f(a)
  f(a, n=b)
  same(f(a, b).parts, ((a, b), ()))


def law_own_parameters_named(a: Int, b: Int, c: Int):
  """the same for named parameters: the name and the value count"""
  f = make()
  f(b)
  f(a)
  f(m=a)
  f(n=c)
  f(n=b, m=a)
  same(f(n=a).parts, ((), (('n', a),)))
  same(f(n=a, m=b).parts, ((), (('m', b), ('n', a))))


def law_named_shared(a: Int, b: Int):
  """named parameters are shared whatever their order"""
  f = make()
  check(f(n=a, m=b) is f(m=b, n=a))
  check(f(n=a) is f(n=a))


def law_mixed(a: Int, b: Int, c: Int):
  """positional and named parameters together"""
  f = make()
  f(a, n=c)
  f(c, n=b)
  f(a)
  f(n=b)
  same(f(a, n=b).parts, ((a,), (('n', b),)))
  check(f(a, n=b) is f(a, n=b))


def law_separate(a: Int):
  """two constructors never share classes"""
  f, g = make(), make()
  x, y = f(a), g(a)
  check(x is not y)
  check(f(a) is x)
  check(g(a) is y)


def law_fields(p: Prime, q: Prime):
  """one class per prime field"""
  F = IntegersModP(p)
  G = IntegersModP(q)
  check(IntegersModP(p) is F)
  check(IntegersModP(q) is G)
  same(F.p, p)
  same(G.p, q)
  same(F is G, p == q)


def law_rationals(p: Prime, q: Prime):
  """one class per rational field, never a prime field"""
  F = IntegersModP(p)
  K = RationalsModP(p)
  G = RationalsModP(q)
  check(K is not F)
  check(RationalsModP(p) is K)
  same(K.p, p)
  same(G.p, q)
  same(K is G, p == q)


def law_polynomials(p: Prime, q: Prime):
  """one class per polynomial ring"""
  F, G = IntegersModP(p), IntegersModP(q)
  A, B = polynomials_over(F), polynomials_over(G)
  check(polynomials_over(F) is A)
  check(polynomials_over(IntegersModP(p)) is A)
  same(A is B, p == q)
  check(A.ring is F)
  check(B.ring is G)
  check(polynomials_over(RationalsModP(p)) is not A)


def law_multivariates(p: Prime, q: Prime):
  """one class per ring of multivariate polynomials and number of variables"""
  F, G = IntegersModP(p), IntegersModP(q)
  A = multivariates_over(F, 2)
  check(multivariates_over(F, 2) is A)
  check(multivariates_over(F, 3) is not A)
  same(multivariates_over(G, 2) is A, p == q)


def law_many(a: Int):
  """the first class is kept however many others are asked for"""
  f = make()
  first = [f(0), f(27), f(119)]
  for i in range(3):
    for j in range(50):
      f(50 * i + j)
  check(f(0) is first[0])
  check(f(27) is first[1])
  check(f(119) is first[2])
  same(f(97).parts, ((97,), ()))


def law_extension():
  """one class per extension field and modulus"""
  P = polynomials_over(IntegersModP(2))
  f, g = P([1, 1, 0, 1]), P([1, 0, 1, 1])
  K = FiniteField(2, 3, f)
  L = FiniteField(2, 3, g)
  check(FiniteField(2, 3, f) is K)
  check(FiniteField(2, 3, P([1, 1, 0, 1])) is K)
  check(FiniteField(2, 3, g) is L)
  check(K is not L)
  same(K.ideal_generator, f)
  same(L.ideal_generator, g)


def law_extension_default():
  """without a modulus the field asked for first is kept"""
  P = polynomials_over(IntegersModP(2))
  drawn = []

  def draw(modulus, degree):
    drawn.append(degree)
    return P([1, 1, 0, 1]) if len(drawn) == 1 else P([1, 0, 1, 1])
  contract('starks.poly_utils.generate_primitive_polynomial', draw)
  K = FiniteField(2, 3)
  check(FiniteField(2, 3) is K)
  check(FiniteField(p=2, m=3) is FiniteField(m=3, p=2))
  same(K.ideal_generator, P([1, 1, 0, 1]))


def law_extension_prime(p: Prime, q: Prime):
  """degree one is the prime field"""
  check(FiniteField(p, 1) is IntegersModP(p))
  same(FiniteField(q, 1) is FiniteField(p, 1), p == q)


def law_numbers():
  """one class of floating-point numbers per field"""
  K = IntegersModP(5)
  L = IntegersModP(7)
  check(FloatingPoint(K) is FloatingPoint(K))
  check(FloatingPoint(K) is not FloatingPoint(L))
