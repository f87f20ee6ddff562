"""Moduli of fields: irreducibility, primitivity, generators."""
from sympy.ntheory import factorint
from starks.finitefield import FiniteField
from starks.poly_utils import generate_irreducible_polynomial
from starks.poly_utils import generate_primitive_polynomial
from starks.poly_utils import is_irreducible
from starks.poly_utils import is_monic
from starks.poly_utils import is_primitive
from starks.polynomial import polynomials_over


def base(p):
  return field()


def over(K):
  return polys()


def common(f, g):
  """the greatest common divisor"""
  return uf('common', 'poly', f, g)


def spaces():
  contract('starks.modp.IntegersModP', base)
  contract('starks.polynomial.polynomials_over', over)


def irreducible(f, p):
  """any irreducibility test"""
  return uf('irreducible', 'bool', f, p)


@config(field='prime')
def law_irreducible_constant(c: Elt):
  """constants are not irreducible"""
  spaces()
  contract('starks.euclidean.gcd', common)
  same(is_irreducible(polys()([c]), field().p), False)
  same(is_irreducible(polys()([]), field().p), False)


@config(field='prime')
def law_irreducible_linear(f: PolyGe(1)):
  """linear polynomials are irreducible"""
  spaces()
  contract('starks.euclidean.gcd', common)
  assume(f.degree() == 1)
  same(is_irreducible(f, field().p), True)


@config(field='prime')
def law_irreducible_2(f: PolyGe(2)):
  """degree 2: no common divisor with x^(p^i) - x for i up to 1"""
  spaces()
  contract('starks.euclidean.gcd', common)
  assume(f.degree() == 2)
  x = X()
  p = field().p
  y = x.powmod(p, f)
  same(is_irreducible(f, p), common(f, y - x).degree() == 0)


@config(field='prime')
def law_irreducible_3(f: PolyGe(3)):
  """degree 3: no common divisor with x^(p^i) - x for i up to 1"""
  spaces()
  contract('starks.euclidean.gcd', common)
  assume(f.degree() == 3)
  x = X()
  p = field().p
  y = x.powmod(p, f)
  same(is_irreducible(f, p), common(f, y - x).degree() == 0)


@config(field='prime')
def law_irreducible_4(f: PolyGe(4)):
  """degree 4: no common divisor with x^(p^i) - x for i up to 2"""
  spaces()
  contract('starks.euclidean.gcd', common)
  assume(f.degree() == 4)
  x = X()
  p = field().p
  y = x.powmod(p, f)
  z = y.powmod(p, f)
  same(is_irreducible(f, p), common(f, y - x).degree() == 0 and common(f, z - x).degree() == 0)


@config(field='prime')
def law_irreducible_5(f: PolyGe(5)):
  """degree 5: no common divisor with x^(p^i) - x for i up to 2"""
  spaces()
  contract('starks.euclidean.gcd', common)
  assume(f.degree() == 5)
  x = X()
  p = field().p
  y = x.powmod(p, f)
  z = y.powmod(p, f)
  same(is_irreducible(f, p), common(f, y - x).degree() == 0 and common(f, z - x).degree() == 0)


@config(field='prime')
def law_irreducible_6(f: PolyGe(6)):
  """degree 6: no common divisor with x^(p^i) - x for i up to 3"""
  spaces()
  contract('starks.euclidean.gcd', common)
  assume(f.degree() == 6)
  x = X()
  p = field().p
  y = x.powmod(p, f)
  z = y.powmod(p, f)
  w = z.powmod(p, f)
  same(is_irreducible(f, p), common(f, y - x).degree() == 0 and common(f, z - x).degree() == 0 and common(f, w - x).degree() == 0)


@config(field='prime')
def law_irreducible_7(f: PolyGe(7)):
  """degree 7: no common divisor with x^(p^i) - x for i up to 3"""
  spaces()
  contract('starks.euclidean.gcd', common)
  assume(f.degree() == 7)
  x = X()
  p = field().p
  y = x.powmod(p, f)
  z = y.powmod(p, f)
  w = z.powmod(p, f)
  same(is_irreducible(f, p), common(f, y - x).degree() == 0 and common(f, z - x).degree() == 0 and common(f, w - x).degree() == 0)


def none_common(f, n):
  """no common divisor with the first n of the x^(p^i) - x"""
  y = X()
  ok = True
  for _ in range(n):
    y = y.powmod(field().p, f)
    ok = ok and common(f, y - X()).degree() == 0
  return ok


@config(field='prime')
def law_irreducible_8(f: PolyGe(8)):
  """degree 8: no common divisor with x^(p^i) - x for i up to 4"""
  spaces()
  contract('starks.euclidean.gcd', common)
  assume(f.degree() == 8)
  same(is_irreducible(f, field().p), none_common(f, 4))


@config(field='prime')
def law_irreducible_9(f: PolyGe(9)):
  """degree 9: no common divisor with x^(p^i) - x for i up to 4"""
  spaces()
  contract('starks.euclidean.gcd', common)
  assume(f.degree() == 9)
  same(is_irreducible(f, field().p), none_common(f, 4))


@config(field='prime')
def law_irreducible_10(f: PolyGe(10)):
  """degree 10: no common divisor with x^(p^i) - x for i up to 5"""
  spaces()
  contract('starks.euclidean.gcd', common)
  assume(f.degree() == 10)
  same(is_irreducible(f, field().p), none_common(f, 5))


@config(field='prime')
def law_irreducible_11(f: PolyGe(11)):
  """degree 11: no common divisor with x^(p^i) - x for i up to 5"""
  spaces()
  contract('starks.euclidean.gcd', common)
  assume(f.degree() == 11)
  same(is_irreducible(f, field().p), none_common(f, 5))


@config(field='prime')
def law_irreducible_12(f: PolyGe(12)):
  """degree 12: no common divisor with x^(p^i) - x for i up to 6"""
  spaces()
  contract('starks.euclidean.gcd', common)
  assume(f.degree() == 12)
  same(is_irreducible(f, field().p), none_common(f, 6))


@config(field='prime')
def law_irreducible_13(f: PolyGe(13)):
  """degree 13: no common divisor with x^(p^i) - x for i up to 6"""
  spaces()
  contract('starks.euclidean.gcd', common)
  assume(f.degree() == 13)
  same(is_irreducible(f, field().p), none_common(f, 6))


def frobenius(f, i):
  """x^(p^i) modulo f"""
  y = X()
  for _ in range(i):
    y = y.powmod(field().p, f)
  return y


@config(field='prime')
def law_irreducible(f: PolyGe(1)):
  """no common divisor with any x^(p^i) - x, i up to half the degree"""
  spaces()
  contract('starks.euclidean.gcd', common)
  n = f.degree() // 2
  same(is_irreducible(f, field().p),
       all([common(f, frobenius(f, i).powmod(field().p, f) - X()).degree() == 0 for i in range(n)]))


@config(field='prime')
def law_irreducible_ring(f: PolyGe(1), p: Prime):
  """a polynomial over another ring is refused"""
  contract('starks.modp.IntegersModP', lambda q: int)
  contract('starks.polynomial.polynomials_over', over)
  contract('starks.euclidean.gcd', common)
  same(raised(lambda: is_irreducible(f, p), 'TypeError'), True)


@config(field='prime')
def law_monic(f: NonzeroPoly):
  """monic polynomials lead with one"""
  same(is_monic(f), f.leading_coefficient() == 1)


@config(field='prime')
def law_primitive_irreducible(f: PolyGe(1), m: SmallGe(1)):
  """a polynomial that fails the irreducibility test is not primitive"""
  spaces()
  contract('starks.poly_utils.is_irreducible', lambda g, q: False)
  contract('sympy.ntheory.factorint', lambda n: {2: 1})
  same(is_primitive(f, field().p, m), False)


@config(field='prime')
def law_primitive_test(f: PolyGe(1), m: SmallGe(1)):
  """the polynomial and the prime are handed to the irreducibility test"""
  spaces()
  contract('starks.poly_utils.is_irreducible', irreducible)
  contract('sympy.ntheory.factorint', lambda n: {})
  same(is_primitive(f, field().p, m), irreducible(f, field().p))


@config(field='prime')
def law_primitive_factors(f: PolyGe(1), m: SmallGe(1)):
  """the order of the multiplicative group is factored"""
  spaces()
  asked = []

  def factors(n):
    asked.append(n)
    return {2: 1}
  contract('starks.poly_utils.is_irreducible', lambda g, q: True)
  contract('sympy.ntheory.factorint', factors)
  is_primitive(f, field().p, m)
  same(asked, [field().p ** m - 1])


@config(field='prime')
def law_primitive_2(f: PolyGe(1), m: SmallGe(1)):
  """two prime factors of the order: x must not have order dividing either quotient"""
  spaces()
  contract('starks.poly_utils.is_irreducible', lambda g, q: True)
  contract('sympy.ntheory.factorint', lambda n: {3: 2, 7: 1})
  n = field().p ** m - 1
  same(is_primitive(f, field().p, m), X() ** (n // 3) % f != polys()([1]) and X() ** (n // 7) % f != polys()([1]))


@config(field='prime')
def law_primitive_3(f: PolyGe(1), m: SmallGe(1), a: Pos, b: Pos, c: Pos):
  """three prime factors of the order"""
  spaces()
  assume(a < b)
  assume(b < c)
  contract('starks.poly_utils.is_irreducible', lambda g, q: True)
  contract('sympy.ntheory.factorint', lambda n: {a: 1, b: 1, c: 4})
  n = field().p ** m - 1
  one = polys()([1])
  same(is_primitive(f, field().p, m), X() ** (n // a) % f != one and X() ** (n // b) % f != one and X() ** (n // c) % f != one)


@config(field='prime')
def law_primitive_many(f: PolyGe(1), m: SmallGe(1)):
  """many prime factors of the order, each of them needed"""
  spaces()
  contract('starks.poly_utils.is_irreducible', lambda g, q: True)
  n = field().p ** m - 1
  one = polys()([1])
  for rs in [[2, 3, 5, 7], [2, 3, 5, 7, 11, 13], [3, 5, 17, 257, 65537, 7, 11, 13, 19, 23, 29]]:
    contract('sympy.ntheory.factorint', lambda k: {r: 1 for r in rs})
    ok = True
    for r in rs:
      ok = ok and X() ** (n // r) % f != one
    same(is_primitive(f, field().p, m), ok)


@config(field='prime')
def law_primitive(f: PolyGe(1), m: SmallGe(1)):
  """every prime factor of the order is tried"""
  spaces()
  contract('starks.poly_utils.is_irreducible', lambda g, r: True)
  n = field().p ** m - 1
  one = polys()([1])
  same(is_primitive(f, field().p, m), all([X() ** (n // int(r)) % f != one for r in factorint(n).keys()]))


@config(field='prime')
def law_generate_irreducible(n: SmallGe(1)):
  """a generated polynomial is monic, of the degree, and passed the test"""
  spaces()
  contract('starks.poly_utils.is_irreducible', irreducible)
  f = generate_irreducible_polynomial(field().p, n)
  same(f.degree(), n)
  same(f.leading_coefficient(), field()(1))
  same(irreducible(f, field().p), True)


@config(field='prime')
def law_generate_primitive(n: SmallGe(1)):
  """a generated primitive polynomial passed both tests"""
  spaces()
  asked = []

  def gen(modulus, degree):
    asked.append((modulus, degree))
    return uf('gen', 'poly', len(asked))
  contract('starks.poly_utils.generate_irreducible_polynomial', gen)
  contract('starks.poly_utils.is_primitive', lambda g, modulus, degree: uf('primitive', 'bool', g, modulus, degree))
  f = generate_primitive_polynomial(field().p, n)
  same(uf('primitive', 'bool', f, field().p, n), True)
  same(asked[0], (field().p, n))


@config(field='prime')
def law_gate(f: NonzeroPoly, m: SmallGe(2)):
  """a modulus is accepted only when irreducible and of the degree"""
  spaces()
  contract('starks.poly_utils.is_irreducible', irreducible)
  same(raised(lambda: FiniteField(field().p, m, f), 'ValueError'),
       not irreducible(f, field().p) or f.degree() != m)


@config(field='prime')
def law_gate_prime(f: NonzeroPoly):
  """the gate also guards the prime field"""
  spaces()
  contract('starks.poly_utils.is_irreducible', irreducible)
  same(raised(lambda: FiniteField(field().p, 1, f), 'ValueError'),
       not irreducible(f, field().p) or f.degree() != 1)


@config(field='prime')
def law_modulus(f: NonzeroPoly):
  """the accepted modulus is the one the field uses"""
  spaces()
  contract('starks.poly_utils.is_irreducible', lambda g, q: True)
  assume(f.degree() == 3)
  F = FiniteField(field().p, 3, f)
  same(F.ideal_generator, f)
  same(F.field_size, field().p ** 3)


@config(field='prime')
def law_default(f: NonzeroPoly):
  """without a modulus a generated primitive polynomial of the degree is used"""
  spaces()
  asked = []

  def gen(modulus, degree):
    asked.append((modulus, degree))
    return f
  contract('starks.poly_utils.generate_primitive_polynomial', gen)
  F = FiniteField(field().p, 3)
  same(asked, [(field().p, 3)])
  same(F.ideal_generator, f)
