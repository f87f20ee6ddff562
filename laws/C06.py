"""Extension fields.

Elements are decided over the model of the polynomial ring (C08, C09): the modulus
is any polynomial of degree m that passes the irreducibility test."""
from starks.finitefield import FiniteField
from starks.modp import IntegersModP
from starks.polynomial import polynomials_over


def yes(f, p):
  return True


def prime_field(p):
  return field()


def poly_ring(ring):
  return polys()


def setup():
  contract('starks.poly_utils.is_irreducible', yes)
  contract('starks.modp.IntegersModP', prime_field)
  contract('starks.polynomial.polynomials_over', poly_ring)


@config(field='prime')
def law_construct_poly(f: PolyGe(2), a: Poly):
  """an element built from a polynomial is its remainder by the modulus"""
  setup()
  m = f.degree()
  K = FiniteField(field().p, m, f)
  same(K(a).poly, a % f)


@config(field='prime')
def law_construct_element(f: PolyGe(2), a: Poly):
  """an element built from an element is the same element"""
  setup()
  m = f.degree()
  K = FiniteField(field().p, m, f)
  same(K(K(a)).poly, a % f)


@config(field='prime')
def law_construct_scalar(f: PolyGe(2), k: Int, c: Elt):
  """integers and prime field elements become constants"""
  setup()
  m = f.degree()
  K = FiniteField(field().p, m, f)
  same(K(k).poly, polys()([field()(k)]))
  same(K(c).poly, polys()([c]))


@config(field='prime')
def law_construct_list(f: PolyGe(2), cs: Seq(Int)):
  """a list of coefficients is reduced"""
  setup()
  m = f.degree()
  K = FiniteField(field().p, m, f)
  same(K(cs).poly, polys()([field()(c) for c in cs]) % f)


@config(field='prime')
def law_construct_list_elements(f: PolyGe(2), cs: Seq(Elt)):
  """a list of prime field coefficients is reduced"""
  setup()
  m = f.degree()
  K = FiniteField(field().p, m, f)
  same(K(cs).poly, polys()(cs) % f)


@config(field='prime')
def law_construct_bytes(f: PolyGe(2), n: Small, b: Bytes(32 * n)):
  """bytes are decoded and reduced"""
  setup()
  m = f.degree()
  K = FiniteField(field().p, m, f)
  same(K(b).poly, polys()(b) % f)


@config(field='prime')
def law_ring(f: PolyGe(2), a: Poly, b: Poly):
  """sums, differences, products and negation are those of polynomials modulo f"""
  setup()
  m = f.degree()
  K = FiniteField(field().p, m, f)
  same((K(a) + K(b)).poly, (a + b) % f)
  same((K(a) - K(b)).poly, (a - b) % f)
  same((K(a) * K(b)).poly, (a * b) % f)
  same((-K(a)).poly, (-a) % f)


@config(field='prime')
def law_mixed(f: PolyGe(2), a: Poly, k: Int, c: Elt):
  """integers and prime field elements act as constants, on either side"""
  setup()
  m = f.degree()
  K = FiniteField(field().p, m, f)
  kk = polys()([field()(k)])
  cc = polys()([c])
  same((K(a) + k).poly, (a + kk) % f)
  same((k + K(a)).poly, (a + kk) % f)
  same((K(a) - k).poly, (a - kk) % f)
  same((k - K(a)).poly, (kk - a) % f)
  same((K(a) * k).poly, (a * kk) % f)
  same((k * K(a)).poly, (a * kk) % f)
  same((K(a) + c).poly, (a + cc) % f)
  same((K(a) * c).poly, (a * cc) % f)
  same((K(a) - c).poly, (a - cc) % f)


@config(field='prime')
def law_eq(f: PolyGe(2), a: Poly, b: Poly, k: Int):
  """elements are equal exactly when their representatives are"""
  setup()
  m = f.degree()
  K = FiniteField(field().p, m, f)
  same(K(a) == K(b), (a - b) % f == 0)
  same(K(a) != K(b), not ((a - b) % f == 0))
  same(K(a) == k, a % f == polys()([field()(k)]))


@config(field='prime')
def law_divmod(f: PolyGe(2), a: Poly, b: Poly):
  """divmod is that of the representatives"""
  setup()
  m = f.degree()
  K = FiniteField(field().p, m, f)
  assume(not (b % f == 0))
  q, r = divmod(K(a), K(b))
  same(q.poly, (a % f) / (b % f))
  same(r.poly, (a % f) % (b % f))


@config(field='prime')
def law_valuation(f: PolyGe(2), a: Poly):
  """the valuation of an element is that of its representative"""
  setup()
  m = f.degree()
  K = FiniteField(field().p, m, f)
  same(abs(K(a)), abs(a % f))


@config(field='prime')
def law_inverse(f: PolyGe(2), a: Poly):
  """an element times its inverse is one"""
  setup()
  contract('starks.euclidean.extended_euclidean_algorithm', egcd)
  m = f.degree()
  r = a % f
  assume(not (r == 0))
  x, y, d = egcd(r, f)
  assume(d.degree() == 0)
  K = FiniteField(field().p, m, f)
  i = K(a).inverse()
  same(i.poly * d.coefficients[0] % f, x % f)
  same((K(a) * i).poly, polys()([1]))


@config(field='prime')
def law_inverse_raises(f: PolyGe(2), a: Poly):
  """zero and elements without inverse raise"""
  setup()
  contract('starks.euclidean.extended_euclidean_algorithm', egcd)
  m = f.degree()
  r = a % f
  x, y, d = egcd(r, f)
  K = FiniteField(field().p, m, f)
  same(raised(lambda: K(a).inverse()), r == 0 or d.degree() != 0)
  assume(r == 0)
  check(raised(lambda: K(a).inverse(), 'ZeroDivisionError'))


@config(field='prime')
def law_division(f: PolyGe(2), a: Poly, b: Poly):
  """a quotient times its divisor is the dividend"""
  setup()
  contract('starks.euclidean.extended_euclidean_algorithm', egcd)
  m = f.degree()
  r = b % f
  assume(not (r == 0))
  x, y, d = egcd(r, f)
  assume(d.degree() == 0)
  K = FiniteField(field().p, m, f)
  q = K(a) / K(b)
  same((q * K(b)).poly, a % f)


@config(field='prime')
def law_pow(f: PolyGe(2), a: Poly):
  """small powers are products"""
  setup()
  m = f.degree()
  K = FiniteField(field().p, m, f)
  same((K(a)**0).poly, polys()([1]) % f)
  same((K(a)**1).poly, a % f)
  same((K(a)**2).poly, (a * a) % f)
  same((K(a)**3).poly, (a * a * a) % f)
  same((K(a)**4).poly, (a * a * a * a) % f)
  same((K(a)**5).poly, (a * a * a * a * a) % f)
  same((K(a)**6).poly, (a * a * a * a * a * a) % f)


@config(field='prime')
def law_parameters(f: PolyGe(2)):
  """the class reports its parameters"""
  setup()
  m = f.degree()
  K = FiniteField(field().p, m, f)
  same(K.m, m)
  same(K.p, field().p)
  same(K.field_size, field().p ** m)
  same(K.ideal_generator, f)


@config(field='prime')
def law_prime_field(p: Prime):
  """degree one is the prime field"""
  contract('starks.modp.IntegersModP', prime_field)
  check(FiniteField(p, 1) is field())


@config(unroll=600)
def law_modulus_refused():
  """a reducible modulus, or one of another degree, makes no field"""
  for p, cs in [(2, [0, 1, 1]), (2, [1, 0, 1]), (3, [2, 0, 1]), (3, [1, 2, 1]), (5, [1, 0, 1]), (7, [0, 0, 1]), (101, [1, 2, 1]),
                (2, [1, 1, 1, 1]), (3, [0, 1, 0, 1]), (5, [4, 0, 0, 1]), (2, [1, 0, 1, 0, 1]), (3, [1, 0, 0, 0, 1]), (2, [1, 1, 0, 0, 0, 1])]:
    f = polynomials_over(IntegersModP(p)).factory(cs)
    check(raised(lambda: FiniteField(p, len(cs) - 1, f), 'ValueError'))
  for p, cs in [(2, [1, 1, 1]), (3, [1, 0, 1]), (5, [2, 0, 1]), (7, [1, 0, 1]), (2, [1, 1, 0, 1]), (2, [1, 0, 0, 1, 1]), (3, [2, 1, 0, 0, 1])]:
    f = polynomials_over(IntegersModP(p)).factory(cs)
    K = FiniteField(p, len(cs) - 1, f)
    same(K.m, len(cs) - 1)
    same(K.p, p)
    same([c.n for c in K.ideal_generator.coefficients], cs)
    check(raised(lambda: FiniteField(p, len(cs), f), 'ValueError'))
    check(raised(lambda: FiniteField(p, len(cs) + 1, f), 'ValueError'))
    check(raised(lambda: FiniteField(p, 1, f), 'ValueError'))
