"""Interpolation, vanishing polynomials and batch inversion."""
from starks.poly_utils import multi_inv
from starks.poly_utils import zpoly
from starks.poly_utils import lagrange_interp
from starks.poly_utils import lagrange_interp_4
from starks.poly_utils import lagrange_interp_2
from starks.poly_utils import multi_interp_4
from starks.modp import IntegersModP


class MakePoly:
  def __init__(self, ring):
    self.ring = ring

  def __call__(self, c):
    return polys()(c)

  def factory(self, c):
    return polys()(c)


def ring_polys(ring):
  return MakePoly(ring)


class Coeffs:
  """the view of a polynomial as its stored coefficient list"""
  def __init__(self, cs):
    self.coefficients = cs

  def __call__(self, x):
    y = 0
    for i in range(len(self.coefficients)):
      y = y + self.coefficients[i] * x**i
    return y


class MakeCoeffs:
  def factory(self, c):
    return Coeffs(c)


def raw_polys(ring):
  """polynomials as plain coefficient lists; C08 relates them to the stored form"""
  return MakeCoeffs()


def value(cs, x):
  y = 0
  for i in range(len(cs)):
    y = y + cs[i] * x**i
  return y


@config(field='prime')
def law_multi_inv(vs: Seq(Elt)):
  """every nonzero entry is inverted, zero entries map to zero, for every length"""
  r = multi_inv(field(), vs)
  same(len(r), len(vs))
  same([r[i] * vs[i] for i in range(len(vs))], [field()(0) if v == 0 else field()(1) for v in vs])
  same([r[i] if vs[i] == 0 else field()(0) for i in range(len(vs))], [field()(0) for v in vs])


@config(field='prime')
def law_multi_inv_shape(a: Elt, b: Elt, c: Elt):
  """batch inversion of three values"""
  r = multi_inv(field(), [a, b, c])
  same(r[0] * a, 0 if a == 0 else 1)
  same(r[1] * b, 0 if b == 0 else 1)
  same(r[2] * c, 0 if c == 0 else 1)
  same(len(r), 3)


@config(field='prime')
def law_multi_inv_small(a: Elt, b: Elt):
  """zero entries give zero"""
  same(multi_inv(field(), []), [])
  r = multi_inv(field(), [a, field()(0), b])
  same(r[1], 0)
  r = multi_inv(field(), [field()(0), a])
  same(r[0], 0)
  same(r[1] * a, 0 if a == 0 else 1)


@config(field='prime')
def law_zpoly(rs: Seq(Elt)):
  """the vanishing polynomial is the product of x minus the roots"""
  contract('starks.polynomial.polynomials_over', raw_polys)
  z = zpoly(field(), rs)
  same(len(z.coefficients), len(rs) + 1)
  same(z.coefficients[len(rs)], 1)


@config(field='prime')
def law_zpoly_value(rs: Seq(Elt), x: Elt):
  """its value is the product of the differences"""
  contract('starks.polynomial.polynomials_over', raw_polys)
  z = zpoly(field(), rs)
  v = field()(1)
  for r in rs:
    v = v * (x - r)
  same(z(x), v)


@config(field='prime')
def law_zpoly_shape(a: Elt, b: Elt, c: Elt, x: Elt):
  """vanishing polynomials of up to three roots"""
  contract('starks.polynomial.polynomials_over', raw_polys)
  same(zpoly(field(), [])(x), 1)
  same(zpoly(field(), [a])(x), x - a)
  same(zpoly(field(), [a, b])(x), (x - a) * (x - b))
  same(zpoly(field(), [a, b, c])(x), (x - a) * (x - b) * (x - c))


def exact_inverses(ring, values):
  """the specification of batch inversion, decided by law_multi_inv"""
  return [1 / v if v != 0 else 0 * v for v in values]


# Distinct points are written as a, a + s, a + t, ...: every tuple of distinct points has this form.

@config(field='prime')
def law_interp_2(a: Elt, s: NonzeroElt, u: Elt, v: Elt):
  """the line through two points"""
  contract('starks.polynomial.polynomials_over', raw_polys)
  f = lagrange_interp_2(field(), [a, a + s], [u, v])
  same(len(f.coefficients), 2)
  same(f(a), u)
  same(f(a + s), v)


@config(field='prime')
def law_interp_2_poly(a: Elt, s: NonzeroElt, u: Elt, v: Elt):
  """the points may be given as polynomials"""
  contract('starks.polynomial.polynomials_over', raw_polys)
  f = lagrange_interp_2(field(), Coeffs([a, a + s]), Coeffs([u, v]))
  same(f(a), u)
  same(f(a + s), v)


@config(field='prime')
def law_interp_4(a: Elt, s: NonzeroElt, t: NonzeroElt, r: NonzeroElt, ys: List(Elt, 4)):
  """the cubic through four points"""
  contract('starks.polynomial.polynomials_over', raw_polys)
  assume(s != t and s != r and t != r)
  f = lagrange_interp_4(field(), [a, a + s, a + t, a + r], ys)
  same(len(f.coefficients), 4)
  same(f(a), ys[0])
  same(f(a + s), ys[1])
  same(f(a + t), ys[2])
  same(f(a + r), ys[3])


@config(field='prime')
def law_multi_interp_4(a: Elt, s: NonzeroElt, t: NonzeroElt, r: NonzeroElt, ys: List(Elt, 4),
                       e: Elt, g: NonzeroElt, h: NonzeroElt, k: NonzeroElt, zs: List(Elt, 4)):
  """batched interpolation gives the cubic of every set, in order"""
  contract('starks.polynomial.polynomials_over', raw_polys)
  contract('starks.poly_utils.multi_inv', exact_inverses)
  assume(s != t and s != r and t != r)
  assume(g != h and g != k and h != k)
  o = multi_interp_4(field(), [[a, a + s, a + t, a + r], [e, e + g, e + h, e + k]], [ys, zs])
  same(len(o), 2)
  f, w = o
  same(len(f.coefficients), 4)
  same(f(a), ys[0])
  same(f(a + s), ys[1])
  same(f(a + t), ys[2])
  same(f(a + r), ys[3])
  same(w(e), zs[0])
  same(w(e + g), zs[1])
  same(w(e + h), zs[2])
  same(w(e + k), zs[3])


@config(field='prime')
def law_multi_interp_4_count(a: Elt, s: NonzeroElt, t: NonzeroElt, r: NonzeroElt, ys: List(Elt, 4)):
  """no sets, one set"""
  contract('starks.polynomial.polynomials_over', raw_polys)
  contract('starks.poly_utils.multi_inv', exact_inverses)
  assume(s != t and s != r and t != r)
  same(len(multi_interp_4(field(), [], [])), 0)
  o = multi_interp_4(field(), [[a, a + s, a + t, a + r]], [ys])
  same(len(o), 1)
  same(o[0](a), ys[0])
  same(o[0](a + r), ys[3])


@config(field='prime')
def law_interp(a: Elt, s: NonzeroElt, t: NonzeroElt, ys: List(Elt, 3)):
  """general interpolation through three points, relative to division (C09) and batch inversion"""
  contract('starks.polynomial.polynomials_over', ring_polys)
  contract('starks.poly_utils.multi_inv', exact_inverses)
  assume(s != t)
  f = lagrange_interp(field(), [a, a + s, a + t], ys)
  check(f.degree() < 3)
  same(f(a), ys[0])
  same(f(a + s), ys[1])
  same(f(a + t), ys[2])


@config(field='prime')
def law_interp_small(a: Elt, s: NonzeroElt, u: Elt, v: Elt):
  """general interpolation through one and two points"""
  contract('starks.polynomial.polynomials_over', ring_polys)
  contract('starks.poly_utils.multi_inv', exact_inverses)
  f = lagrange_interp(field(), [a], [u])
  same(f(a), u)
  check(f.degree() < 1)
  f = lagrange_interp(field(), [a, a + s], [u, v])
  check(f.degree() < 2)
  same(f(a), u)
  same(f(a + s), v)


@config(field='prime')
def law_interp_4_general(a: Elt, s: NonzeroElt, t: NonzeroElt, r: NonzeroElt, ys: List(Elt, 4)):
  """general interpolation through four points"""
  contract('starks.polynomial.polynomials_over', ring_polys)
  contract('starks.poly_utils.multi_inv', exact_inverses)
  assume(s != t and s != r and t != r)
  f = lagrange_interp(field(), [a, a + s, a + t, a + r], ys)
  check(f.degree() < 4)
  same(f(a), ys[0])
  same(f(a + s), ys[1])
  same(f(a + t), ys[2])
  same(f(a + r), ys[3])


@config(unroll=3000)
def law_multi_inv_large():
  """batches of many values, with zeros anywhere"""
  F = IntegersModP(101)
  for n, zeros in [(60, []), (64, [0]), (65, [64]), (100, [31, 32, 33]), (130, [0, 1, 129]), (101, [i for i in range(0, 101, 2)])]:
    vs = [F(0) if i in zeros else F(i % 100 + 1) for i in range(n)]
    r = multi_inv(F, vs)
    same(len(r), n)
    same([r[i] * vs[i] for i in range(n)], [F(0) if i in zeros else F(1) for i in range(n)])
    same([r[i] == 0 for i in zeros], [True for i in zeros])


@config(field='prime', unroll=300)
def law_multi_inv_wide(vs: List(NonzeroElt, 24), z: Bit):
  """a batch of two dozen unknown values"""
  r = multi_inv(field(), vs)
  same(len(r), 24)
  for i in (0, 1, 7, 8, 15, 16, 22, 23):
    same(r[i] * vs[i], 1)


@config(unroll=3000)
def law_zpoly_large():
  """vanishing polynomials of many roots"""
  contract('starks.polynomial.polynomials_over', raw_polys)
  F = IntegersModP(101)
  for rs in ([F(i) for i in range(1, 41)], [F(7) for i in range(20)], [F(3 * i + 2) for i in range(70)]):
    z = zpoly(F, rs)
    same(len(z.coefficients), len(rs) + 1)
    cs = [1]
    for r in rs:
      cs = [((cs[i - 1] if i > 0 else 0) - r.n * (cs[i] if i < len(cs) else 0)) % 101 for i in range(len(cs) + 1)]
    same([c.n for c in z.coefficients], cs)


@config(unroll=3000)
def law_interp_large():
  """interpolation through many points"""
  contract('starks.poly_utils.multi_inv', exact_inverses)
  F = IntegersModP(101)
  for n in (5, 9):
    xs = [F(5 * i + 3) for i in range(n)]
    ys = [F(i * i + 7 * i + 2 if i % 3 != 2 else 0) for i in range(n)]
    f = lagrange_interp(F, xs, ys)
    same([f(x).n for x in xs], [y.n for y in ys])
    check(f.degree() < n)


@config(unroll=3000)
def law_multi_interp_4_large():
  """batched interpolation of many sets"""
  contract('starks.polynomial.polynomials_over', raw_polys)
  contract('starks.poly_utils.multi_inv', exact_inverses)
  F = IntegersModP(101)
  for n in (5, 17):
    xs = [[F(i + 20 * j + (j * j if j > 2 else 0)) for j in range(4)] for i in range(n)]
    ys = [[F(i * j + 3 * i + j) for j in range(4)] for i in range(n)]
    o = multi_interp_4(F, xs, ys)
    same(len(o), n)
    same([[o[i](xs[i][j]).n for j in range(4)] for i in range(n)], [[ys[i][j].n for j in range(4)] for i in range(n)])


def law_multi_interp_4_zero():
  """sets whose values are all zero or all the same keep their place"""
  contract('starks.polynomial.polynomials_over', raw_polys)
  contract('starks.poly_utils.multi_inv', exact_inverses)
  F = IntegersModP(101)
  xs = [[F(i) for i in (1, 2, 3, 4)], [F(i) for i in (5, 6, 0, 8)], [F(i) for i in (9, 20, 33, 47)]]
  vs = [[0, 0, 0, 0], [9, 3, 2, 5], [7, 7, 7, 7], [0, 0, 0, 1], [1, 0, 0, 0]]
  for i, j, k in [(0, 1, 2), (1, 0, 3), (3, 4, 0), (0, 0, 0), (0, 0, 1), (2, 2, 1), (4, 0, 0)]:
    a, b, c = vs[i], vs[j], vs[k]
    o = multi_interp_4(F, xs, [[F(v) for v in a], [F(v) for v in b], [F(v) for v in c]])
    same(len(o), 3)
    same([[o[t](x).n for x in xs[t]] for t in range(3)], [a, b, c])


def law_interp_4_zero():
  """the same for single sets, of two, four and any number of points"""
  contract('starks.polynomial.polynomials_over', raw_polys)
  contract('starks.poly_utils.multi_inv', exact_inverses)
  F = IntegersModP(101)
  xs = [F(i) for i in (5, 6, 0, 8)]
  for a in ([0, 0, 0, 0], [9, 3, 2, 5], [7, 7, 7, 7], [0, 0, 0, 1], [1, 0, 0, 0], [0, 4, 4, 0]):
    f = lagrange_interp_4(F, xs, [F(v) for v in a])
    same([f(x).n for x in xs], a)
    f = lagrange_interp_2(F, xs[:2], [F(v) for v in a[:2]])
    same([f(x).n for x in xs[:2]], a[:2])
    f = lagrange_interp_2(F, xs[2:], [F(v) for v in a[:2]])
    same([f(x).n for x in xs[2:]], a[:2])


def law_interp_zero():
  """general interpolation of zero and constant values"""
  contract('starks.poly_utils.multi_inv', exact_inverses)
  F = IntegersModP(101)
  xs = [F(i) for i in (5, 6, 0, 8)]
  for a in ([0, 0, 0, 0], [9, 3, 2, 5], [7, 7, 7, 7], [0, 0, 0, 1], [1, 0, 0, 0], [0, 4, 4, 0]):
    f = lagrange_interp(F, xs, [F(v) for v in a])
    same([f(x).n for x in xs], a)
    check(f.degree() < 4)


@config(unroll=300)
def law_zpoly_repeated():
  """a root given twice is a double root"""
  contract('starks.polynomial.polynomials_over', raw_polys)
  F = IntegersModP(101)
  for rs in ([3, 5, 3], [3, 3], [0, 0, 0], [4, 0, 4, 0], [1, 1, 1, 1], [104, 3]):
    z = zpoly(F, [F(r) for r in rs])
    cs = [1]
    for r in rs:
      cs = [((cs[i - 1] if i > 0 else 0) - r * (cs[i] if i < len(cs) else 0)) % 101 for i in range(len(cs) + 1)]
    same([c.n for c in z.coefficients], cs)
