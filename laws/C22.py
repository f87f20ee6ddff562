"""Multivariate polynomials."""
from starks.poly_utils import multivariates_over
from starks.poly_utils import make_multivar
from starks.poly_utils import project_to_univariate
from starks.multivariate_polynomial import add_power_tuples
from starks.multivariate_polynomial import sum_power_tuple
from starks.multivariate_polynomial import remove_zero_coefficients
from starks.poly_utils import construct_multivariate_dirac_delta
from starks.modp import IntegersModP
from starks.finitefield import FiniteField
from starks.polynomial import polynomials_over


def ring_polys(ring):
  return polys()


def law_power_tuples(xs: TupOf(Int), ys: TupOf(Int)):
  """exponent vectors add entry by entry"""
  n = len(xs)
  assume(len(ys) == n)
  same(add_power_tuples(xs, ys), tuple([xs[i] + ys[i] for i in range(n)]))


def law_total(xs: TupOf(Int)):
  """the degree of a monomial is the sum of its exponents"""
  same(sum_power_tuple(xs), sum(xs))


@config(field='prime')
def law_strip(a: Elt, b: Elt, c: Elt):
  """zero coefficients are removed, the others kept, the argument unchanged"""
  d = {(0, 1): a, (2, 0): b, (1, 1): c}
  r = remove_zero_coefficients(d)
  same((0, 1) in r, a != 0)
  same((2, 0) in r, b != 0)
  same((1, 1) in r, c != 0)
  same(len(d), 3)
  same(d[(0, 1)], a)


def nonzero(d):
  """no stored coefficient is zero"""
  ok = True
  for k in d:
    ok = ok and d[k] != 0
  return ok


@config(field='prime')
def law_construct(a: Elt, b: Elt):
  """constructing from coefficients drops the zero ones"""
  M = multivariates_over(field(), 2)
  x = M({(0, 1): a, (2, 0): b})
  same(x[(0, 1)], a)
  same(x[(2, 0)], b)
  same(x[(1, 1)], 0)
  same((0, 1) in x.coefficients, a != 0)
  same((2, 0) in x.coefficients, b != 0)
  same(x.is_zero(), a == 0 and b == 0)
  same(len(x), len(x.coefficients))


@config(field='prime')
def law_construct_factory(a: Elt, b: Elt):
  """the factory with coefficients is the constructor"""
  M = multivariates_over(field(), 2)
  x = M.factory({(0, 1): a, (2, 0): b})
  same(x[(0, 1)], a)
  same(x[(2, 0)], b)
  same((0, 1) in x.coefficients, a != 0)


@config(field='prime')
def law_construct_scalar(a: Elt, k: Int):
  """scalars are constant polynomials"""
  M = multivariates_over(field(), 3)
  same(M(a)[(0, 0, 0)], a)
  same(M(a)[(0, 0, 1)], 0)
  same((0, 0, 0) in M(a).coefficients, a != 0)
  same(M(k)[(0, 0, 0)], field()(k))
  same((0, 0, 0) in M(k).coefficients, field()(k) != 0)
  check(raised(lambda: M('x'), 'ValueError'))


@config(field='prime')
def law_copy(a: Elt, b: Elt):
  """constructing from a polynomial copies it"""
  M = multivariates_over(field(), 2)
  x = M({(0, 1): a, (2, 0): b})
  y = M(x)
  same(y[(0, 1)], a)
  same(y[(2, 0)], b)


@config(field='prime')
def law_add(a: Elt, b: Elt, c: Elt, d: Elt):
  """sums collect the coefficients of each exponent vector"""
  M = multivariates_over(field(), 2)
  x, y = M({(0, 1): a, (2, 0): b}), M({(2, 0): c, (1, 1): d})
  z = x + y
  same(z[(0, 1)], a)
  same(z[(2, 0)], b + c)
  same(z[(1, 1)], d)
  same(z[(0, 0)], 0)
  same((2, 0) in z.coefficients, b + c != 0)
  same((0, 1) in z.coefficients, a != 0)
  same((1, 1) in z.coefficients, d != 0)
  check(nonzero(z.coefficients))


@config(field='prime')
def law_sub(a: NonzeroElt, b: NonzeroElt, c: NonzeroElt, d: NonzeroElt):
  """differences subtract the coefficients of each exponent vector"""
  M = multivariates_over(field(), 2)
  x, y = M({(0, 1): a, (2, 0): b}), M({(2, 0): c, (1, 1): d})
  z = x - y
  same(z[(0, 1)], a)
  same(z[(2, 0)], b - c)
  same(z[(1, 1)], -d)
  same((2, 0) in z.coefficients, b - c != 0)
  check(nonzero(z.coefficients))
  check((x - x).is_zero())


@config(field='prime')
def law_neg(a: Elt, b: Elt):
  """negation"""
  M = multivariates_over(field(), 2)
  x = -M({(0, 1): a, (2, 0): b})
  same(x[(0, 1)], -a)
  same(x[(2, 0)], -b)
  same((2, 0) in x.coefficients, b != 0)


@config(field='prime')
def law_mul(a: NonzeroElt, b: NonzeroElt, c: NonzeroElt, d: NonzeroElt):
  """products collect the products of coefficients of each exponent vector"""
  M = multivariates_over(field(), 2)
  x, y = M({(0, 1): a, (1, 0): b}), M({(1, 0): c, (0, 1): d})
  z = x * y
  same(z[(1, 1)], a * c + b * d)
  same(z[(0, 2)], a * d)
  same(z[(2, 0)], b * c)
  same(z[(0, 0)], 0)
  same((1, 1) in z.coefficients, a * c + b * d != 0)
  check(nonzero(z.coefficients))


@config(field='prime')
def law_mul_constant(a: NonzeroElt, b: NonzeroElt, c: Elt, k: Int):
  """products with constants scale every coefficient"""
  M = multivariates_over(field(), 2)
  x = M({(0, 1): a, (3, 2): b, (0, 0): c})
  z = x * M(k)
  same(z[(0, 1)], a * k)
  same(z[(3, 2)], b * k)
  same(z[(0, 0)], c * k)
  w = M({(0, 0): b}) * x
  same(w[(0, 1)], b * a)
  same(w[(3, 2)], b * b)
  same(w[(0, 0)], b * c)


@config(field='prime')
def law_mul_zero(a: NonzeroElt, b: NonzeroElt):
  """a product with the zero polynomial is the zero polynomial"""
  M = multivariates_over(field(), 2)
  x = M({(0, 1): a, (3, 2): b})
  check((x * M({})).is_zero())
  check((M({}) * x).is_zero())


@config(field='prime')
def law_mixed(a: NonzeroElt, b: NonzeroElt, k: Int, c: Elt):
  """scalars act as constant polynomials on either side"""
  M = multivariates_over(field(), 2)
  x = M({(0, 1): a, (0, 0): b})
  same((x + k)[(0, 0)], b + k)
  same((k + x)[(0, 0)], b + k)
  same((x - k)[(0, 0)], b - k)
  same((k - x)[(0, 0)], k - b)
  same((k - x)[(0, 1)], -a)
  same((x * k)[(0, 1)], a * k)
  same((k * x)[(0, 1)], a * k)
  same((x + c)[(0, 0)], b + c)
  same((x * c)[(0, 1)], a * c)


@config(field='prime')
def law_degree(a: Elt, b: Elt, c: NonzeroElt):
  """the degree is the largest total degree of a monomial"""
  M = multivariates_over(field(), 3)
  same(M({(1, 2, 0): c, (0, 0, 1): c}).degree(), 3)
  same(M({(0, 0, 1): c, (1, 2, 1): c}).degree(), 4)
  same(M({(0, 0, 0): c}).degree(), 0)
  same(M({(1, 2, 0): a, (0, 1, 1): b, (0, 0, 0): c}).degree(), 3 if a != 0 else (2 if b != 0 else 0))


@config(field='prime')
def law_eval(a: Elt, b: Elt, c: Elt, x: Elt, y: Elt):
  """evaluation is the sum of coefficient times powers"""
  M = multivariates_over(field(), 2)
  f = M({(0, 1): a, (2, 3): b, (0, 0): c})
  same(f((x, y)), a * y + b * x**2 * y**3 + c)
  same(f([x, y]), a * y + b * x**2 * y**3 + c)


@config(field='prime')
def law_eval_variable(x: Elt, y: Elt, z: Elt):
  """the variables evaluate to the arguments; the zero polynomial to zero"""
  M = multivariates_over(field(), 3)
  one = field()(1)
  same(M({(1, 0, 0): one})((x, y, z)), x)
  same(M({(0, 1, 0): one})((x, y, z)), y)
  same(M({(0, 0, 1): one})((x, y, z)), z)
  same(M({})((x, y, z)), 0)


@config(field='prime')
def law_eval_arity(a: NonzeroElt, x: Elt, y: Elt, z: Elt):
  """a wrong number of arguments is refused"""
  M = multivariates_over(field(), 2)
  f = M({(0, 1): a, (2, 3): a})
  check(raised(lambda: f((x, y, z))))
  check(raised(lambda: f((x,))))
  check(raised(lambda: f(())))
  check(raised(lambda: M({})((x,))))


@config(field='prime')
def law_eval_homomorphic(a: NonzeroElt, b: NonzeroElt, c: NonzeroElt, d: NonzeroElt, x: Elt, y: Elt):
  """evaluating sums and products gives the sums and products of the values"""
  M = multivariates_over(field(), 2)
  f, g = M({(0, 1): a, (1, 0): b}), M({(1, 0): c, (1, 1): d})
  same((f + g)((x, y)), f((x, y)) + g((x, y)))
  same((f - g)((x, y)), f((x, y)) - g((x, y)))
  same((f * g)((x, y)), f((x, y)) * g((x, y)))
  same((-f)((x, y)), -f((x, y)))


@config(field='prime')
def law_iteration(a: NonzeroElt, b: NonzeroElt, c: NonzeroElt):
  """iteration gives every term once, in the order of the exponent vectors"""
  M = multivariates_over(field(), 2)
  f = M({(2, 0): a, (0, 3): b, (1, 1): c})
  same([t for t in f], [((0, 3), b), ((1, 1), c), ((2, 0), a)])


class Coeffs:
  def __init__(self, cs):
    self.coefficients = cs


@config(field='prime')
def law_lift(a: NonzeroElt, b: NonzeroElt, c: NonzeroElt, x: Elt, y: Elt, z: Elt):
  """lifting a univariate polynomial to a variable preserves its values"""
  f = Coeffs([a, b, c])
  for i in [0, 1, 2]:
    g = make_multivar(f, i, field(), 3)
    same(g((x, y, z)), a + b * (x, y, z)[i] + c * (x, y, z)[i]**2)


@config(field='prime')
def law_lift_terms(a: NonzeroElt, b: NonzeroElt, c: NonzeroElt):
  """the lifted polynomial has the same coefficients at the powers of the variable"""
  f = Coeffs([a, b, c])
  g = make_multivar(f, 1, field(), 3)
  same(g[(0, 0, 0)], a)
  same(g[(0, 1, 0)], b)
  same(g[(0, 2, 0)], c)
  same(len(g), 3)


@config(field='prime')
def law_lift_gaps(a: NonzeroElt, b: NonzeroElt, x: Elt, y: Elt, z: Elt):
  """coefficients that are zero leave out their power only"""
  for i in [0, 1, 2]:
    u = (x, y, z)[i]
    same(make_multivar(Coeffs([a, field()(0), b]), i, field(), 3)((x, y, z)), a + b * u**2)
    same(make_multivar(Coeffs([field()(0), field()(0), a]), i, field(), 3)((x, y, z)), a * u**2)
    same(make_multivar(Coeffs([field()(0), a, field()(0), b]), i, field(), 3)((x, y, z)), a * u + b * u**3)


@config(field='prime')
def law_lift_any(a: Elt, b: Elt, c: Elt, d: NonzeroElt, x: Elt, y: Elt, z: Elt):
  """any coefficients below the leading one"""
  for i in [0, 1, 2]:
    u = (x, y, z)[i]
    same(make_multivar(Coeffs([a, b, c, d]), i, field(), 3)((x, y, z)), a + b * u + c * u**2 + d * u**3)


@config(field='prime')
def law_lift_high(a: Elt, b: NonzeroElt):
  """high powers of the variable stay apart, whatever the characteristic"""
  o = field()(0)
  for n in [3, 4, 5, 6, 7, 8, 9, 16]:
    g = make_multivar(Coeffs([a] + [o] * (n - 1) + [field()(1)]), 1, field(), 3)
    same(g[(0, n, 0)], field()(1))
    same(g[(0, 0, 0)], a)
    g = make_multivar(Coeffs([o, b] + [o] * (n - 2) + [b]), 0, field(), 2)
    same(g[(n, 0)], b)
    same(g[(1, 0)], b)
    same(len(g), 2)


def law_lift_concrete():
  """powers at and beyond the size of a field with few elements"""
  for p in [2, 3, 5]:
    K = IntegersModP(p)
    for n in [2, 3, 4, 5, 6]:
      g = make_multivar(Coeffs([K(1)] + [K(0)] * (n - 1) + [K(1)]), 1, K, 2)
      same(g[(0, n)], K(1))
      same(g[(0, 0)], K(1))
      same(len(g), 2)
      h = project_to_univariate(g, 1, K, 2)
      same(h.degree(), n)


@config(field='prime')
def law_ring(a: NonzeroElt, b: NonzeroElt, c: NonzeroElt):
  """addition and multiplication commute, multiplication distributes"""
  M = multivariates_over(field(), 2)
  x, y, z = M({(0, 1): a}), M({(1, 0): b}), M({(1, 1): c})
  for k in [(0, 1), (1, 0), (1, 1), (2, 1), (1, 2), (2, 2)]:
    same((x + y)[k], (y + x)[k])
    same((x * y)[k], (y * x)[k])
    same(((x + y) * z)[k], (x * z + y * z)[k])
    same(((x * y) * z)[k], (x * (y * z))[k])


@config(field='prime')
def law_project(a: NonzeroElt, b: NonzeroElt, c: NonzeroElt, d: NonzeroElt):
  """projecting to one variable collects the terms by its exponent, as polynomials in the others"""
  f = multivariates_over(field(), 3)({(2, 0, 1): a, (0, 3, 0): b, (1, 1, 0): c, (2, 2, 2): d})
  g = project_to_univariate(f, 0, field(), 3)
  same(g.degree(), 2)
  same((g.coefficients[0][(3, 0)], g.coefficients[1][(1, 0)], g.coefficients[2][(0, 1)], g.coefficients[2][(2, 2)]), (b, c, a, d))
  same([len(x) for x in g.coefficients], [1, 1, 2])
  g = project_to_univariate(f, 1, field(), 3)
  same(g.degree(), 3)
  same((g.coefficients[0][(2, 1)], g.coefficients[1][(1, 0)], g.coefficients[2][(2, 2)], g.coefficients[3][(0, 0)]), (a, c, d, b))
  same([len(x) for x in g.coefficients], [1, 1, 1, 1])
  g = project_to_univariate(f, 2, field(), 3)
  same(g.degree(), 2)
  same((g.coefficients[0][(0, 3)], g.coefficients[0][(1, 1)], g.coefficients[1][(2, 0)], g.coefficients[2][(2, 2)]), (b, c, a, d))
  same([len(x) for x in g.coefficients], [2, 1, 1])


@config(field='prime')
def law_project_high(a: NonzeroElt, b: NonzeroElt, c: NonzeroElt):
  """high powers of any variable stay apart, whatever the characteristic"""
  for n in [3, 4, 5, 6, 7, 8, 9, 16]:
    for i in [0, 1, 2]:
      e, h, l = [0, 1, 2], [0, 1, 2], [3, 1, 2]
      e[i], h[i], l[i] = n, n - 1, 1
      g = project_to_univariate(multivariates_over(field(), 3)({tuple(e): a, tuple(h): b, tuple(l): c}), i, field(), 3)
      same(g.degree(), n)
      same(g.coefficients[n][tuple(e[:i] + e[i + 1:])], a)
      same(g.coefficients[n - 1][tuple(h[:i] + h[i + 1:])], b)
      same(g.coefficients[1][tuple(l[:i] + l[i + 1:])], c)


@config(field='prime')
def law_project_values(a: NonzeroElt, b: NonzeroElt, c: NonzeroElt, x: Elt, y: Elt, z: Elt):
  """the projection takes the same values"""
  f = multivariates_over(field(), 3)({(2, 0, 1): a, (0, 1, 0): b, (1, 1, 0): c})
  for i, v, rest in [(0, x, (y, z)), (1, y, (x, z)), (2, z, (x, y))]:
    g = project_to_univariate(f, i, field(), 3)
    r = field()(0)
    for k, q in enumerate(g.coefficients):
      r += q(rest) * v**k
    same(r, f((x, y, z)))


@config(field='prime')
def law_project_zero():
  """the projection of the zero polynomial is the zero polynomial"""
  g = project_to_univariate(multivariates_over(field(), 2)({}), 0, field(), 2)
  check(g.is_zero())


@config(field='prime')
def law_remainder(a: NonzeroElt, b: NonzeroElt, c: NonzeroElt, d: NonzeroElt):
  """the remainder is the polynomial minus divisor times quotient"""
  M = multivariates_over(field(), 2)
  f, y, z = M({(1, 0): a, (0, 1): b}), M({(0, 1): c}), M({(0, 0): d, (1, 0): a})
  r = f.div_remainder(y, z)
  same([r[k] for k in [(1, 0), (0, 1), (1, 1)]], [a, b - c * d, -c * a])
  check(all(k in [(1, 0), (0, 1), (1, 1)] for k in r.coefficients))


def points(F, n):
  """all points over a field of the size of its characteristic"""
  ps = [()]
  for _ in range(n):
    ps = [q + (F(k),) for q in ps for k in range(F.p)]
  return ps


def law_delta():
  """a delta polynomial is one at its point and zero at every other"""
  for p, n in [(2, 1), (2, 2), (3, 1), (3, 2), (5, 1)]:
    F = IntegersModP(p)
    for y in points(F, n):
      f = construct_multivariate_dirac_delta(F, list(y), n)
      same([f(x).n for x in points(F, n)], [1 if [v.n for v in x] == [v.n for v in y] else 0 for x in points(F, n)])


def compiled(p, n, vs):
  F = IntegersModP(p)
  ps = points(F, n)

  def step(x):
    i = 0
    for v in x:
      i = i * p + v.n
    return F(vs[i])
  f = multivariates_over(F, n).factory(step_fn=step)
  same([f(x).n for x in ps], [v % p for v in vs])


def law_compiled_1(vs: List(Nat, 2)):
  """a polynomial compiled from a function of one variable has its values"""
  compiled(2, 1, vs)


def law_compiled_three():
  """a polynomial compiled from a function of one variable has its values: every function on three elements"""
  for k in range(27):
    compiled(3, 1, [k // 9, k // 3 % 3, k % 3])


def law_compiled_five():
  """a polynomial compiled from a function of one variable has its values: five elements"""
  for vs in [[3, 2, 1, 0, 4], [0, 2, 0, 4, 1], [1, 1, 1, 1, 1], [0, 0, 0, 0, 0], [0, 0, 3, 0, 0], [4, 0, 1, 1, 2]]:
    compiled(5, 1, vs)


def law_compiled_2(vs: List(Nat, 4)):
  """a polynomial compiled from a function of two variables has its values"""
  compiled(2, 2, vs)


def law_compiled_22():
  """a polynomial compiled from a function of two variables has its values: three elements"""
  compiled(3, 2, [1, 0, 2, 2, 1, 0, 0, 1, 1])


def law_compiled_extension():
  """a polynomial compiled over an extension field has the values of the function"""
  P = polynomials_over(IntegersModP(2))
  F = FiniteField(2, 2, P([1, 1, 1]))
  els = [F([i // 2, i % 2]) for i in range(4)]
  for vs in [[3, 0, 0, 1], [2, 2, 1, 0]]:
    def step(x):
      for i in range(4):
        if x[0] == els[i]:
          return els[vs[i]]
    f = multivariates_over(F, 1).factory(step_fn=step)
    for i in range(4):
      check(f((els[i],)) == els[vs[i]])


@config(field='prime', unroll=200)
def law_degree_large(c: NonzeroElt, d: NonzeroElt):
  """total degrees far beyond a hundred, carried by any monomial"""
  M = multivariates_over(field(), 3)
  same(M({(100, 200, 300): c, (0, 0, 1): d}).degree(), 600)
  same(M({(0, 0, 1): d, (100, 200, 300): c, (1000, 0, 0): c}).degree(), 1000)
  same(M({(70, 0, 40): c, (0, 0, 115): d, (50, 50, 18): c}).degree(), 118)
  coeffs = {(i, 2 * i, 0): c for i in range(90)}
  same(M(coeffs).degree(), 267)


@config(field='prime', unroll=400)
def law_eval_large(c: NonzeroElt, d: NonzeroElt, x: Elt, y: Elt):
  """evaluation with large exponents, and with many monomials"""
  M = multivariates_over(field(), 2)
  for i, j in [(8, 0), (9, 0), (0, 9), (16, 3), (0, 17), (20, 20), (33, 1), (65, 0)]:
    same(M({(i, j): c})((x, y)), c * x**i * y**j)
  same(M({(9, 0): c, (0, 12): d})((x, y)), c * x**9 + d * y**12)


@config(field='prime', unroll=400)
def law_mul_wide(c: NonzeroElt, d: NonzeroElt, e: NonzeroElt):
  """products of polynomials with many monomials and large exponents"""
  M = multivariates_over(field(), 2)
  f = M({(i, 0): c for i in range(70)})
  g = M({(0, 0): d, (0, 3): e})
  h = f * g
  same(len(h.coefficients), 140)
  for i in (0, 1, 20, 39, 40, 41, 63, 64, 69):
    same(h[(i, 0)], c * d)
    same(h[(i, 3)], c * e)
  h = g * f
  for i in (0, 40, 69):
    same(h[(i, 0)], c * d)
    same(h[(i, 3)], c * e)
  f = M({(100, 200): c, (300, 5): d}) * M({(7, 120): e, (0, 0): c})
  same(f[(107, 320)], c * e)
  same(f[(307, 125)], d * e)
  same(f[(100, 200)], c * c)
  same(f[(300, 5)], d * c)


@config(unroll=3000)
def law_mul_collect():
  """a product collects every contribution to an exponent vector"""
  F = IntegersModP(101)
  M = multivariates_over(F, 2)
  h = M({(i, 0): F(i + 1) for i in range(45)}) * M({(j, 0): F(2 * j + 3) for j in range(3)})
  same(len(h.coefficients), sum([1 for k in range(47) if sum([(i + 1) * (2 * (k - i) + 3) for i in range(45) if 0 <= k - i < 3]) % 101 != 0]))
  same([h[(k, 0)].n for k in range(47)],
       [sum([(i + 1) * (2 * (k - i) + 3) for i in range(45) if 0 <= k - i < 3]) % 101 for k in range(47)])


@config(field='prime', unroll=400)
def law_add_wide(c: NonzeroElt, d: NonzeroElt, u: NonzeroElt):
  """sums, differences and negations of polynomials with many monomials"""
  M = multivariates_over(field(), 2)
  f = M({(i, 1): c for i in range(70)})
  g = M({(i, 1): d for i in range(35, 105)})
  h = f + g
  k = f - g
  n = -f
  for i in (0, 1, 34):
    same(h[(i, 1)], c)
    same(k[(i, 1)], c)
    same(n[(i, 1)], -c)
  for i in (35, 40, 69):
    same(h[(i, 1)], c + d)
    same(k[(i, 1)], c - d)
    same(n[(i, 1)], -c)
  for i in (70, 71, 104):
    same(h[(i, 1)], d)
    same(k[(i, 1)], -d)


@config(field='prime', unroll=400)
def law_many_variables(c: NonzeroElt, d: NonzeroElt, x: Elt):
  """polynomials in many variables"""
  n = 12
  M = multivariates_over(field(), n)
  f = M({tuple(1 if i == 11 else 0 for i in range(n)): c, tuple(2 if i == 8 else 0 for i in range(n)): d})
  same(f.degree(), 2)
  same(f(tuple(x if i == 11 else field()(0) for i in range(n))), c * x)
  same(f(tuple(x if i == 8 else field()(0) for i in range(n))), d * x**2)
  g = f * M({tuple(1 if i == 10 else 0 for i in range(n)): d})
  same(g[tuple(1 if i >= 10 else 0 for i in range(n))], c * d)
  same(g[tuple(1 if i == 10 else (2 if i == 8 else 0) for i in range(n))], d * d)
