"""Operators and helpers leave their arguments as they were (for calls that return)."""
CONFIG = {'failures': 'ignore'}



class FRI(object):
  """stands for the low-degree proof"""

  def __init__(self, field):
    self.field = field

  def generate_proximity_proof(self, f, root_of_unity, maxdeg_plus_1, exclude_multiples_of=0):
    return [b'']

  def verify_proximity_proof(self, proof, merkle_root, root_of_unity, maxdeg_plus_1, exclude_multiples_of=0):
    return True


contract('starks.fri.FRI', FRI)

from starks.floatingpoint import FloatingPoint
from starks.modp import IntegersModP
from starks.rationals_modp import RationalsModP
from starks.polynomial import polynomials_over
from starks.polynomial import strip
from starks.finitefield import FiniteField
from starks.poly_utils import multivariates_over
from starks.poly_utils import multi_inv
from starks.poly_utils import zpoly
from starks.poly_utils import lagrange_interp
from starks.poly_utils import lagrange_interp_2
from starks.poly_utils import lagrange_interp_4
from starks.poly_utils import multi_interp_4
from starks.poly_utils import gauss
from starks.poly_utils import make_multivar
from starks.multivariate_polynomial import remove_zero_coefficients
from starks.fft import fft_1d
from starks.fft import mul_polys
from starks.fft import _fft
from starks.fft import _simple_ft
from starks.merkle_tree import permute4
from starks.merkle_tree import merkelize
from starks.merkle_tree import mk_branch
from starks.merkle_tree import verify_branch
from starks.merkle_tree import unpack_merkle_leaf
from starks.merkle_tree import merkelize_polynomial_evaluations
from starks.compression import compress_fri
from starks.compression import decompress_fri
from starks.compression import compress_branches
from starks.compression import decompress_branches
from starks.compression import bin_length
from starks.utils import mimc
from starks.utils import get_pseudorandom_indices
from starks.air import AIR
from starks.air import get_computational_trace
from starks.reedsolomon import AffineSpace
from starks.fri import AffineSubspaceFRI
from starks.fri import eval_on_subspace
from starks.fri import select_subspace
from starks.stark import STARK
from starks.stark import construct_trace_polynomials
from starks.stark import construct_constraint_polynomials
from starks.stark import construct_remainder_polynomials
from starks.stark import construct_boundary_polynomials
from starks.stark import compute_pseudorandom_linear_combination_1d
from starks.stark import compute_pseudorandom_linear_combination


def ring_polys(ring):
  return polys()


class MakePoly:
  def __init__(self, ring):
    self.ring = ring

  def __call__(self, c):
    return polys()(c)

  def factory(self, c):
    return polys()(c)


def make_polys(ring):
  return MakePoly(ring)


# ---- number types

def law_prime_field(p: Modulus, a: Int, b: Int, n: SmallGe(0)):
  """operators on residues"""
  K = IntegersModP(p)
  x, y = K(a), K(b)
  i, j = x.n, y.n
  x + y
  same((x.n, y.n), (i, j))
  x - y
  same((x.n, y.n), (i, j))
  x * y
  same((x.n, y.n), (i, j))
  -x
  x == y
  x != y
  x + 1
  1 + x
  1 - x
  2 * x
  same(x.n, i)
  same(y.n, j)


def law_prime_field_augmented(p: Modulus, a: Int, b: Int):
  """augmented assignment rebinds the name, another holder of the element keeps its value"""
  K = IntegersModP(p)
  x = K(a)
  old = x
  i = x.n
  x += K(b)
  x *= K(b)
  x -= K(b)
  same(old.n, i)


@config(field='prime')
def law_prime_power(p: SmallPrime, a: Int, b: Int):
  """power, inverse and division"""
  K = IntegersModP(p)
  x, y = K(a), K(b)
  i, j = x.n, y.n
  x**5
  x**2
  if y.n != 0:
    x / y
    y.inverse()
    y**(-1)
  same(x.n, i)
  same(y.n, j)


def law_rational_sum(p: Modulus, a: Int, b: Int, c: Int, d: Int):
  """operators on fractions"""
  contract('starks.euclidean.gcd', lambda a, b: uf('common', 'int', a, b))
  Q = RationalsModP(p)
  x, y = Q(a, b), Q(c, d)
  s = (x.m, x.n, y.m, y.n)
  x + y
  same((x.m, x.n, y.m, y.n), s)


def law_rational_difference(p: Modulus, a: Int, b: Int, c: Int, d: Int):
  """operators on fractions"""
  contract('starks.euclidean.gcd', lambda a, b: uf('common', 'int', a, b))
  Q = RationalsModP(p)
  x, y = Q(a, b), Q(c, d)
  s = (x.m, x.n, y.m, y.n)
  x - y
  same((x.m, x.n, y.m, y.n), s)


def law_rational_product(p: Modulus, a: Int, b: Int, c: Int, d: Int):
  """operators on fractions"""
  contract('starks.euclidean.gcd', lambda a, b: uf('common', 'int', a, b))
  Q = RationalsModP(p)
  x, y = Q(a, b), Q(c, d)
  s = (x.m, x.n, y.m, y.n)
  x * y
  same((x.m, x.n, y.m, y.n), s)


def law_rational_negation(p: Modulus, a: Int, b: Int, c: Int, d: Int):
  """operators on fractions"""
  contract('starks.euclidean.gcd', lambda a, b: uf('common', 'int', a, b))
  Q = RationalsModP(p)
  x, y = Q(a, b), Q(c, d)
  s = (x.m, x.n, y.m, y.n)
  -x
  same((x.m, x.n, y.m, y.n), s)


def law_rational_equality(p: Modulus, a: Int, b: Int, c: Int, d: Int):
  """operators on fractions"""
  contract('starks.euclidean.gcd', lambda a, b: uf('common', 'int', a, b))
  Q = RationalsModP(p)
  x, y = Q(a, b), Q(c, d)
  s = (x.m, x.n, y.m, y.n)
  x == y
  same((x.m, x.n, y.m, y.n), s)


def law_rational_inequality(p: Modulus, a: Int, b: Int, c: Int, d: Int):
  """operators on fractions"""
  contract('starks.euclidean.gcd', lambda a, b: uf('common', 'int', a, b))
  Q = RationalsModP(p)
  x, y = Q(a, b), Q(c, d)
  s = (x.m, x.n, y.m, y.n)
  x != y
  same((x.m, x.n, y.m, y.n), s)


@config(field='prime')
def law_polynomial(c: Seq(Elt), d: Seq(Elt), v: Elt):
  """operators on polynomials of any length"""
  R = polynomials_over(field())
  f, g = R(c), R(d)
  s, t = list(f.coefficients), list(g.coefficients)
  f + g
  same(f.coefficients, s)
  same(g.coefficients, t)
  f - g
  same(f.coefficients, s)
  same(g.coefficients, t)
  -f
  f == g
  f != g
  f.degree()
  abs(f)
  same(f.coefficients, s)
  same(g.coefficients, t)


@config(field='prime')
def law_polynomial_product(c: Seq(Elt), d: Seq(Elt)):
  """products of polynomials of any length"""
  R = polynomials_over(field())
  f, g = R(c), R(d)
  s, t = list(f.coefficients), list(g.coefficients)
  f * g
  same(f.coefficients, s)
  same(g.coefficients, t)


@config(field='prime')
def law_polynomial_value(c: Seq(Elt), v: Elt):
  """values of polynomials of any length"""
  f = polynomials_over(field())(c)
  s = list(f.coefficients)
  f(v)
  same(f.coefficients, s)


@config(field='prime')
def law_polynomial_values(c: List(Elt, 3), d: List(Elt, 2), v: Elt):
  """products and values"""
  R = polynomials_over(field())
  f, g = R(c), R(d)
  s, t = list(f.coefficients), list(g.coefficients)
  f * g
  f(v)
  f + v
  v * f
  f**2
  same(f.coefficients, s)
  same(g.coefficients, t)
  same(f * g, f * g)


@config(field='prime')
def law_polynomial_division(c: Elt, h: NonzeroElt, d: Elt, e: NonzeroElt):
  """division with remainder"""
  R = polynomials_over(field())
  f, g = R([c, h]), R([d, e])
  s, t = list(f.coefficients), list(g.coefficients)
  divmod(f, g)
  same(f.coefficients, s)
  same(g.coefficients, t)


@config(field='prime')
def law_polynomial_augmented(c: Seq(Elt), d: Seq(Elt)):
  """augmented assignment rebinds the name"""
  R = polynomials_over(field())
  f = R(c)
  old = f
  s = list(f.coefficients)
  f += R(d)
  f -= R(d)
  same(old.coefficients, s)


@config(field='prime')
def law_polynomial_list(c: Seq(Elt)):
  """the list a polynomial is made from keeps its entries, zeros at the end included"""
  a = list(c)
  f = polynomials_over(field())(a)
  g = f + f
  same(a, c)
  strip(a, field()(0))
  same(a, c)


@config(field='prime')
def law_polynomial_own_list(c: List(Elt, 2), d: Elt):
  """sums with a shorter or a zero polynomial do not share their coefficients with an operand that changes later"""
  R = polynomials_over(field())
  a = list(c)
  f = R(a)
  z = R([])
  s = f + z
  t = z + f
  u = s + R([d])
  v = t - R([d])
  same(f, R(c))
  same(s, R(c))
  same(t, R(c))


@config(field='prime')
def law_extension(m: PolyGe(2), a: Poly, b: Poly):
  """operators in an extension field"""
  contract('starks.polynomial.polynomials_over', ring_polys)
  contract('starks.modp.IntegersModP', lambda p: field())
  contract('starks.poly_utils.is_irreducible', lambda f, p: True)
  F = FiniteField(field().p, m.degree(), m)
  x, y = F(a), F(b)
  i, j = x.poly, y.poly
  x + y
  same((x.poly, y.poly), (i, j))
  x - y
  same((x.poly, y.poly), (i, j))
  x * y
  same((x.poly, y.poly), (i, j))
  -x
  x == y
  x != y
  same(x.poly, i)
  same(y.poly, j)


@config(field='prime')
def law_extension_list(m: PolyGe(2), c: Seq(Int)):
  """the list an element is made from"""
  contract('starks.polynomial.polynomials_over', ring_polys)
  contract('starks.modp.IntegersModP', lambda p: field())
  contract('starks.poly_utils.is_irreducible', lambda f, p: True)
  a = list(c)
  FiniteField(field().p, m.degree(), m)(a)
  same(a, c)


@config(field='prime')
def law_multivariate(a: Elt, b: Elt, c: Elt, d: Elt, u: Elt, v: Elt):
  """operators on multivariate polynomials"""
  M = multivariates_over(field(), 2)
  f = M({(0, 1): a, (2, 0): b})
  g = M({(0, 1): c, (1, 1): d})
  s, t = dict(f.coefficients), dict(g.coefficients)
  f + g
  same(f.coefficients, s)
  same(g.coefficients, t)
  f - g
  same(f.coefficients, s)
  same(g.coefficients, t)
  f * g
  same(f.coefficients, s)
  same(g.coefficients, t)
  -f
  f == g
  f != g
  f((u, v))
  f.degree()
  same(f.coefficients, s)
  same(g.coefficients, t)


@config(field='prime')
def law_multivariate_table(a: Elt, b: Elt):
  """the table a multivariate polynomial is made from"""
  d = {(0, 1): a, (2, 0): b}
  multivariates_over(field(), 2)(d)
  remove_zero_coefficients(d)
  same(d, {(0, 1): a, (2, 0): b})


@config(field='prime')
def law_multivariate_lift(c: List(Elt, 3)):
  """lifting a univariate polynomial"""
  g = Given(list(c))
  make_multivar(g, 0, field(), 2)
  same(g.coefficients, c)


class Given(object):
  """a polynomial seen through its coefficient list"""

  def __init__(self, cs):
    self.coefficients = cs


# ---- floating point

class Deg(object):

  def __init__(self, x):
    self.x = x

  def degree(self):
    return uf('degree', 'int', self.x)


class El(object):
  """an element of the field, seen through its operators"""
  p = 2
  m = 8

  def __init__(self, x):
    if isinstance(x, list):
      if x == [0]:
        self.x = field()(0)
      elif x == [1]:
        self.x = field()(1)
      else:
        self.x = uf('encode', 'ring', x)
    elif isinstance(x, Bits):
      self.x = uf('bits', 'ring', x.k)
    else:
      self.x = x
    self.poly = Deg(self.x)

  def __eq__(self, o):
    return self.x == o.x

  def __ne__(self, o):
    return not self.x == o.x

  def __add__(self, o):
    return El(self.x + El(o).x) if isinstance(o, (Bits, list)) else El(self.x + o.x)

  def __sub__(self, o):
    return El(self.x - o.x)

  def __mul__(self, o):
    return El(self.x * o.x)

  def __truediv__(self, o):
    return El(self.x * o.x.inverse())

  def inverse(self):
    return El(self.x.inverse())

  def LT(self, o):
    return 1 if uf('less', 'bool', self.x, o.x) else 0

  def two_pow(self):
    return El(uf('twopow', 'ring', self.x))


class Bits(object):

  def __init__(self, k):
    self.k = k


def floats():
  contract('starks.polynomial.polynomials_over', lambda R: lambda cs: cs)
  contract('starks.modp.IntegersModP', lambda p: None)
  contract('starks.floatingpoint.num_to_binary_list', lambda k: Bits(k))
  return FloatingPoint(El)


def parts(x):
  return (x.v.x, x.p.x, x.z, x.s)


@config(field='prime')
def law_float_sum(a: Elt, b: Elt, z: Bit, s: Bit, c: Elt, d: Elt, w: Bit, t: Bit):
  """sums of floating point numbers"""
  F = floats()
  x, y = F(El(a), El(b), z, s), F(El(c), El(d), w, t)
  i, j = parts(x), parts(y)
  r = x + y
  same(parts(x), i)
  same(parts(y), j)


@config(field='prime')
def law_float_difference(a: Elt, b: Elt, z: Bit, s: Bit, c: Elt, d: Elt, w: Bit, t: Bit):
  """differences of floating point numbers"""
  F = floats()
  x, y = F(El(a), El(b), z, s), F(El(c), El(d), w, t)
  i, j = parts(x), parts(y)
  x - y
  same(parts(x), i)
  same(parts(y), j)


@config(field='prime')
def law_float_product(a: Elt, b: Elt, z: Bit, s: Bit, c: Elt, d: Elt, w: Bit, t: Bit):
  """products of floating point numbers"""
  F = floats()
  x, y = F(El(a), El(b), z, s), F(El(c), El(d), w, t)
  i, j = parts(x), parts(y)
  x * y
  same(parts(x), i)
  same(parts(y), j)


@config(field='prime')
def law_float_quotient(a: Elt, b: Elt, z: Bit, s: Bit, c: NonzeroElt, d: Elt, t: Bit):
  """quotients of floating point numbers"""
  F = floats()
  x, y = F(El(a), El(b), z, s), F(El(c), El(d), 0, t)
  i, j = parts(x), parts(y)
  x / y
  same(parts(x), i)
  same(parts(y), j)


@config(field='prime')
def law_float_comparison(a: Elt, b: Elt, z: Bit, s: Bit, c: Elt, d: Elt, w: Bit, t: Bit):
  """comparison of floating point numbers"""
  F = floats()
  x, y = F(El(a), El(b), z, s), F(El(c), El(d), w, t)
  i, j = parts(x), parts(y)
  x == y
  same(parts(x), i)
  same(parts(y), j)


@config(field='prime')
def law_float_fixed(a: Elt, b: Elt, s: Bit):
  """conversion of zero to fixed point"""
  F = floats()
  x = F(El(a), El(b), 1, s)
  i = parts(x)
  x.Float_to_Fix()
  same(parts(x), i)


# ---- polynomial and matrix helpers

@config(field='prime')
def law_multi_inv(vs: Seq(Elt)):
  """batch inversion"""
  a = list(vs)
  multi_inv(field(), a)
  same(a, vs)


@config(field='prime')
def law_zpoly(vs: List(Elt, 3)):
  """vanishing polynomial"""
  contract('starks.polynomial.polynomials_over', make_polys)
  a = list(vs)
  r = zpoly(field(), a)
  same(a, vs)
  same(zpoly(field(), a), r)


@config(field='prime')
def law_lagrange(xs: List(Elt, 3), ys: List(Elt, 3)):
  """general interpolation"""
  contract('starks.polynomial.polynomials_over', make_polys)
  assume(xs[0] != xs[1])
  assume(xs[0] != xs[2])
  assume(xs[1] != xs[2])
  a, b = list(xs), list(ys)
  lagrange_interp(field(), a, b)
  same(a, xs)
  same(b, ys)


@config(field='prime')
def law_lagrange_2(xs: List(Elt, 2), ys: List(Elt, 2)):
  """interpolation of two points"""
  contract('starks.polynomial.polynomials_over', make_polys)
  assume(xs[0] != xs[1])
  a, b = list(xs), list(ys)
  lagrange_interp_2(field(), a, b)
  same(a, xs)
  same(b, ys)


@config(field='prime')
def law_lagrange_4(xs: List(Elt, 4), ys: List(Elt, 4)):
  """interpolation of four points"""
  contract('starks.polynomial.polynomials_over', make_polys)
  for i in range(4):
    for j in range(i):
      assume(xs[i] != xs[j])
  a, b = list(xs), list(ys)
  lagrange_interp_4(field(), a, b)
  same(a, xs)
  same(b, ys)


@config(field='prime')
def law_multi_interp(xs: List(Elt, 4), ys: List(Elt, 4)):
  """batched interpolation"""
  contract('starks.polynomial.polynomials_over', make_polys)
  for i in range(4):
    for j in range(i):
      assume(xs[i] != xs[j])
  a, b = [list(xs)], [list(ys)]
  multi_interp_4(field(), a, b)
  same(a, [xs])
  same(b, [ys])


@config(field='prime')
def law_gauss(r: List(Elt, 3), s: List(Elt, 3)):
  """elimination"""
  contract('starks.poly_utils.max', lambda a, b: 0)
  M = [list(r), list(s)]
  gauss(M, 2, field())
  same(M, [r, s])


# ---- transforms

@config(field='prime')
def law_transform_base(vs: List(Elt, 4), w: Root(4)):
  """the transform of four values"""
  a, b = list(vs), [w**i for i in range(4)]
  r = list(b)
  _simple_ft(a, b)
  _fft(a, b)
  same(a, vs)
  same(b, r)


@config(field='prime')
def law_transform(vs: List(Elt, 8), w: Root(8)):
  """the transform of eight values"""
  a, b = list(vs), [w**i for i in range(8)]
  r = list(b)
  _fft(a, b)
  same(a, vs)
  same(b, r)


@config(field='prime')
def law_transform_driver(vs: List(Elt, 7), w: Root(8)):
  """padding happens on a copy, in both directions"""
  a = list(vs)
  r = fft_1d(field(), a, field().p, w)
  s = fft_1d(field(), a, field().p, w, True)
  same(a, vs)
  same(fft_1d(field(), a, field().p, w), r)
  same(fft_1d(field(), a, field().p, w, True), s)


@config(field='prime')
def law_transform_full(vs: List(Elt, 8), w: Root(8)):
  """no padding needed"""
  a = list(vs)
  fft_1d(field(), a, field().p, w)
  fft_1d(field(), a, field().p, w, True)
  same(a, vs)


@config(field='prime')
def law_transform_product(u: List(Elt, 4), v: List(Elt, 2), w: Root(8)):
  """products through the transform"""
  a, b = list(u), list(v)
  r = mul_polys(a, b, w)
  same(a, u)
  same(b, v)
  same(mul_polys(a, b, w), r)


@config(field='prime')
def law_transform_product_full(u: List(Elt, 4), v: List(Elt, 4), w: Root(4)):
  """no padding needed"""
  a, b = list(u), list(v)
  mul_polys(a, b, w)
  same(a, u)
  same(b, v)


# ---- trees

def law_interleave(q: SmallGe(1), L: Seq(Int, 4 * q)):
  """interleaving"""
  a = list(L)
  permute4(a)
  same(a, L)


def law_tree(L: List(Bytes(32), 8)):
  """the tree over byte leaves"""
  a = list(L)
  t = merkelize(a)
  same(a, L)
  same(merkelize(a), t)


def law_tree_any(q: SmallGe(1), L: Seq(Bytes(32), 4 * q)):
  """the tree over any number of leaves"""
  a = list(L)
  merkelize(a)
  same(a, L)


class Leaf:
  def __init__(self, x):
    self.x = x

  def to_bytes(self):
    return uf('enc', 'bytes', self.x)


@config(field='prime')
def law_tree_elements(x: List(Elt, 4)):
  """the tree over field elements"""
  a = [Leaf(v) for v in x]
  b = list(a)
  merkelize(a)
  same(len(a), 4)
  for i in range(4):
    same(a[i].x, x[i])
    same(a[i] is b[i], True)


def law_branch(L: List(Bytes(32), 8)):
  """opening and verifying"""
  t = merkelize(L)
  s = list(t)
  for i in range(8):
    b = mk_branch(t, i)
    same(t, s)
    c = list(b)
    verify_branch(t[1], i, b)
    same(b, c)
    verify_branch(t[1], i, b)
    same(mk_branch(t, i), c)


def law_verify_any(root: Bytes(32), b: List(Bytes(32), 4), i: Below(8)):
  """verifying any branch, accepted or not"""
  a = list(b)
  try:
    verify_branch(root, i, a)
  except AssertionError:
    pass
  same(a, b)


def law_evaluations(a: List(Bytes(32), 4), b: List(Bytes(32), 4)):
  """packing evaluations"""
  K = [[Packed(x) for x in a], [Packed(x) for x in b]]
  merkelize_polynomial_evaluations(1, K)
  same(len(K), 2)
  for i in range(4):
    same(K[0][i].x, a[i])
    same(K[1][i].x, b[i])
  same(len(K[0]), 4)
  same(len(K[1]), 4)


class Packed:
  def __init__(self, x):
    self.x = x

  def to_bytes(self):
    return self.x


# ---- compression

def law_compress_branches(a: List(Bytes(32), 2), b: List(Bytes(32), 2)):
  """compressing branches"""
  x = [list(a), list(b)]
  try:
    o = compress_branches(x)
  except Exception:
    o = None
  same(x, [a, b])


def law_compress_shared(a: List(Bytes(32), 2), u: Bytes(32)):
  """branches with a common entry"""
  x = [list(a), [a[0], u], [u, a[1]]]
  try:
    o = compress_branches(x)
  except Exception:
    o = None
  same(x, [a, [a[0], u], [u, a[1]]])


def law_decompress_branches(a: Bytes(32), b: Bytes(32)):
  """decompressing twice"""
  x = [[a, b], [a, a]]
  o = compress_branches(x)
  p = list(o)
  r = decompress_branches(o)
  same(o, p)
  same(decompress_branches(o), r)


def law_compress_fri(r: Bytes(32), a: List(Bytes(32), 2), last: List(Bytes(32), 2)):
  """compressing a low-degree proof"""
  x = [[r, [[list(a)]]], list(last)]
  try:
    o = compress_fri(x)
  except Exception:
    o = None
  same(x, [[r, [[a]]], last])


def law_decompress_fri(r: Bytes(32), a: Bytes(32), b: Bytes(32), last: Bytes(32)):
  """decompressing twice"""
  x = [[r, [[[a, b]]]], [last]]
  o = compress_fri(x)
  p = list(o)
  d = decompress_fri(o)
  same(o, p)
  same(decompress_fri(o), d)


def law_bin_length(a: List(Bytes, 3)):
  """measuring"""
  x = list(a)
  bin_length(x)
  same(x, a)


# ---- challenges and programs

def law_mimc(x: Int, c: List(Int, 2)):
  """MiMC"""
  k = list(c)
  r = mimc(x, 4, k)
  same(k, c)
  same(mimc(x, 4, k), r)


@config(field='prime')
def law_trace(a: Elt, b: Elt, steps: SmallGe(1)):
  """the execution trace"""
  f = lambda s: uf('f', 'ring', s[0], s[1])
  g = lambda s: uf('g', 'ring', s[0], s[1])
  inp = [a, b]
  fs = [f, g]
  t, out = get_computational_trace(inp, steps, 2, fs)
  same(inp, [a, b])
  same(len(fs), 2)
  same(fs[0] is f, True)
  same(fs[1] is g, True)


@config(field='prime')
def law_trace_again(a: Elt, b: Elt):
  """the same trace again"""
  f = lambda s: uf('f', 'ring', s[0], s[1])
  g = lambda s: uf('g', 'ring', s[0], s[1])
  inp = [a, b]
  t, out = get_computational_trace(inp, 3, 2, [f, g])
  u, out2 = get_computational_trace(inp, 3, 2, [f, g])
  same(t, u)
  same(out, out2)


# ---- prover and verifier

@config(field='prime')
def law_trace_polynomials(u: List(Elt, 4), v: List(Elt, 4), w: Elt):
  """interpolating a trace"""
  contract('starks.fft.fft_1d', lambda F, vals, m, r, inv=False: [uf('t', 'ring', i, r) for i in range(4)])
  contract('starks.polynomial.polynomials_over', make_polys)
  x = [list(u), list(v)]
  construct_trace_polynomials(x, field(), w)
  same(x, [u, v])


@config(field='prime')
def law_remainders(c: Poly, last: Elt):
  """dividing the constraints"""
  contract('starks.polynomial.polynomials_over', ring_polys)
  x = [c * (X() - last), c]
  try:
    construct_remainder_polynomials(x, field(), 4, last)
  except AssertionError:
    pass
  same(x, [c * (X() - last), c])


@config(field='prime')
def law_combination(t: Poly, r: Poly, b: Poly, w: Elt):
  """the linear combination"""
  contract('starks.polynomial.polynomials_over', ring_polys)
  contract('starks.stark.get_pseudorandom_ks', lambda root, n: [uf('k', 'int', i) for i in range(4)])
  x, y, z = [t], [r], [b]
  compute_pseudorandom_linear_combination_1d(b'', t, r, b, w, 4, 32)
  compute_pseudorandom_linear_combination(b'', x, y, z, field(), w, 32, 4, 1)
  same(x, [t])
  same(y, [r])
  same(z, [b])


class Machine(object):
  """the parameters a verifier uses"""

  def __init__(self, field, width, steps, ext, g2, last, fs, samples):
    self.field = field
    self.width = width
    self.steps = steps
    self.extension_factor = ext
    self.precision = steps * ext
    self.G2 = g2
    self.last_step_position = last
    self.step_polys = fs
    self.spot_check_security_factor = samples
    self.checked = []

  def get_degree(self):
    return 3

  def verify_proof_at_position(self, witness, boundary, ks, proof, i, pos):
    self.checked.append((i, pos))


@config(field='prime')
def law_verify(root: Bytes, l_root: Bytes, g: Elt, last: Elt, ps: Seq(Nat), br: Seq(Bytes)):
  """verifying a proof leaves it, the witness and the boundary as they were"""
  contract('starks.stark.get_pseudorandom_ks', lambda root, n: [1, 2, 3, 4])
  contract('starks.stark.get_pseudorandom_indices', lambda *a, **k: ps)
  contract('starks.utils.get_pseudorandom_indices', lambda *a, **k: ps)
  m = Machine(field(), 1, 4, 8, g, last, [], 8)
  proof = [root, l_root, list(br), b'proof']
  w = [[g, last]]
  b = [(0, 0, g), (3, 0, last)]
  STARK.verify_proof(m, proof, w, b)
  same(proof, [root, l_root, br, b'proof'])
  same(w, [[g, last]])
  same(b, [(0, 0, g), (3, 0, last)])


@config(field='prime')
def law_verify_position(p: Elt, d: Elt, b: Elt, q: Elt, inp: Elt, out: Elt, g: Elt, last: Elt, pos: Nat):
  """verifying one position"""
  x = g**pos
  assume(x != last)
  contract('starks.merkle_tree.verify_branch', lambda root, index, proof, output_as_int=False: proof)
  contract('starks.merkle_tree.unpack_merkle_leaf', lambda leaf, n, k: [p, d, b] if leaf == b'1' else [q, d, b])
  contract('starks.poly_utils.lagrange_interp_2', lambda f, xs, ys: polys()([uf('l', 'ring', ys[0], ys[1])]))
  contract('starks.polynomial.polynomials_over', lambda r: polys())
  m = Machine(field(), 1, 4, 8, g, last, [lambda s: uf('f', 'ring', s[0])], 8)
  br = [b'1', b'2', b'3']
  proof = [b'm', b'l', br, b'']
  w = [[inp, out]]
  bd = [(0, 0, inp)]
  ks = [1, 2, 3, 4]
  try:
    STARK.verify_proof_at_position(m, w, bd, ks, proof, 0, pos)
  except AssertionError:
    pass
  same(proof, [b'm', b'l', [b'1', b'2', b'3'], b''])
  same(w, [[inp, out]])
  same(bd, [(0, 0, inp)])
  same(ks, [1, 2, 3, 4])


# ---- affine spaces and queries

class Scalars(object):
  """a field of two scalars"""
  p = 2
  m = 1

  def __call__(self, x):
    return field()(x)

  def __iter__(self):
    yield field()(0)
    yield field()(1)


@config(field='prime')
def law_space(b: List(Elt, 2), s: Elt):
  """enumerating a space"""
  a = list(b)
  A = AffineSpace(Scalars(), a, s)
  r = [x for x in A]
  same(a, b)
  same([x for x in A], r)
  same(A.shift, s)
  B = select_subspace(A, 1)
  same(a, b)
  same(len(A.basis), 2)


@config(field='prime')
def law_space_values(b: List(Elt, 2), s: Elt):
  """evaluating over a space"""
  A = AffineSpace(Scalars(), b, s)
  r = [x for x in A]
  eval_on_subspace(lambda x: uf('q', 'ring', x), A)
  same([x for x in A], r)


class Word(object):
  """a function given by its values"""

  def __init__(self, k):
    self.k = k

  def __call__(self, x):
    return uf('word', 'ring', self.k, x)


@config(field='prime')
def law_query(b: List(Elt, 1), s: Elt, cs: List(Elt, 2)):
  """a query does not extend the caller's list of oracles"""
  contract('starks.fri.select_random', lambda F, x: uf('challenge', 'ring', x))
  contract('starks.poly_utils.construct_affine_vanishing_polynomial', lambda F, A: Word(0))
  contract('starks.poly_utils.lagrange_interp', lambda F, xs, ys: Word(1))
  contract('starks.polynomial.polynomials_over', make_polys)
  K = Scalars()
  A = AffineSpace(K, b, s)
  fs = [Word(7)]
  c = list(cs)
  v = AffineSubspaceFRI(K, A, 2)
  v.query(fs, c)
  same(len(fs), 1)
  same(fs[0].k, 7)
  same(c, cs)
  same(A.basis, b)
  same(A.shift, s)
