"""Floating-point operators over an abstract field of significands and exponents."""
from starks.floatingpoint import FloatingPoint
from starks.floatingpoint import num_to_binary_list

CONFIG = {'field': 'prime'}


class Deg(object):

  def __init__(self, x):
    self.x = x

  def degree(self):
    return uf('degree', 'int', self.x)


class El(object):
  """an element of the field, seen through its operators"""
  p = 2
  m = 8

  def __init__(self, x):
    if isinstance(x, list):
      if x == [0]:
        self.x = field()(0)
      elif x == [1]:
        self.x = field()(1)
      else:
        self.x = uf('encode', 'ring', x)
    elif isinstance(x, Bits):
      self.x = uf('bits', 'ring', x.k)
    else:
      self.x = x
    self.poly = Deg(self.x)

  def __eq__(self, o):
    return self.x == o.x

  def __ne__(self, o):
    return not self.x == o.x

  def __add__(self, o):
    return El(self.x + El(o).x) if isinstance(o, (Bits, list)) else El(self.x + o.x)

  def __sub__(self, o):
    return El(self.x - o.x)

  def __mul__(self, o):
    return El(self.x * o.x)

  def __truediv__(self, o):
    return El(self.x * o.x.inverse())

  def inverse(self):
    return El(self.x.inverse())

  def LT(self, o):
    return 1 if uf('less', 'bool', self.x, o.x) else 0

  def two_pow(self):
    return El(uf('twopow', 'ring', self.x))


class Bits(object):

  def __init__(self, k):
    self.k = k


def coefficients(R):
  return value_of


def value_of(cs):
  return cs


def binary(k):
  return Bits(k)


def ring(p):
  return None


def setup():
  contract('starks.polynomial.polynomials_over', coefficients)
  contract('starks.modp.IntegersModP', ring)
  contract('starks.floatingpoint.num_to_binary_list', binary)
  return FloatingPoint(El)


def parts(f):
  return (f.v.x, f.p.x, f.z, f.s)


def law_construct(v: Elt, p: Elt, z: Bit, s: Bit):
  """the four parts are stored"""
  F = setup()
  same(parts(F(El(v), El(p), z, s)), (v, p, z, s))


def law_add_zero_left(v: Elt, p: Elt, s: Bit, w: Elt, q: Elt, z: Bit, t: Bit):
  """0 + B is B"""
  F = setup()
  same(parts(F(El(v), El(p), 1, s) + F(El(w), El(q), z, t)), (w, q, z, t))


def law_add_zero_right(v: Elt, p: Elt, s: Bit, w: Elt, q: Elt, t: Bit):
  """A + 0 is A"""
  F = setup()
  same(parts(F(El(v), El(p), 0, s) + F(El(w), El(q), 1, t)), (v, p, 0, s))


def law_add(v: Elt, p: Elt, s: Bit, w: Elt, q: Elt, t: Bit):
  """the sum of nonzero numbers aligns the larger exponent to the smaller one"""
  F = setup()
  r = F(El(v), El(p), 0, s) + F(El(w), El(q), 0, t)
  plt = uf('less', 'bool', p, q)
  vlt = uf('less', 'bool', v, w)
  other = vlt if p == q else plt
  lo, hi, sign = (v, w, t) if other else (w, v, s)
  pl, ph = (p, q) if plt else (q, p)
  near = uf('less', 'bool', ph - pl, uf('bits', 'ring', 8))
  out = hi * uf('twopow', 'ring', ph - pl) + lo if near else hi
  same(r.v.x, out)
  same(r.p.x, pl if near else ph)
  same(r.s, sign)
  same(r.z, 1 if out == field()(0) else 0)


def law_sub(v: Elt, p: Elt, y: Bit, s: Bit, w: Elt, q: Elt, z: Bit, t: Bit):
  """A - B is A plus B with the sign flipped"""
  F = setup()
  same(parts(F(El(v), El(p), y, s) - F(El(w), El(q), z, t)),
       parts(F(El(v), El(p), y, s) + F(El(w), El(q), z, 1 - t)))


def law_mul(v: Elt, p: Elt, y: Bit, s: Bit, w: Elt, q: Elt, z: Bit, t: Bit):
  """sign, zero flag, significand and exponent of a product"""
  F = setup()
  r = F(El(v), El(p), y, s) * F(El(w), El(q), z, t)
  zero = y == 1 or z == 1
  same(r.z, 1 if zero else 0)
  same(r.s, 1 if s != t else 0)
  same(r.v.x, field()(0) if zero else v * w)
  shift = uf('degree', 'int', v) + uf('degree', 'int', w) - 7
  same(r.p.x, field()(0) if zero else p + q + uf('bits', 'ring', shift))


def law_div(v: Elt, p: Elt, y: Bit, s: Bit, w: NonzeroElt, q: Elt, t: Bit):
  """sign, zero flag, significand and exponent of a quotient"""
  F = setup()
  r = F(El(v), El(p), y, s) / F(El(w), El(q), 0, t)
  same(r.z, y)
  same(r.s, 1 if s != t else 0)
  same(r.v.x, field()(0) if y == 1 else v * w.inverse())
  shift = uf('degree', 'int', v) + uf('degree', 'int', w.inverse()) - 7
  same(r.p.x, field()(0) if y == 1 else p - q + uf('bits', 'ring', shift))


def law_div_by_zero(v: Elt, p: Elt, y: Bit, s: Bit, w: Elt, q: Elt, z: Bit, t: Bit):
  """dividing by a number that is flagged zero, or has significand zero, raises"""
  F = setup()
  assume(z == 1 or w == field()(0))
  check(raised(lambda: F(El(v), El(p), y, s) / F(El(w), El(q), z, t), 'ZeroDivisionError'))


def law_fixed(v: Elt, p: Elt, s: Bit):
  """a nonzero number is its significand times two to the exponent, with its sign"""
  F = setup()
  r = F(El(v), El(p), 0, s).Float_to_Fix()
  same((r[0].x, r[1]), (v * uf('twopow', 'ring', p), s))


def law_fixed_zero(v: Elt, p: Elt, s: Bit):
  """zero converts to zero"""
  F = setup()
  r = F(El(v), El(p), 1, s).Float_to_Fix()
  same((r[0].x, r[1]), (field()(0), 0))


def law_operands_kept(v: Elt, p: Elt, y: Bit, s: Bit, w: NonzeroElt, q: Elt, t: Bit):
  """operators leave their operands as they were"""
  F = setup()
  a, b = F(El(v), El(p), y, s), F(El(w), El(q), 0, t)
  for r in [a + b, b + a, a - b, b - a, a * b, b * a, a / b]:
    same((parts(a), parts(b)), ((v, p, y, s), (w, q, 0, t)))
  a.Float_to_Fix()
  same((parts(a), parts(b)), ((v, p, y, s), (w, q, 0, t)))


def law_binary():
  """bits of an index, lowest first"""
  for k in range(20):
    bs = num_to_binary_list(k)
    same(sum([bs[i] * 2**i for i in range(len(bs))]), k)
    check(k == 0 or bs[-1] == 1)
