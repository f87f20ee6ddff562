"""Taylor expansion at x^2 + x over the field of two elements."""
from starks.fft import Additive_FFT
from starks.finitefield import FiniteField
from starks.modp import IntegersModP
from starks.polynomial import polynomials_over


class Bits(object):
  """a polynomial with coefficients modulo two, without trailing zeros"""

  def __init__(self, cs):
    n = len(cs)
    while n > 0 and cs[n - 1] == 0:
      n -= 1
    self.coefficients = cs[:n]

  def degree(self):
    return len(self.coefficients) - 1


class El(object):
  """polynomials modulo two seen through the operators of a field of a degree beyond all of theirs"""

  def __init__(self, cs):
    self.poly = Bits(cs)

  def __add__(self, o):
    a, b = self.poly.coefficients, o.poly.coefficients
    return El([((a[i] if i < len(a) else 0) + (b[i] if i < len(b) else 0)) % 2 for i in range(max(len(a), len(b)))])

  def __sub__(self, o):
    return self + o

  def __mul__(self, o):
    a, b = self.poly.coefficients, o.poly.coefficients
    r = [0] * (len(a) + len(b))
    for i in range(len(a)):
      if a[i] == 1:
        for j in range(len(b)):
          if b[j] == 1:
            r[i + j] = 1 - r[i + j]
    return El(r)


def plain(ring):
  return lambda cs: list(cs)


def bits(k, n):
  return [(k >> i) & 1 for i in range(n)]


def leaves(v):
  """the parts of an expansion, in order"""
  if isinstance(v, tuple):
    return leaves(v[0]) + leaves(v[1])
  return [v.poly.coefficients]


def half_step(n):
  k = 0
  while 2**(k + 2) < n:
    k += 1
  return 2**k


def combined(v, n):
  """the polynomial with the given expansion, as a number whose binary digits are the coefficients"""
  if n <= 2:
    cs = v.poly.coefficients
    return sum([cs[i] << i for i in range(len(cs))])
  s = half_step(n)
  a, b = combined(v[0], n // 2), combined(v[1], n // 2)
  return a ^ (b << s) ^ (b << (2 * s))


def law_direct():
  """polynomials of degree below two are their own expansion"""
  contract('starks.polynomial.polynomials_over', plain)
  t = Additive_FFT(El)
  for n in (1, 2):
    for k in range(4):
      f = El(bits(k, 2))
      same(t.Taylor_Expansion(f, n).poly.coefficients, f.poly.coefficients)


@config(unroll=600)
def law_four():
  """all sixteen polynomials of degree below four: f = f0 + (x^2 + x) f1 with f0 and f1 of degree below two"""
  contract('starks.polynomial.polynomials_over', plain)
  t = Additive_FFT(El)
  for k in range(16):
    v = t.Taylor_Expansion(El(bits(k, 4)), 4)
    same(len(v), 2)
    same(len(leaves(v)), 2)
    same(combined(v, 4), k)
    check(max([len(c) for c in leaves(v)]) <= 2)


@config(unroll=3000)
def law_eight():
  """the polynomials of degree below eight"""
  contract('starks.polynomial.polynomials_over', plain)
  t = Additive_FFT(El)
  for k in list(range(0, 256, 3)) + [1, 2, 4, 8, 16, 32, 64, 128, 127, 254]:
    v = t.Taylor_Expansion(El(bits(k, 8)), 8)
    same(len(leaves(v)), 4)
    same(combined(v, 8), k)
    check(max([len(c) for c in leaves(v)]) <= 2)


@config(unroll=3000)
def law_large():
  """polynomials of degree below 16, 32 and 64"""
  contract('starks.polynomial.polynomials_over', plain)
  t = Additive_FFT(El)
  for n, ks in [(16, [2**i for i in range(16)] + [2**16 - 1, 43690, 21845, 40503]), (32, [2**31, 2**17 + 2**3, 2654435769, 2**32 - 1, 2**24]),
                (64, [2**63 + 2**40 + 1, 11400714819323198485])]:
    for k in ks:
      v = t.Taylor_Expansion(El(bits(k, n)), n)
      same(len(leaves(v)), n // 2)
      same(combined(v, n), k)
      check(max([len(c) for c in leaves(v)]) <= 2)


@config(unroll=3000)
def law_short():
  """polynomials of much lower degree than the bound given"""
  contract('starks.polynomial.polynomials_over', plain)
  t = Additive_FFT(El)
  for n in (4, 8, 16, 32):
    for k in range(8):
      v = t.Taylor_Expansion(El(bits(k, 3)), n)
      same(len(leaves(v)), n // 2)
      same(combined(v, n), k)
      check(max([len(c) for c in leaves(v)]) <= 2)


@config(unroll=600)
def law_field():
  """over the field of sixteen elements"""
  P = polynomials_over(IntegersModP(2))
  K = FiniteField(2, 4, P.factory([1, 1, 0, 0, 1]))
  t = Additive_FFT(K)
  for k in range(16):
    f = K(bits(k, 4))
    v = t.Taylor_Expansion(f, 4)
    same(len(v), 2)
    a, b = [[c.n for c in w.poly.coefficients] for w in v]
    check(len(a) <= 2)
    check(len(b) <= 2)
    b0, b1 = (b + [0, 0])[:2]
    a0, a1 = (a + [0, 0])[:2]
    same([a0, (a1 + b0) % 2, (b0 + b1) % 2, b1], bits(k, 4))
    same([c.n for c in f.poly.coefficients], Bits(bits(k, 4)).coefficients)


def law_unchanged():
  """the polynomial given is not changed"""
  contract('starks.polynomial.polynomials_over', plain)
  t = Additive_FFT(El)
  for k in (0, 5, 13, 255):
    f = El(bits(k, 8))
    t.Taylor_Expansion(f, 8)
    same(f.poly.coefficients, Bits(bits(k, 8)).coefficients)
