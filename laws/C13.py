"""The multiplicative fast Fourier transform."""
from starks.fft import NonBinaryFFT
from starks.fft import fft_1d
from starks.fft import mul_polys
from starks.fft import _fft
from starks.fft import _simple_ft
from starks.fft import int_to_bin_string
from starks.modp import IntegersModP


def ring_polys(ring):
  return polys()



def value(cs, x):
  y = field()(0)
  for i in range(len(cs)):
    y = y + cs[i] * x**i
  return y


def powers(w, n):
  return [w**i for i in range(n)]


@config(field='prime')
def law_simple(vs: List(Elt, 4), w: Elt):
  """the base case is the definition of the transform"""
  for n in range(1, 5):
    rs = powers(w, n)
    same(_simple_ft(vs[:n], rs), [sum([vs[j] * rs[(i * j) % n] for j in range(n)]) for i in range(n)])


@config(field='prime')
def law_base(vs: List(Elt, 4), w: Elt):
  """up to four values are transformed directly"""
  for n in range(1, 5):
    rs = powers(w, n)
    same(_fft(vs[:n], rs), [sum([vs[j] * rs[(i * j) % n] for j in range(n)]) for i in range(n)])


@config(field='prime')
def law_forward_1(a: Elt):
  """the root one"""
  same(fft_1d(field(), [a], field().p, field()(1)), [a])


@config(field='prime')
def law_forward_2(vs: List(Elt, 2), w: Root(2)):
  """order two"""
  same(fft_1d(field(), vs, field().p, w), [value(vs, w**i) for i in range(2)])


@config(field='prime')
def law_forward_4(vs: List(Elt, 4), w: Root(4)):
  """order four"""
  same(fft_1d(field(), vs, field().p, w), [value(vs, w**i) for i in range(4)])


@config(field='prime')
def law_forward_8(vs: List(Elt, 8), w: Root(8)):
  """order eight"""
  same(fft_1d(field(), vs, field().p, w), [value(vs, w**i) for i in range(8)])


@config(field='prime')
def law_forward_16(vs: List(Elt, 16), w: Root(16)):
  """order sixteen"""
  same(fft_1d(field(), vs, field().p, w), [value(vs, w**i) for i in range(16)])


@config(field='prime')
def law_padding(vs: List(Elt, 7), w: Root(8)):
  """short lists are padded with zeros to the order of the root"""
  for n in range(8):
    same(fft_1d(field(), vs[:n], field().p, w), [value(vs[:n], w**i) for i in range(8)])


@config(field='prime')
def law_unchanged(vs: List(Elt, 3), w: Root(4)):
  """padding does not change the list given"""
  a = list(vs)
  fft_1d(field(), a, field().p, w)
  fft_1d(field(), a, field().p, w, True)
  same(a, vs)


def scaled(n):
  """one over n"""
  return field()(1) / field()(n)


@config(field='prime')
def law_inverse_2(vs: List(Elt, 2), w: Root(2)):
  """order two"""
  r = fft_1d(field(), vs, field().p, w, True)
  same([2 * x for x in r], [value(vs, w**(2 - i)) for i in range(2)])


@config(field='prime')
def law_inverse_4(vs: List(Elt, 4), w: Root(4)):
  """the inverse transform is the transform at the inverse root, scaled"""
  r = fft_1d(field(), vs, field().p, w, True)
  same([4 * x for x in r], [value(vs, w**(4 - i)) for i in range(4)])


@config(field='prime')
def law_inverse_8(vs: List(Elt, 8), w: Root(8)):
  """the inverse transform is the transform at the inverse root, scaled"""
  r = fft_1d(field(), vs, field().p, w, True)
  same([8 * x for x in r], [value(vs, w**(8 - i)) for i in range(8)])


@config(field='prime')
def law_round_trip_4(vs: List(Elt, 4), w: Root(4)):
  """the inverse transform recovers the padded list"""
  for n in range(5):
    r = fft_1d(field(), fft_1d(field(), vs[:n], field().p, w), field().p, w, True)
    same(r, vs[:n] + [field()(0) for i in range(4 - n)])


@config(field='prime')
def law_round_trip_8(vs: List(Elt, 8), w: Root(8)):
  """the inverse transform recovers the list"""
  r = fft_1d(field(), fft_1d(field(), vs, field().p, w), field().p, w, True)
  same(r, vs)


@config(field='prime')
def law_class(f: Poly, w: Elt):
  """the solver transforms the coefficients with its own root"""
  contract('starks.polynomial.polynomials_over', ring_polys)
  seen = []

  def transform(F, vals, modulus, root_of_unity, inv=False):
    seen.append((vals, modulus, root_of_unity, inv))
    return vals
  contract('starks.fft.fft_1d', transform)
  s = NonBinaryFFT(field(), w)
  same(s.fft(f), f.coefficients)
  same(s.inv_fft(f.coefficients), f)
  same(seen, [(f.coefficients, field().p, w, False), (f.coefficients, field().p, w, True)])


@config(field='prime')
def law_product_4(a: List(Elt, 2), b: List(Elt, 2), w: Root(4)):
  """multiplication through the transform gives the product coefficients"""
  same(mul_polys(a, b, w), [a[0] * b[0], a[0] * b[1] + a[1] * b[0], a[1] * b[1], field()(0)])


@config(field='prime')
def law_product_8(a: List(Elt, 4), b: List(Elt, 3), w: Root(8)):
  """multiplication through the transform gives the product coefficients"""
  spec = []
  for k in range(8):
    c = field()(0)
    for i in range(4):
      for j in range(3):
        if i + j == k:
          c = c + a[i] * b[j]
    spec.append(c)
  same(mul_polys(a, b, w), spec)


def law_bits():
  """the binary digits of an index"""
  for n in [0, 1, 2, 3, 5, 6, 7, 8, 22, 31, 32, 255, 256, 1000]:
    same(int_to_bin_string(n), bin(n)[2:])


@config(field='prime')
def law_forward_32(vs: List(Elt, 32), w: Root(32)):
  """order thirty-two"""
  same(fft_1d(field(), vs, field().p, w), [value(vs, w**i) for i in range(32)])


@config(field='prime')
def law_inverse_16(vs: List(Elt, 16), w: Root(16)):
  """the inverse transform is the transform at the inverse root, scaled"""
  r = fft_1d(field(), vs, field().p, w, True)
  same([16 * x for x in r], [value(vs, w**(16 - i)) for i in range(16)])


@config(field='prime')
def law_round_trip_16(vs: List(Elt, 11), w: Root(16)):
  """the inverse transform recovers the padded list"""
  r = fft_1d(field(), fft_1d(field(), vs, field().p, w), field().p, w, True)
  same(r, vs + [field()(0) for i in range(5)])


@config(field='prime')
def law_product_16(a: List(Elt, 9), b: List(Elt, 8), w: Root(16)):
  """multiplication through the transform gives the product coefficients"""
  spec = []
  for k in range(16):
    c = field()(0)
    for i in range(9):
      for j in range(8):
        if i + j == k:
          c = c + a[i] * b[j]
    spec.append(c)
  same(mul_polys(a, b, w), spec)


@config(field='prime')
def law_multiples(vs: List(Elt, 3), w: Root(8)):
  """every root of the order is found, whatever power of it is used"""
  for k in [1, 3, 5, 7]:
    same(fft_1d(field(), vs, field().p, w**k), [value(vs, w**(k * i)) for i in range(8)])


def transformed(vs, w, n):
  return [sum([vs[j] * pow(w, i * j, 257) for j in range(len(vs))]) % 257 for i in range(n)]


@config(unroll=3000)
def law_concrete_large():
  """orders 64 and 128: forward, inverse, and padding of short lists"""
  F = IntegersModP(257)
  for n, counts in [(64, (64, 63, 40, 1)), (128, (128, 70))]:
    w = pow(3, 256 // n, 257)
    for count in counts:
      vs = [(7 * i * i + 3 * i + 5) % 257 if i % 5 else 0 for i in range(count)]
      r = fft_1d(F, [F(v) for v in vs], 257, F(w))
      same([x.n for x in r], transformed(vs, w, n))
      r = fft_1d(F, r, 257, F(w), True)
      same([x.n for x in r], vs + [0 for i in range(n - count)])


@config(unroll=3000)
def law_product_large():
  """products of long coefficient lists"""
  F = IntegersModP(257)
  for n, k, l in [(64, 40, 25), (64, 1, 64), (64, 32, 33)]:
    w = pow(3, 256 // n, 257)
    a = [(5 * i + 1) % 257 for i in range(k)]
    b = [(3 * i * i + 2) % 257 for i in range(l)]
    r = mul_polys([F(x) for x in a], [F(x) for x in b], F(w))
    same([x.n for x in r], [sum([a[i] * b[j - i] for i in range(k) if 0 <= j - i < l]) % 257 for j in range(n)])
