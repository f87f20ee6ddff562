"""Rationals mod p."""
from starks.rationals_modp import RationalsModP


def one(a, b):
  return 1


def law_construct(p: Prime, a: Int, b: Int):
  """numerator and denominator are reduced and represent the fraction"""
  contract('starks.euclidean.gcd', gcd)
  assume(b % p != 0)
  x = RationalsModP(p)(a, b)
  same((x.m * b) % p, (a * x.n) % p)
  check(0 <= x.m)
  check(x.m < p)
  check(0 <= x.n)
  check(x.n < p)


def law_construct_integer(p: Prime, a: Int):
  """an integer is the fraction over one"""
  contract('starks.euclidean.gcd', gcd)
  x = RationalsModP(p)(a)
  same((x.m) % p, (a * x.n) % p)
  check(x.n % p != 0)


def law_construct_bytes(p: Prime, b: Bytes(64)):
  """decoding bytes gives the reduced fraction of the two halves"""
  contract('starks.euclidean.gcd', gcd)
  n = int.from_bytes(b[:32], 'big')
  d = int.from_bytes(b[32:], 'big')
  assume(d % p != 0)
  x = RationalsModP(p)(b)
  same((x.m * d) % p, (n * x.n) % p)
  check(0 <= x.m and x.m < p and 0 <= x.n and x.n < p)


def law_add(p: Prime, a: Int, b: Int, c: Int, d: Int):
  """a/b + c/d is (ad + cb)/bd modulo p"""
  contract('starks.euclidean.gcd', gcd)
  assume(b % p != 0)
  assume(d % p != 0)
  K = RationalsModP(p)
  s, t = K(a, b), K(c, d)
  x = s + t
  same((x.m * s.n * t.n) % p, ((s.m * t.n + t.m * s.n) * x.n) % p)
  check(0 <= x.m and x.m < p and 0 < x.n and x.n < p)


def law_sub(p: Prime, a: Int, b: Int, c: Int, d: Int):
  """a/b - c/d is (ad - cb)/bd modulo p"""
  contract('starks.euclidean.gcd', gcd)
  assume(b % p != 0)
  assume(d % p != 0)
  K = RationalsModP(p)
  s, t = K(a, b), K(c, d)
  x = s - t
  same((x.m * s.n * t.n) % p, ((s.m * t.n - t.m * s.n) * x.n) % p)
  check(0 <= x.m and x.m < p and 0 < x.n and x.n < p)


def law_mul(p: Prime, a: Int, b: Int, c: Int, d: Int):
  """a/b * c/d is ac/bd modulo p"""
  contract('starks.euclidean.gcd', gcd)
  assume(b % p != 0)
  assume(d % p != 0)
  K = RationalsModP(p)
  s, t = K(a, b), K(c, d)
  x = s * t
  same((x.m * s.n * t.n) % p, ((s.m * t.m) * x.n) % p)
  check(0 <= x.m and x.m < p and 0 < x.n and x.n < p)


def law_neg(p: Prime, a: Int, b: Int):
  """the negation of a/b is -a/b modulo p"""
  contract('starks.euclidean.gcd', gcd)
  assume(b % p != 0)
  K = RationalsModP(p)
  s = K(a, b)
  x = -s
  same((x.m * s.n) % p, (-s.m * x.n) % p)
  check(0 <= x.m and x.m < p and 0 < x.n and x.n < p)


def law_inverse(p: Prime, a: Int, b: Int):
  """the inverse of a/b is b/a modulo p"""
  contract('starks.euclidean.gcd', gcd)
  assume(b % p != 0)
  assume(a % p != 0)
  K = RationalsModP(p)
  s = K(a, b)
  x = s.inverse()
  same((x.m * s.m) % p, (s.n * x.n) % p)


def law_inverse_raises(p: Prime, a: Int, b: Int):
  """inverting a fraction with numerator zero raises"""
  contract('starks.euclidean.gcd', gcd)
  assume(b % p != 0)
  K = RationalsModP(p)
  same(raised(lambda: K(a, b).inverse()), a % p == 0)


def law_div(p: Prime, a: Int, b: Int, c: Int, d: Int):
  """a/b divided by c/d is ad/bc modulo p"""
  contract('starks.euclidean.gcd', gcd)
  assume(b % p != 0)
  assume(d % p != 0)
  assume(c % p != 0)
  K = RationalsModP(p)
  s, t = K(a, b), K(c, d)
  x = s / t
  same((x.m * s.n * t.m) % p, ((s.m * t.n) * x.n) % p)


def law_eq(p: Prime, a: Int, b: Int, c: Int, d: Int):
  """equality is cross-multiplied congruence and != is its negation"""
  contract('starks.euclidean.gcd', gcd)
  assume(b % p != 0)
  assume(d % p != 0)
  K = RationalsModP(p)
  s, t = K(a, b), K(c, d)
  same(s == t, (s.m * t.n) % p == (t.m * s.n) % p)
  same(s != t, (s.m * t.n) % p != (t.m * s.n) % p)
  same(s == t, (a * d) % p == (c * b) % p)
  same(s == c, a % p == (c * b) % p)


def law_mixed(p: Prime, a: Int, b: Int, c: Int):
  """integers are converted on either side"""
  contract('starks.euclidean.gcd', gcd)
  assume(b % p != 0)
  K = RationalsModP(p)
  x = K(a, b) + c
  same((x.m * b) % p, ((a + c * b) * x.n) % p)
  x = c + K(a, b)
  same((x.m * b) % p, ((a + c * b) * x.n) % p)
  x = c * K(a, b)
  same((x.m * b) % p, ((a * c) * x.n) % p)
  x = c - K(a, b)
  same((x.m * b) % p, ((c * b - a) * x.n) % p)


def law_add_unreduced(p: Prime, a: Int, b: Int, c: Int, d: Int):
  """with cancellation of common factors left out, sums are exactly (ad + cb)/bd"""
  contract('starks.euclidean.gcd', one)
  K = RationalsModP(p)
  x = K(a, b) + K(c, d)
  same(x.m, (a * d + c * b) % p)
  same(x.n, (b * d) % p)


def law_sub_unreduced(p: Prime, a: Int, b: Int, c: Int, d: Int):
  """with cancellation of common factors left out, differences are exactly (ad - cb)/bd"""
  contract('starks.euclidean.gcd', one)
  K = RationalsModP(p)
  x = K(a, b) - K(c, d)
  same(x.m, (a * d - c * b) % p)
  same(x.n, (b * d) % p)


def law_mul_unreduced(p: Prime, a: Int, b: Int, c: Int, d: Int):
  """with cancellation of common factors left out, products are exactly ac/bd"""
  contract('starks.euclidean.gcd', one)
  K = RationalsModP(p)
  x = K(a, b) * K(c, d)
  same(x.m, (a * c) % p)
  same(x.n, (b * d) % p)


def law_parts_unreduced(p: Prime, a: Int, b: Int, c: Int, d: Int):
  """with cancellation left out, construction, negation, inversion and equality are exact"""
  contract('starks.euclidean.gcd', one)
  K = RationalsModP(p)
  x = K(a, b)
  same(x.m, a % p)
  same(x.n, b % p)
  y = -K(a, b)
  same(y.m, (-a) % p)
  same(y.n, b % p)
  same(K(a, b) == K(c, d), (a * d) % p == (c * b) % p)
  assume(a % p != 0)
  z = K(a, b).inverse()
  same(z.m, b % p)
  same(z.n, a % p)
