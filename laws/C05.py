"""Integers mod p."""
from starks.modp import IntegersModP


def law_construct(p: Modulus, a: Int):
  """an element is stored as its residue"""
  x = IntegersModP(p)(a)
  same(x.n, a % p)
  same(int(x), a % p)
  same(x.p, p)


def law_construct_from_element(p: Modulus, a: Int):
  """an element built from an element is the same element"""
  K = IntegersModP(p)
  same(K(K(a)).n, a % p)


def law_construct_bool(p: Modulus, a: Bool):
  """booleans are integers"""
  same(IntegersModP(p)(a).n, (1 if a else 0) % p)


def law_bytes(p: Modulus, b: Bytes(32)):
  """decoding bytes gives a reduced element"""
  K = IntegersModP(p)
  same(K(b).n, int.from_bytes(b, 'big') % p)


def law_add(p: Modulus, a: Int, b: Int):
  """addition is integer addition modulo p, on elements and mixed operands"""
  K = IntegersModP(p)
  same((K(a) + K(b)).n, (a + b) % p)
  same((K(a) + b).n, (a + b) % p)
  same((a + K(b)).n, (a + b) % p)


def law_sub(p: Modulus, a: Int, b: Int):
  """subtraction is integer subtraction modulo p, on elements and mixed operands"""
  K = IntegersModP(p)
  same((K(a) - K(b)).n, (a - b) % p)
  same((K(a) - b).n, (a - b) % p)
  same((a - K(b)).n, (a - b) % p)


def law_mul(p: Modulus, a: Int, b: Int):
  """multiplication is integer multiplication modulo p, on elements and mixed operands"""
  K = IntegersModP(p)
  same((K(a) * K(b)).n, (a * b) % p)
  same((K(a) * b).n, (a * b) % p)
  same((a * K(b)).n, (a * b) % p)


def law_neg(p: Modulus, a: Int):
  """negation is integer negation modulo p"""
  K = IntegersModP(p)
  same((-K(a)).n, (-a) % p)


def law_eq(p: Modulus, a: Int, b: Int):
  """equality is congruence modulo p"""
  K = IntegersModP(p)
  same(K(a) == K(b), a % p == b % p)
  same(K(a) == b, a % p == b % p)
  same(K(a) != K(b), a % p != b % p)
  same(K(a) != b, a % p != b % p)


def law_divmod(p: Modulus, a: Int, b: Int):
  """divmod is integer divmod of the residues"""
  assume(b % p != 0)
  K = IntegersModP(p)
  q, r = divmod(K(a), K(b))
  same(q.n, (a % p) // (b % p) % p)
  same(r.n, (a % p) % (b % p) % p)


def law_inverse(p: Modulus, a: Int):
  """an element times its inverse is one"""
  contract('starks.euclidean.extended_euclidean_algorithm', egcd)
  x, y, d = egcd(a % p, p)
  assume(d == 1)
  K = IntegersModP(p)
  i = K(a).inverse()
  same((a * i.n) % p, 1)
  same((K(a) * i).n, 1)
  check(0 <= i.n)
  check(i.n < p)


def law_inverse_raises(p: Modulus, a: Int):
  """inverting a residue without inverse raises"""
  contract('starks.euclidean.extended_euclidean_algorithm', egcd)
  x, y, d = egcd(a % p, p)
  assume(d != 1)
  check(raised(lambda: IntegersModP(p)(a).inverse()))


def law_division(p: Modulus, a: Int, b: Int):
  """a quotient times its divisor is the dividend"""
  contract('starks.euclidean.extended_euclidean_algorithm', egcd)
  x, y, d = egcd(b % p, p)
  assume(d == 1)
  K = IntegersModP(p)
  q = K(a) / K(b)
  same((q.n * b) % p, a % p)
  q2 = a / K(b)
  same((q2.n * b) % p, a % p)


def law_division_raises(p: Modulus, a: Int, b: Int):
  """dividing by a residue without inverse raises"""
  contract('starks.euclidean.extended_euclidean_algorithm', egcd)
  x, y, d = egcd(b % p, p)
  assume(d != 1)
  check(raised(lambda: IntegersModP(p)(a) / IntegersModP(p)(b)))
  check(raised(lambda: a / IntegersModP(p)(b)))


def law_abs(p: Modulus, a: Int):
  """the valuation of an element is its residue"""
  same(abs(IntegersModP(p)(a)), a % p)


def law_iterate(p: Modulus):
  """iterating the field yields every element once, in order"""
  K = IntegersModP(p)
  same([x.n for x in K.__iter__()], list(range(p)))


def law_parameters(p: Modulus):
  """the class reports its size"""
  K = IntegersModP(p)
  same(K.p, p)
  same(K.field_size, p)
  same(K.m, 1)
