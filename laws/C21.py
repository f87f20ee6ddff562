"""Affine spaces."""
from starks.reedsolomon import AffineSpace
from starks.modp import IntegersModP
from starks.polynomial import polynomials_over
from starks.poly_utils import construct_affine_vanishing_polynomial
from starks.poly_utils import construct_affine_vanishing_polynomial_Moore
from starks.fri import eval_on_subspace

CONFIG = {'field': 'ring'}


class El:
  """A vector: sums and scalar multiples are kept apart."""

  def __init__(self, v):
    self.v = v

  def __add__(self, other):
    return El(self.v + other.v)


class Sc:
  """A scalar."""

  def __init__(self, c):
    self.c = c

  def __mul__(self, other):
    return El(self.c * other.v)


def scalars(xs):
  """a field whose elements are listed by xs"""

  return Scalars(xs)


class Scalars:

  def __init__(self, xs):
    self.xs = xs

  def __call__(self, n):
    return El(n)

  def __iter__(self):
    return iter([Sc(x) for x in self.xs])


def law_one(xs: List(Elt, 3), b: Elt, s: Elt):
  """one basis element: every scalar once, in the order of the field"""
  same([e.v for e in AffineSpace(scalars(xs), [El(b)], El(s))], [s + x * b for x in xs])


def law_one_any(xs: Seq(Elt), b: Elt, s: Elt):
  """one basis element over a field of any size"""
  same([e.v for e in AffineSpace(scalars(xs), [El(b)], El(s))], [s + x * b for x in xs])


def law_two(xs: List(Elt, 3), b: Elt, c: Elt, s: Elt):
  """two basis elements: the coefficient of the last one runs fastest"""
  same([e.v for e in AffineSpace(scalars(xs), [El(b), El(c)], El(s))], [s + x * b + y * c for x in xs for y in xs])


def law_three(xs: List(Elt, 2), b: List(Elt, 3), s: Elt):
  """three basis elements over a field of two elements"""
  same([e.v for e in AffineSpace(scalars(xs), [El(x) for x in b], El(s))],
       [s + x * b[0] + y * b[1] + z * b[2] for x in xs for y in xs for z in xs])


def law_four(xs: List(Elt, 2), b: List(Elt, 4), s: Elt):
  """four basis elements over a field of two elements"""
  same([e.v for e in AffineSpace(scalars(xs), [El(x) for x in b], El(s))],
       [s + x * b[0] + y * b[1] + z * b[2] + w * b[3] for x in xs for y in xs for z in xs for w in xs])


def law_three_ternary(xs: List(Elt, 3), b: List(Elt, 3), s: Elt):
  """three basis elements over a field of three elements"""
  same([e.v for e in AffineSpace(scalars(xs), [El(x) for x in b], El(s))],
       [s + x * b[0] + y * b[1] + z * b[2] for x in xs for y in xs for z in xs])


def law_empty(xs: Seq(Elt), s: Elt):
  """without basis elements only the shift is left"""
  same([e.v for e in AffineSpace(scalars(xs), [], El(s))], [s])


def law_no_shift(xs: List(Elt, 3), b: Elt, c: Elt):
  """an omitted shift is zero"""
  same([e.v for e in AffineSpace(scalars(xs), [El(b), El(c)])], [x * b + y * c for x in xs for y in xs])


def law_no_shift_empty(xs: Seq(Elt)):
  """an omitted shift is zero also without basis"""
  same([e.v for e in AffineSpace(scalars(xs), [])], [0])


def law_again(xs: List(Elt, 2), b: Elt, c: Elt, s: Elt):
  """iterating a second time gives the same elements"""
  a = AffineSpace(scalars(xs), [El(b), El(c)], El(s))
  first = [e.v for e in a]
  same([e.v for e in a], first)
  same(a.shift.v, s)
  same([x.v for x in a.basis], [b, c])


def law_prime_field_2(b: Int, c: Int, s: Int):
  """the space over the integers modulo two"""
  F = IntegersModP(2)
  a = AffineSpace(F, [F(b), F(c)], F(s))
  same([e.n for e in a], [(s + x * b + y * c) % 2 for x in range(2) for y in range(2)])
  same(len(a), 4)


def law_prime_field_3(b: Int, c: Int, s: Int):
  """the space over the integers modulo three"""
  F = IntegersModP(3)
  a = AffineSpace(F, [F(b), F(c)], F(s))
  same([e.n for e in a], [(s + x * b + y * c) % 3 for x in range(3) for y in range(3)])
  same(len(a), 9)


def law_prime_field(p: Prime, b: Int, s: Int):
  """a line over the integers modulo any prime"""
  F = IntegersModP(p)
  a = AffineSpace(F, [F(b)], F(s))
  same([e.n for e in a], [(s + x * b) % p for x in range(p)])
  same(len(a), p)


def law_prime_field_default(p: Prime, b: Int):
  """a line over the integers modulo any prime through zero"""
  F = IntegersModP(p)
  a = AffineSpace(F, [F(b)])
  same([e.n for e in a], [(x * b) % p for x in range(p)])


def law_size(p: Prime, bs: Seq(Int)):
  """the size is the size of the field to the number of basis elements"""
  F = IntegersModP(p)
  same(len(AffineSpace(F, [F(b) for b in bs])), p**len(bs))


def law_size_extension(q: Prime, k: Pos, bs: Seq(Elt)):
  """the size over a field of q^k elements"""
  class Big:
    p = q
    m = k

    def __call__(self, n):
      return n
  same(len(AffineSpace(Big(), bs)), (q**k)**len(bs))


def law_field_elements(p: Prime):
  """iterating a prime field yields every residue once, in order"""
  F = IntegersModP(p)
  same([x.n for x in F.__iter__()], [i for i in range(p)])


def law_polynomial_space():
  """polynomials of degree below two over the integers modulo three"""
  F = IntegersModP(3)
  P = polynomials_over(F)
  a = AffineSpace(F, [P([1]), P([0, 1])], P([0, 0, 1]))
  same([[c.n for c in e.coefficients] for e in a], [[x, y, 1] for x in range(3) for y in range(3)])


def law_eval_2(b: Elt, c: Elt, s: Elt, q: Poly, xs: List(Elt, 2)):
  """evaluation on a space lists the values at its elements, in order"""
  sp = [s + x * b + y * c for x in xs for y in xs]
  same(eval_on_subspace(q, sp), [q(e) for e in sp])


def law_eval_any(sp: Seq(Elt), q: Poly):
  """evaluation on a space of any size"""
  same(eval_on_subspace(q, sp), [q(e) for e in sp])


def law_vanishing(xs: List(Elt, 2), b: Elt, c: Elt, s: Elt):
  """the vanishing polynomial is the product of x minus every element"""
  contract('starks.polynomial.polynomials_over', any_polys)
  K = field()
  sp = [s + x * b + y * c for x in xs for y in xs]
  r = construct_affine_vanishing_polynomial(K, sp)
  e = polys()([1])
  for a in sp:
    e = e * polys()([-a, 1])
  same(r, e)


def any_polys(ring=None):
  return polys()


@config(unroll=600)
def law_many_basis(xs: List(Elt, 2), bs: List(Elt, 8), s: Elt):
  """five to eight basis elements"""
  for n in (5, 6, 8):
    a = AffineSpace(scalars(xs), [El(b) for b in bs[:n]], El(s))
    es = [e.v for e in a]
    same(len(es), 2**n)
    for k in (0, 1, 2, 3, 2**(n - 1) - 1, 2**(n - 1), 2**n - 2, 2**n - 1):
      v = s
      for i in range(n):
        v = v + xs[(k >> (n - 1 - i)) & 1] * bs[i]
      same(es[k], v)


@config(unroll=1000)
def law_concrete_large():
  """spaces of hundreds of elements over prime fields, in order, with the stated size"""
  for p, bs, s in [(2, [1, 1, 0, 1, 1, 0, 1, 1], 1), (3, [1, 2, 0, 1, 2], 2), (7, [3, 5, 1], 6), (101, [37], 5), (257, [1], 0)]:
    F = IntegersModP(p)
    n = len(bs)
    a = AffineSpace(F, [F(b) for b in bs], F(s))
    es = [e.n for e in a]
    same(len(a), p**n)
    same(es, [(s + sum([(k // p**(n - 1 - i)) % p * bs[i] for i in range(n)])) % p for k in range(p**n)])
    same([e.n for e in a], es)


@config(unroll=1000)
def law_eval_large():
  """evaluation on a large space lists every value, in order"""
  F = IntegersModP(257)
  a = AffineSpace(IntegersModP(257), [F(3)], F(5))
  same([e.n for e in eval_on_subspace(lambda x: x * x + x + 1, a)], [((5 + 3 * k)**2 + 5 + 3 * k + 1) % 257 for k in range(257)])


@config(unroll=1000)
def law_vanishing_large():
  """the vanishing polynomial of a space of eighteen elements"""
  F = IntegersModP(101)
  sp = [F(5 * k + 2) for k in range(18)]
  r = construct_affine_vanishing_polynomial(F, sp)
  cs = [1]
  for a in sp:
    cs = [((cs[i - 1] if i > 0 else 0) - a.n * (cs[i] if i < len(cs) else 0)) % 101 for i in range(len(cs) + 1)]
  same([c.n for c in r.coefficients], cs)
