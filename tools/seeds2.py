SEEDS = [
 dict(id='c01-pad-in-place', property='C01',
      edits=[('starks/fft.py', "  if len(rootz) > len(a) + 1:\n    a = a + [0] * (len(rootz) - len(a) - 1)\n", "  if len(rootz) > len(a) + 1:\n    a.extend([0] * (len(rootz) - len(a) - 1))\n")],
      demo='''
from starks.fft import mul_polys
from starks.modp import IntegersModP
F = IntegersModP(17)
a, b = [F(1), F(2)], [F(3), F(4)]
mul_polys(a, b, F(2))
sys.exit(0 if len(a) == 2 and len(b) == 2 else 1)
''', needs='a first factor shorter than the order of the root of unity', breaks='the caller\'s coefficient list is padded in place'),
 dict(id='c01-long-sum', property='C01',
      edits=[('starks/polynomial.py', """      new_coefficients = [
          sum(x) for x in zip_longest(self, other, fillvalue=self.ring(0))
      ]
      return Polynomial(new_coefficients)
""", """      if len(self) > 12 and len(self) > len(other):
        # Long sums only touch the low coefficients
        new_coefficients = self.coefficients
        for i, b in enumerate(other):
          new_coefficients[i] = new_coefficients[i] + b
      else:
        new_coefficients = [
            sum(x) for x in zip_longest(self, other, fillvalue=self.ring(0))
        ]
      return Polynomial(new_coefficients)
""")],
      demo='''
from starks.modp import IntegersModP
from starks.polynomial import polynomials_over
P = polynomials_over(IntegersModP(101)).factory
p, q = P(list(range(1, 21))), P([5, 6])
r = p + q
sys.exit(0 if p == P(list(range(1, 21))) and r == P([6, 8] + list(range(3, 21))) else 1)
''', needs='a sum whose left operand has more than 12 coefficients and is the longer one', breaks='the left operand of + changes'),
 dict(id='c02-index-cache', property='C02',
      edits=[('starks/utils.py', """  assert modulus < 2**24
  data = entropy 
""", """  assert modulus < 2**24
  # The expansion of the entropy is shared between requests
  data = expanded.get(entropy[:32], entropy)
"""), ('starks/utils.py', """    data += blake(data[-32:])
  if exclude""", """    data += blake(data[-32:])
  expanded[entropy[:32]] = data
  if exclude"""), ('starks/utils.py', "# TODO(rbharath): This function needs to be reworkd", "expanded = {}\n\n# TODO(rbharath): This function needs to be reworkd")],
      demo='''
from starks.utils import get_pseudorandom_indices
e = b'e' * 32
f = e + b'tail of another entropy'
want = [int.from_bytes(f[4 * i:4 * i + 4], 'big') % 1000 for i in range(10)]
get_pseudorandom_indices(e, 1000, 40)
sys.exit(0 if get_pseudorandom_indices(f, 1000, 10) == want else 1)
''', needs='two entropies with the same first 32 bytes, the shorter asked first', breaks='the indices depend on earlier calls'),
 dict(id='c04-same-name', property='C04',
      edits=[('starks/numbertype.py', "    if type(self) is not type(other):\n", "    if type(self).__name__ != type(other).__name__:\n")],
      demo='''
from starks.modp import IntegersModP
from starks.polynomial import polynomials_over
from starks.finitefield import FiniteField
P = polynomials_over(IntegersModP(2)).factory
A = FiniteField(2, 3, polynomialModulus=P([1, 1, 0, 1]))
B = FiniteField(2, 3, polynomialModulus=P([1, 0, 1, 1]))
a, b = A([0, 1]), B([0, 1])
try:
  r = a == b
except TypeError:
  sys.exit(0)
sys.exit(1)
''', needs='operands of two distinct types with the same printed name (two fields of equal size with different moduli)',
      breaks='an operand of another type is used without conversion'),
 dict(id='c05-unit-gcd', property='C05',
      edits=[('starks/modp.py', """      if d != 1:
        raise ZeroDivisionError("%r has no inverse" % (self,))

      return IntegerModP(x)
""", """      if d not in (1, self.p):
        raise ZeroDivisionError("%r has no inverse" % (self,))

      return IntegerModP(x)
""")],
      demo='''
from starks.modp import IntegersModP
F = IntegersModP(101)
for k in (0, 101, 202):
  try:
    F(k).inverse()
  except ZeroDivisionError:
    continue
  sys.exit(1)
sys.exit(0 if F(7) * F(7).inverse() == F(1) else 1)
''', needs='inverting (or dividing by) zero', breaks='zero gets an inverse instead of ZeroDivisionError'),
 dict(id='c06-list-length', property='C06',
      edits=[('starks/finitefield.py', "        self.poly = Polynomial([Zp(x) for x in poly]) % polynomialModulus\n", "        coefficients = [Zp(x) for x in poly]\n        self.poly = Polynomial(coefficients)\n        if len(coefficients) > m + 1:\n          self.poly = self.poly % polynomialModulus\n")],
      demo='''
from starks.modp import IntegersModP
from starks.polynomial import polynomials_over
from starks.finitefield import FiniteField
P = polynomials_over(IntegersModP(2)).factory
A = FiniteField(2, 3, polynomialModulus=P([1, 1, 0, 1]))
x = A([0, 0, 0, 1])
sys.exit(0 if x == A([1, 1]) and x.poly.degree() < 3 else 1)
''', needs='an element built from a list of exactly m+1 coefficients', breaks='the representative is not reduced'),
 dict(id='c07-ne-parts', property='C07',
      edits=[('starks/rationals_modp.py', "          (self.m * other.n) % RationalModP.p != (other.m * self.n) % RationalModP.p)", "          (self.m, self.n) != (other.m, other.n))")],
      demo='''
from starks.rationals_modp import RationalsModP
Q = RationalsModP(7)
sys.exit(1 if Q(1, 2) != Q(4, 1) else 0)
''', needs='two fractions that are congruent but reduce to different numerators and denominators', breaks='!= says they differ'),
 dict(id='c09-equal-degree', property='C09',
      edits=[('starks/euclidean.py', "  if abs(b) == 0:\n    return (1, 0, a)\n", "  if abs(b) == 0 or abs(a) == abs(b):\n    return (1, 0, a)\n")],
      demo='''
from starks.modp import IntegersModP
from starks.polynomial import polynomials_over
from starks.euclidean import extended_euclidean_algorithm
P = polynomials_over(IntegersModP(101)).factory
a, b = P([1, 2, 1]), P([2, 3, 1])
x, y, d = extended_euclidean_algorithm(a, b)
sys.exit(0 if a * x + b * y == d and a % d == 0 and b % d == 0 else 1)
''', needs='two different polynomials of equal degree', breaks='the returned d does not divide the second argument'),
 dict(id='c10-fermat', property='C10',
      edits=[('starks/finitefield.py', """      if n == 0: return Fq([1])
      if n == 1: return self
      if n % 2 == 0:
""", """      if n % (self.field_size - 1) == 0 and self.field_size > 2: return Fq([1])
      if n == 1: return self
      if n % 2 == 0:
""")],
      demo='''
from starks.modp import IntegersModP
from starks.polynomial import polynomials_over
from starks.finitefield import FiniteField
P = polynomials_over(IntegersModP(2)).factory
A = FiniteField(2, 3, polynomialModulus=P([1, 1, 0, 1]))
ok = A([0]) ** 14 == A([0]) and A([0]) ** 0 == A([1]) and A([0, 1]) ** 9 == A([0, 1]) * A([0, 1])
sys.exit(0 if ok else 1)
''', needs='a power of zero whose exponent is a multiple of q-1', breaks='zero raised to a multiple of q-1 is one'),
 dict(id='c11-prefix', property='C11',
      edits=[('starks/polynomial.py', "      return self.degree() != other.degree() or any(\n", "      return self.degree() > other.degree() or any(\n")],
      demo='''
from starks.modp import IntegersModP
from starks.polynomial import polynomials_over
P = polynomials_over(IntegersModP(101)).factory
p, q = P([1, 2]), P([1, 2, 3])
sys.exit(0 if (p != q) and (q != p) and not (p != P([1, 2])) else 1)
''', needs='a left operand whose coefficients are a proper prefix of the right one\'s', breaks='both == and != are false'),
 dict(id='c13-one-short', property='C13',
      edits=[('starks/fft.py', "  if len(rootz) > len(vals) + 1:\n", "  if len(rootz) > len(vals) + 2:\n")],
      demo='''
from starks.fft import fft_1d
from starks.modp import IntegersModP
F = IntegersModP(17)
g = F(2)
vals = [F(k + 1) for k in range(7)]
out = fft_1d(F, vals, 17, g)
want = [sum([c * (g**i)**k for k, c in enumerate(vals)], F(0)) for i in range(8)]
sys.exit(0 if out == want else 1)
''', needs='a list exactly one shorter than the order of the root', breaks='it is transformed without its padding zero'),
 dict(id='c14-branch-cache', property='C14',
      edits=[('starks/merkle_tree.py', """  assert v == root
  return int""", """  if (root, proof[0], len(proof)) not in checked_leaves:
    assert v == root
    checked_leaves.add((root, proof[0], len(proof)))
  return int"""),
  ('starks/merkle_tree.py', "def verify_branch(root", "# Leaves that already verified against a root\nchecked_leaves = set()\n\ndef verify_branch(root")],
      demo='''
from starks.merkle_tree import merkelize, mk_branch, verify_branch
t = merkelize(list(range(16)))
assert verify_branch(t[1], 5, mk_branch(t, 5), output_as_int=True) == 5
try:
  verify_branch(t[1], 6, mk_branch(t, 5))
except AssertionError:
  sys.exit(0)
sys.exit(1)
''', needs='a leaf that verified once and is then offered at another index', breaks='it is accepted at the wrong index without recomputing the path'),
]
