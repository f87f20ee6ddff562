"""MiMC, power cycles and the power-of-two test."""
from starks.utils import mimc
from starks.utils import get_power_cycle
from starks.utils import is_a_power_of_2
from starks.utils import plus_one
from starks.modp import IntegersModP
from starks.finitefield import FiniteField
from starks.polynomial import polynomials_over

MODULUS = 2**256 - 2**32 * 351 + 1


@config(sized=True)
def law_mimc(x: Int, n: Nat, cs: Seq(Int)):
  """steps-1 rounds of cube plus cycling constant modulo the prime"""
  assume(len(cs) > 0)
  v = x
  for i in range(n):
    v = (v * v * v + cs[i % len(cs)]) % MODULUS
  same(mimc(x, n + 1, cs), v)


def law_mimc_short(x: Int, a: Int, b: Int):
  """few steps"""
  same(mimc(x, 1, [a, b]), x)
  same(mimc(x, 0, [a, b]), x)
  y = (x**3 + a) % MODULUS
  same(mimc(x, 2, [a, b]), y)
  z = (y**3 + b) % MODULUS
  same(mimc(x, 3, [a, b]), z)
  w = (z**3 + a) % MODULUS
  same(mimc(x, 4, [a, b]), w)
  same(mimc(x, 5, [a, b]), (w**3 + b) % MODULUS)
  same(mimc(x, 3, [a]), (y**3 + a) % MODULUS)


def law_mimc_composes(x: Int, n: Nat, cs: Seq(Int)):
  """one more step is one more round"""
  assume(len(cs) > 0)
  u = mimc(x, n + 1, cs)
  same(mimc(x, n + 2, cs), (u * u * u + cs[n % len(cs)]) % MODULUS)


@config(field='prime')
def law_cycle_one():
  """the cycle of 1"""
  same(get_power_cycle(field()(1), field()), [field()(1)])


@config(field='prime')
def law_cycle_2(r: Elt):
  """an element of order two"""
  assume(r != 1)
  assume(r * r == 1)
  same(get_power_cycle(r, field()), [field()(1), r])


@config(field='prime')
def law_cycle_3(r: Elt):
  """an element of order three"""
  assume(r != 1)
  assume(r * r != 1)
  assume(r * r * r == 1)
  same(get_power_cycle(r, field()), [field()(1), r, r * r])


@config(field='prime')
def law_cycle_4(r: Elt):
  """an element of order four"""
  assume(r != 1)
  assume(r * r != 1)
  assume(r * r * r != 1)
  assume(r * r * r * r == 1)
  same(get_power_cycle(r, field()), [field()(1), r, r * r, r * r * r])


def law_pow2_step(n: Pos):
  """an odd number above one is not a power of two, an even number is one exactly when its half is"""
  contract('starks.utils.is_a_power_of_2', half, 'inner')
  same(is_a_power_of_2(n), True if n == 1 else False if n % 2 == 1 else half(n // 2))


def half(n):
  return uf('pow2', 'bool', n)


def law_pow2_small():
  """small numbers"""
  same([is_a_power_of_2(n) for n in range(1, 70)],
       [n in (1, 2, 4, 8, 16, 32, 64) for n in range(1, 70)])


def law_pow2_power(k: Nat):
  """powers of two are accepted"""
  contract('starks.utils.is_a_power_of_2', spec, 'inner')
  check(is_a_power_of_2(2**k))


def spec(n):
  return n & (n - 1) == 0


def law_plus_one(n: Int):
  """the successor"""
  same(plus_one(n), n + 1)


def law_mimc_long():
  """many constants and many steps"""
  x = 3
  cs = [0, 5, 7, 1, 2, 3] * 25 + [11]
  v = x
  for i in range(10):
    for j in range(16):
      v = (v * v * v + cs[(16 * i + j) % 151]) % MODULUS
  same(mimc(x, 161, cs), v)


def law_power_of_2_large():
  """powers of two beyond any machine word, and their neighbours"""
  for k in (10, 16, 20, 31):
    same(is_a_power_of_2(2**k), True)
    same(is_a_power_of_2(2**k + 1), False)
    same(is_a_power_of_2(2**k - 1), False)
    same(is_a_power_of_2(2**k + 2), False)
    same(is_a_power_of_2(2**k * 3), False)


@config(unroll=600)
def law_cycle_concrete():
  """cycles longer than the characteristic, and those of elements that are no generators"""
  K = FiniteField(2, 3, polynomials_over(IntegersModP(2)).factory([1, 1, 0, 1]))
  x = K([0, 1])
  same([[c.n for c in e.poly.coefficients] for e in get_power_cycle(x, K)],
       [[1], [0, 1], [0, 0, 1], [1, 1], [0, 1, 1], [1, 1, 1], [1, 0, 1]])
  K = FiniteField(3, 2, polynomials_over(IntegersModP(3)).factory([1, 0, 1]))
  same([[c.n for c in e.poly.coefficients] for e in get_power_cycle(K([1, 1]), K)],
       [[1], [1, 1], [0, 2], [1, 2], [2], [2, 2], [0, 1], [2, 1]])
  for p in (3, 5, 17, 101, 257):
    F = IntegersModP(p)
    for r in (2, 3 % p, p - 1, 4 % p):
      if r > 0:
        n, v = 1, r
        o = [1]
        while v != 1:
          o.append(v)
          v = v * r % p
        same([e.n for e in get_power_cycle(F(r), F)], o)
