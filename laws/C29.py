"""Primality testing and the Blum-Blum-Shub generator."""
from misc.primality import decompose
from misc.primality import isWitness
from misc.primality import probablyPrime
from misc.blum_blum_shub import good_prime
from misc.blum_blum_shub import find_good_prime
from misc.blum_blum_shub import make_modulus
from misc.blum_blum_shub import blum_blum_shub
from misc.blum_blum_shub import parity


def law_witness(a: Int, p: IntGe(3), e: Small, r: Nat):
  """a witness is a number none of whose powers in the chain is 1 at the start or -1 anywhere"""
  same(isWitness(a, p, e, r), pow(a, r, p) != 1 and all([pow(a, 2**i * r, p) != p - 1 for i in range(e)]))


def law_decompose_odd(n: IntGe(0)):
  """odd numbers have no factor two"""
  e, r = decompose(2 * n + 1)
  same((e, r), (0, 2 * n + 1))


def law_decompose_twice(n: Nat):
  """twice an odd number"""
  e, r = decompose(4 * n + 2)
  same((e, r), (1, 2 * n + 1))


def law_decompose_instances():
  """the odd part and the number of factors two"""
  for k in range(8):
    for m in [1, 3, 5, 15, 101]:
      same(decompose(2**k * m), (k, m))


def law_decompose(n: Pos):
  """the product of the parts is the number, and the second part is odd"""
  e, r = decompose(n)
  same(2**e * r, n)
  same(r % 2, 1)
  check(e >= 0)


def law_small_numbers():
  """the answers that need no witness"""
  same(probablyPrime(2), True)
  same(probablyPrime(3), True)
  same(probablyPrime(1), False)
  same(probablyPrime(0), False)


def law_negative(n: Nat, k: Small):
  """negative numbers are not prime"""
  same(probablyPrime(-n, k), False)


def law_even(n: IntGe(2), k: Small):
  """even numbers other than two are not prime"""
  same(probablyPrime(2 * n, k), False)


def split(n):
  return (uf('two', 'int', n), uf('odd', 'int', n))


def no_witness(a, p, e, r):
  return False


def every_witness(a, p, e, r):
  return True


def law_prime_without_witness(n: IntGe(2), k: Small):
  """without any witness an odd number is reported prime, whatever was drawn"""
  contract('misc.primality.decompose', split)
  contract('misc.primality.isWitness', no_witness)
  same(probablyPrime(2 * n + 1, k), True)


def law_composite_on_witness(n: IntGe(2), k: SmallGe(1)):
  """one witness is enough to reject"""
  contract('misc.primality.decompose', split)
  contract('misc.primality.isWitness', every_witness)
  same(probablyPrime(2 * n + 1, k), False)


def law_number_of_witnesses(n: IntGe(2), k: Small):
  """the requested number of candidates is tested, each of them in range, with the parts of p - 1"""
  contract('misc.primality.decompose', split)
  seen = []

  def watch(a, p, e, r):
    seen.append((a >= 2 and a <= p - 2, p, e, r))
    return False
  contract('misc.primality.isWitness', watch)
  probablyPrime(2 * n + 1, k)
  same(seen, [(True, 2 * n + 1, uf('two', 'int', 2 * n), uf('odd', 'int', 2 * n)) for _ in range(k)])


def law_last_witness(n: IntGe(2), k: SmallGe(1), j: Below(k)):
  """a witness is respected wherever it is met"""
  contract('misc.primality.decompose', split)
  seen = []

  def watch(a, p, e, r):
    seen.append(a)
    return len(seen) == j + 1
  contract('misc.primality.isWitness', watch)
  same(probablyPrime(2 * n + 1, k), False)


def law_default_accuracy(n: IntGe(2)):
  """by default a hundred candidates are tested"""
  contract('misc.primality.decompose', split)
  seen = []

  def watch(a, p, e, r):
    seen.append(a)
    return False
  contract('misc.primality.isWitness', watch)
  probablyPrime(2 * n + 1)
  same(len(seen), 100)


def law_primes_have_no_witness():
  """no candidate is a witness against a small prime"""
  for p in [5, 7, 13, 17]:
    e, r = decompose(p - 1)
    check(not any([isWitness(a, p, e, r) for a in range(1, p)]))


def law_composites_have_witnesses():
  """some candidate is a witness against a small odd composite"""
  for p in [9, 15, 21, 25, 45, 65, 341, 561]:
    e, r = decompose(p - 1)
    check(any([isWitness(a, p, e, r) for a in [2, 3, 5, 7]]))


def probably(p, accuracy=100):
  return uf('probably', 'bool', p)


def law_good_prime(p: Int):
  """three modulo four and probably prime"""
  contract('misc.primality.probablyPrime', probably)
  same(good_prime(p), p % 4 == 3 and uf('probably', 'bool', p))


def good(p):
  return uf('good', 'bool', p)


def law_found_prime_is_good(k: Pos):
  """what is found passed the test"""
  contract('misc.blum_blum_shub.good_prime', good)
  r = find_good_prime(k)
  check(uf('good', 'bool', r))


def law_modulus(k: Pos):
  """the modulus is the product of two numbers found separately"""
  picks = []

  def pick(num_bits=512):
    picks.append(num_bits)
    return uf('pick', 'int', len(picks), num_bits)
  contract('misc.blum_blum_shub.find_good_prime', pick)
  same(make_modulus(k), uf('pick', 'int', 1, k) * uf('pick', 'int', 2, k))
  same(len(picks), 2)


def law_generator(k: Pos, x: Int, y: Int, m: Modulus):
  """the generator squares modulo the same modulus every time"""
  made = []

  def modulus(num_bits=512):
    made.append(num_bits)
    return m
  contract('misc.blum_blum_shub.make_modulus', modulus)
  f = blum_blum_shub(k)
  same(f(x), (x * x) % m)
  same(f(y), (y * y) % m)
  same(f(f(x)), (x * x * x * x) % m)
  same(made, [k])


def law_parity():
  """the parity of the number of one bits"""
  for n in [0, 1, 2, 3, 5, 6, 7, 8, 11, 255, 256, 1023]:
    c = 0
    for i in range(12):
      c += n // 2**i % 2
    same(parity(n), c % 2)


@config(unroll=300)
def law_decompose_large():
  """large numbers and many factors two are split exactly"""
  for k in [0, 1, 20, 52, 53, 54, 63, 64, 65, 100, 130]:
    for m in [1, 3, 2**53 + 1, 2**61 - 1, 2**64 + 1, 10**40 + 1]:
      same(decompose(2**k * m), (k, m))


# pairs (e, k) with k * 2**e + 1 prime
PRIMES = [(5, 3), (6, 3), (8, 1), (12, 3), (16, 1), (18, 3), (20, 7), (24, 45), (33, 9), (40, 27), (63, 9), (64, 25), (65, 9), (70, 39),
          (100, 165), (128, 21), (1, 3), (1, 5), (1, 2**60 - 1), (1, 2**126 - 1)]


@config(unroll=300)
def law_large_primes_have_no_witness():
  """no candidate is a witness against a prime, however many factors two its predecessor has"""
  for e, k in PRIMES:
    p = k * 2**e + 1
    e2, r = decompose(p - 1)
    for a in [2, 3, 5, 7, 10, 11, 13, 26, 1234567, p // 3, p // 2, p - 2]:
      if a % p > 1 and a < p:
        check(not isWitness(a, p, e2, r))


@config(unroll=300)
def law_witness_chain():
  """a power that reaches -1 in any step of the chain is no contradiction, and reaching it a step late is one"""
  for p, e, r in [(257, 8, 1), (65537, 16, 1), (12289, 12, 3), (5 * 2**25 + 1, 25, 5)]:
    g = 3 if p < 65538 else 3
    for j in range(e):
      a = pow(11 if p == 12289 else g, 2**(e - 1 - j), p)
      x = pow(a, r, p)
      low = x == 1 or any([pow(a, 2**i * r, p) == p - 1 for i in range(j)])
      same(isWitness(a, p, e, r), not (x == 1 or any([pow(a, 2**i * r, p) == p - 1 for i in range(e)])))
      same(isWitness(a, p, j, r), not low)


def law_accuracy():
  """candidates for the modulus are tested with many witnesses, whatever their size"""
  asked = []

  def test(p, accuracy=100):
    asked.append(accuracy)
    return True
  contract('misc.primality.probablyPrime', test)
  for p in [3, 7, 11, 103, 2**13 - 1, 2**16 + 3, 2**31 - 1, 2**61 - 1, 2**127 - 1, 2**521 - 1]:
    check(good_prime(p))
  same(len(asked), 10)
  check(all([k >= 20 for k in asked]))


@config(unroll=1200)
def law_parity_large():
  """every bit of a large number counts"""
  for k in [31, 32, 33, 63, 64, 65, 127, 128, 511, 512, 1000]:
    same(parity(2**k), 1)
    same(parity(2**k + 1), 0)
    same(parity(2**k + 2**(k - 1) + 1), 1)
    same(parity(2**k - 1), k % 2)
    same(parity(2**k + 2**(k // 2)), 0)


def law_generator_large():
  """inputs beyond the modulus are reduced too"""
  contract('misc.blum_blum_shub.make_modulus', lambda num_bits=512: 77)
  f = blum_blum_shub(512)
  for x in [0, 1, 8, 9, 10, 76, 77, 78, 154, 1000, 2**64, 2**200 + 1]:
    same(f(x), x * x % 77)
