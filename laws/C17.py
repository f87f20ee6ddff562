"""Challenge indices and coefficients."""
import hashlib
from starks.utils import get_pseudorandom_indices
from starks.stark import get_pseudorandom_ks


def h(x):
  return hashlib.blake2s(x).digest()


def expand(data, n):
  """hash-extend the entropy to at least n bytes"""
  while len(data) < n:
    data = data + h(data[-32:])
  return data


def word(data, k):
  return int.from_bytes(data[4 * k:4 * k + 4], 'big')


def law_plain(e: Bytes(32), m: Pos):
  """eight indices need no extension: index k is the k-th 4-byte word modulo the range"""
  assume(m < 2**24)
  r = get_pseudorandom_indices(e, m, 8)
  same(r, [word(e, k) % m for k in range(8)])


def law_plain_extended(e: Bytes(32), m: Pos):
  """twenty indices need two extensions"""
  assume(m < 2**24)
  d = e + h(e)
  d = d + h(d[32:64])
  r = get_pseudorandom_indices(e, m, 20)
  same(r, [word(d, k) % m for k in range(20)])


def law_short_entropy(e: Bytes(8), m: Pos):
  """short entropy is extended by the hash of all of it"""
  assume(m < 2**24)
  d = e + h(e)
  r = get_pseudorandom_indices(e, m, 4)
  same(r, [word(d, k) % m for k in range(4)])


def law_any_count(e: Bytes(32), m: Pos, n: Small):
  """any number of indices, each from its own word of the extended entropy"""
  assume(m < 2**24)
  d = expand(e, 4 * n)
  r = get_pseudorandom_indices(e, m, n)
  same(len(r), n)
  same(r, [word(d, k) % m for k in range(n)])


def law_any_entropy(e: Bytes, m: Pos, n: Small):
  """entropy of any length"""
  assume(m < 2**24)
  d = expand(e, 4 * n)
  r = get_pseudorandom_indices(e, m, n)
  same(len(r), n)
  same(r, [word(d, k) % m for k in range(n)])


def law_range(e: Bytes(32), m: Pos, n: Small, k: Nat):
  """every index lies in the range"""
  assume(m < 2**24)
  assume(k < n)
  r = get_pseudorandom_indices(e, m, n)
  check(r[k] >= 0)
  check(r[k] < m)


def law_exclusion(e: Bytes(32), q: Pos, x: IntGe(2)):
  """excluded multiples: the range loses one value in x, the others are spread over the gaps"""
  m = q * x
  assume(m < 2**24)
  r = get_pseudorandom_indices(e, m, 8, exclude_multiples_of=x)
  rm = q * (x - 1)
  vs = [word(e, k) % rm for k in range(8)]
  same(r, [v + 1 + v // (x - 1) for v in vs])


def law_exclusion_avoids(e: Bytes(32), q: Pos, x: IntGe(2)):
  """no index is a multiple of the excluded number and all are in range"""
  m = q * x
  assume(m < 2**24)
  r = get_pseudorandom_indices(e, m, 2, exclude_multiples_of=x)
  check(r[0] % x != 0)
  check(r[1] % x != 0)
  check(r[0] < m)
  check(r[1] < m)
  check(r[0] >= 1)


def law_exclusion_any_range(e: Bytes(32), m: IntGe(2), x: IntGe(2)):
  """the range need not be a multiple of the excluded number"""
  assume(m < 2**24)
  r = get_pseudorandom_indices(e, m, 2, exclude_multiples_of=x)
  for k in range(2):
    check(r[k] % x != 0)
    check(r[k] < m)
    check(r[k] > 0)


def law_exclusion_uneven(e: Bytes(32), q: Pos):
  """the same for given remainders"""
  for x in [2, 3, 4, 8]:
    for t in range(1, x):
      m = q * x + t
      assume(m < 2**24)
      r = get_pseudorandom_indices(e, m, 2, exclude_multiples_of=x)
      for k in range(2):
        check(r[k] % x != 0)
        check(r[k] < m)
        check(r[k] > 0)


def law_exclusion_8(e: Bytes(32), q: Pos):
  """the extension factor used by the prover"""
  m = q * 8
  assume(m < 2**24)
  r = get_pseudorandom_indices(e, m, 8, exclude_multiples_of=8)
  for k in range(8):
    check(r[k] % 8 != 0)
    check(r[k] < m)
    check(r[k] > 0)


def law_exclusion_2(e: Bytes(32), q: Pos):
  """excluding the even numbers"""
  m = q * 2
  assume(m < 2**24)
  r = get_pseudorandom_indices(e, m, 8, exclude_multiples_of=2)
  for k in range(8):
    check(r[k] % 2 == 1)
    check(r[k] < m)


def law_exclusion_any_count(e: Bytes(32), q: Pos, x: IntGe(2), n: Small):
  """as many indices as requested with an exclusion too"""
  m = q * x
  assume(m < 2**24)
  d = expand(e, 4 * n)
  r = get_pseudorandom_indices(e, m, n, exclude_multiples_of=x)
  same(len(r), n)
  same(r, [word(d, k) % (q * (x - 1)) + 1 + word(d, k) % (q * (x - 1)) // (x - 1) for k in range(n)])


def law_large_range(e: Bytes(32), m: IntGe(16777216), n: Small):
  """a too large range is rejected"""
  check(raised(lambda: get_pseudorandom_indices(e, m, n)))
  check(raised(lambda: get_pseudorandom_indices(e, m, n, exclude_multiples_of=8)))


def law_range_accepted(e: Bytes(32), m: Pos):
  """every smaller range is served"""
  assume(m < 2**24)
  check(not raised(lambda: get_pseudorandom_indices(e, m, 1)))


def law_prefix(e: Bytes(32), m: Pos):
  """a longer request extends a shorter one"""
  assume(m < 2**24)
  same(get_pseudorandom_indices(e, m, 3), get_pseudorandom_indices(e, m, 8)[0:3])


def law_ks_4(m: Bytes(32)):
  """up to four coefficients: hashes of the root with the labels 0x01 .. 0x04"""
  want = [int.from_bytes(h(m + l), 'big') for l in [b'0x01', b'0x02', b'0x03', b'0x04']]
  same(get_pseudorandom_ks(m, 4), want)
  same(get_pseudorandom_ks(m, 3), want[:3])
  same(get_pseudorandom_ks(m, 2), want[:2])
  same(get_pseudorandom_ks(m, 1), want[:1])
  same(get_pseudorandom_ks(m, 0), [])


def law_ks_more(m: Bytes(32)):
  """more coefficients: as many as requested, each with its own label"""
  for n in [5, 6, 9, 10, 11, 25]:
    ks = get_pseudorandom_ks(m, n)
    same(len(ks), n)
    same(ks, [int.from_bytes(h(m + ('0x0%d' % i).encode()), 'big') for i in range(n)])


def law_ks_any(m: Bytes(32), n: IntGe(5)):
  """any number of coefficients"""
  ks = get_pseudorandom_ks(m, n)
  same(len(ks), n)
  same(ks, [int.from_bytes(h(m + ('0x0%d' % i).encode()), 'big') for i in range(n)])
