"""Commitments."""
import random
from misc.commitment import BBSBitCommitmentScheme
from misc.commitment import BBSBitCommitmentVerifier
from misc.commitment import BBSIntCommitmentScheme
from misc.commitment import BBSIntCommitmentVerifier


def perm(x):
  """any one-way permutation"""
  return uf('perm', 'int', x)


def core(x):
  """any hardcore predicate"""
  return 1 if uf('core', 'bool', x) else 0


def law_bit_secret(n: Pos):
  """the secret is the image of a random string, and is what is revealed"""
  s = BBSBitCommitmentScheme(perm, core, n)
  t = s.reveal()
  same(s.secret, t)
  check(s.commit(0)[0] == perm(t))


def law_secret_bits(n: Pos):
  """the random string has the length of the security parameter"""
  asked = []

  def bits(k):
    asked.append(k)
    return 77
  contract('random.getrandbits', bits)
  s = BBSBitCommitmentScheme(perm, core, n)
  same(asked, [n])
  same(s.reveal(), perm(77))


def law_bit_commit(n: Pos, b: Bit):
  """a commitment is the image of the secret and the bit masked by the predicate"""
  s = BBSBitCommitmentScheme(perm, core, n)
  t = s.reveal()
  same(s.commit(b), (perm(t), (core(t) + b) % 2))


def law_bit_stable(n: Pos, b: Bit, c: Bit):
  """committing again uses the same secret"""
  s = BBSBitCommitmentScheme(perm, core, n)
  x = s.commit(b)
  t = s.reveal()
  same(s.commit(c)[0], x[0])
  same(s.reveal(), t)


def law_bit_honest(n: Pos, b: Bit):
  """an honest commitment verifies and decodes to the bit"""
  s = BBSBitCommitmentScheme(perm, core, n)
  c = s.commit(b)
  v = BBSBitCommitmentVerifier(perm, core)
  same(v.verify(s.reveal(), c), True)
  same(v.decode(s.reveal(), c), b)


def law_bit_decode(x: Int, i: Int, b: Bit):
  """decoding removes the mask"""
  same(BBSBitCommitmentVerifier(perm, core).decode(x, (i, b)), (b + core(x)) % 2)


def law_bit_verify(x: Int, i: Int, b: Bit):
  """verification is true exactly when the image of the secret is the commitment"""
  same(BBSBitCommitmentVerifier(perm, core).verify(x, (i, b)), perm(x) == i)


def law_secrets(k: Small):
  """every bit has its own secret, revealed in order"""
  s = BBSIntCommitmentScheme(k, perm, core, 8)
  r = s.reveal()
  same(len(r), k)
  same(r, [x.secret for x in s.schemes])


def law_secrets_fresh():
  """the secrets of the bits are drawn separately"""
  drawn = []

  def bits(k):
    drawn.append(k)
    return len(drawn)
  contract('random.getrandbits', bits)
  s = BBSIntCommitmentScheme(4, perm, core, 16)
  same(s.reveal(), [perm(1), perm(2), perm(3), perm(4)])
  same(drawn[:4], [16, 16, 16, 16])


def law_secrets_many():
  """the secrets of many bits are drawn separately"""
  drawn = []

  def bits(k):
    drawn.append(k)
    return len(drawn)
  contract('random.getrandbits', bits)
  for n in [9, 16, 33, 60]:
    drawn.clear()
    s = BBSIntCommitmentScheme(n, perm, core, 128)
    same(s.reveal(), [perm(i + 1) for i in range(n)])
    same(drawn[:n], [128] * n)


def law_int_wide(x: Int):
  """long integers: every bit is committed, and a wrong opening of any of them is rejected"""
  for n, m in [(9, 300), (17, 65537), (40, 2**39 + 2**33 + 5)]:
    s = BBSIntCommitmentScheme(n, perm, core)
    v = BBSIntCommitmentVerifier(n, perm, core)
    c = s.commit(m)
    r = s.reveal()
    same(c, [(perm(r[i]), (core(r[i]) + m // 2**(n - 1 - i) % 2) % 2) for i in range(n)])
    same(v.verify(r, c), True)
    same(v.decode(r, c), m)
    for j in [0, 1, 7, 8, n - 2, n - 1]:
      w = [x if i == j else r[i] for i in range(n)]
      same(v.verify(w, c), perm(x) == perm(r[j]))
    check(not v.verify(r[:n - 1], c))
    check(not v.verify(r, c[:n - 1]))
    check(not v.verify(r[:n - 1], c[:n - 1]))
    check(not v.verify(r + [x], c + [(perm(x), core(x))]))


def law_int_commit_4(m: Below(16)):
  """four bits are committed one by one, the highest first"""
  s = BBSIntCommitmentScheme(4, perm, core)
  r = s.reveal()
  bits = [m // 8 % 2, m // 4 % 2, m // 2 % 2, m % 2]
  same(s.commit(m), [(perm(r[i]), (core(r[i]) + bits[i]) % 2) for i in range(4)])


def law_int_commit_values():
  """every integer of three bits"""
  s = BBSIntCommitmentScheme(3, perm, core)
  r = s.reveal()
  for m in range(8):
    bits = [m // 4 % 2, m // 2 % 2, m % 2]
    same(s.commit(m), [(perm(r[i]), (core(r[i]) + bits[i]) % 2) for i in range(3)])


def law_int_honest_values():
  """every integer of three bits verifies and decodes to itself"""
  s = BBSIntCommitmentScheme(3, perm, core)
  v = BBSIntCommitmentVerifier(3, perm, core)
  for m in range(8):
    c = s.commit(m)
    same(v.verify(s.reveal(), c), True)
    same(v.decode(s.reveal(), c), m)


def law_int_honest(k: SmallGe(1), m: Below(2**k)):
  """an honest commitment to an integer of any length verifies and decodes to it"""
  s = BBSIntCommitmentScheme(k, perm, core)
  v = BBSIntCommitmentVerifier(k, perm, core)
  c = s.commit(m)
  same(len(c), k)
  same(v.verify(s.reveal(), c), True)
  same(v.decode(s.reveal(), c), m)


def law_int_too_big(k: Small, e: Nat):
  """an integer that does not fit is refused"""
  s = BBSIntCommitmentScheme(k, perm, core)
  same(raised(lambda: s.commit(2**k + e), 'ValueError'), True)


def law_int_negative(k: Small, e: Pos):
  """a negative integer is refused"""
  s = BBSIntCommitmentScheme(k, perm, core)
  same(raised(lambda: s.commit(-e), 'ValueError'), True)


def law_int_fits(k: SmallGe(1)):
  """the largest and the smallest integer that fit are accepted"""
  s = BBSIntCommitmentScheme(k, perm, core)
  same(raised(lambda: s.commit(2**k - 1), 'Exception'), False)
  same(raised(lambda: s.commit(0), 'Exception'), False)


def law_int_verify_2(x: List(Int, 2), i: List(Int, 2), b: List(Bit, 2)):
  """verification is true exactly when every image matches: two bits"""
  v = BBSIntCommitmentVerifier(2, perm, core)
  same(v.verify(x, [(i[0], b[0]), (i[1], b[1])]), perm(x[0]) == i[0] and perm(x[1]) == i[1])


def law_int_verify_4(x: List(Int, 4), i: List(Int, 4), b: List(Bit, 4)):
  """verification is true exactly when every image matches: four bits"""
  v = BBSIntCommitmentVerifier(4, perm, core)
  same(v.verify(x, [(i[j], b[j]) for j in range(4)]), all([perm(x[j]) == i[j] for j in range(4)]))


def law_int_verify_any(k: Small, x: Seq(Int, k), i: Seq(Int, k), b: Seq(Bit, k)):
  """verification is true exactly when every image matches: any length"""
  v = BBSIntCommitmentVerifier(k, perm, core)
  same(v.verify(x, [(i[j], b[j]) for j in range(k)]), all([perm(x[j]) == i[j] for j in range(k)]))


def law_int_missing(x: List(Int, 3), i: List(Int, 3), b: List(Bit, 3)):
  """an opening or a commitment too few or too many is rejected"""
  v = BBSIntCommitmentVerifier(3, perm, core)
  c = [(i[j], b[j]) for j in range(3)]
  same(v.verify(x[:2], c), False)
  same(v.verify(x, c[:2]), False)
  same(v.verify(x[:2], c[:2]), False)
  same(v.verify([], []), False)
  same(v.verify(x + [7], c), False)
  same(v.verify(x, c + [(1, 0)]), False)
  same(v.verify(x + [7], c + [(1, 0)]), False)
  same(v.verify([], c), False)


def law_int_missing_any(k: Small, n: Small, m: Small, x: Seq(Int, n), i: Seq(Int, m), b: Seq(Bit, m)):
  """any difference of the lengths is rejected"""
  assume(n != k or m != k)
  v = BBSIntCommitmentVerifier(k, perm, core)
  same(v.verify(x, [(i[j], b[j]) for j in range(m)]), False)


def law_int_decode_3(x: List(Int, 3), i: List(Int, 3), b: List(Bit, 3)):
  """the decoded bits are read with the highest first"""
  v = BBSIntCommitmentVerifier(3, perm, core)
  c = [(i[j], b[j]) for j in range(3)]
  d = [(core(x[j]) + b[j]) % 2 for j in range(3)]
  same(v.decodeBits(x, c), d)
  same(v.decode(x, c), 4 * d[0] + 2 * d[1] + d[2])


def law_int_decode_any(k: Small, x: Seq(Int, k), i: Seq(Int, k), b: Seq(Bit, k)):
  """every bit is decoded with its own secret"""
  v = BBSIntCommitmentVerifier(k, perm, core)
  same(v.decodeBits(x, [(i[j], b[j]) for j in range(k)]), [(core(x[j]) + b[j]) % 2 for j in range(k)])
