SEEDS = [
 dict(id='c17-short-stretch', property='C17',
      edits=[('starks/utils.py', "  while len(data) < 4 * count:\n", "  while len(data) // 4 + 1 < count:\n")],
      demo='''
from starks.utils import get_pseudorandom_indices
from starks.merkle_tree import blake
bad = 0
for k in range(200):
  e = blake(bytes([k]))
  want = e + blake(e)
  got = get_pseudorandom_indices(e, 1000, 9)
  if got != [int.from_bytes(want[4 * i:4 * i + 4], 'big') % 1000 for i in range(9)]:
    bad += 1
sys.exit(1 if bad else 0)
''', needs='a request for one index more than the entropy holds (9 indices from a 32 byte digest)',
      breaks='the last index is read from an empty slice and is always 0 instead of depending on the entropy'),
 dict(id='c14-half-root', property='C14',
      edits=[('starks/merkle_tree.py', "  assert v == root\n", "  assert v[:len(root) // 2 * 2] == root[:len(v) // 2]  + v[len(v) // 2:]\n")],
      demo='''
from starks.merkle_tree import merkelize, mk_branch, verify_branch
t = merkelize(list(range(16)))
for i in range(16):
  assert verify_branch(t[1], i, mk_branch(t, i), output_as_int=True) == i
forged = t[1][:31] + bytes([t[1][31] ^ 1])
try:
  verify_branch(forged, 3, mk_branch(t, 3))
except AssertionError:
  sys.exit(0)
sys.exit(1)
''', needs='a root that differs from the real one only in its second half', breaks='a branch is accepted against a root it does not hash to'),
 dict(id='c16-no-check', property='C16',
      edits=[('starks/compression.py', "  assert decompress_fri(o) == prf\n", "")],
      demo='''
from starks.compression import compress_fri, decompress_fri
prf = [[b'r' * 32, [[[b'a' * 32, b'\\x00\\x01']]]], [b'x' * 32]]
try:
  c = compress_fri(prf)
  ok = decompress_fri(c) == prf
except Exception:
  ok = True
prf = [[b'r' * 32, [[[b'a' * 32, b'b' * 32]]]], [b'x' * 32]]
sys.exit(0 if ok and decompress_fri(compress_fri(prf)) == prf else 1)
''', needs='a proof element that looks like a back reference (two bytes)', breaks='the compressed proof does not decompress to the proof'),
 dict(id='c28-zero-sign', property='C28',
      edits=[('starks/floatingpoint.py', "      if other.z == 1:\n        v_c = self.v\n        p_c = self.p\n        z_c = self.z\n        s_c = self.s\n",
              "      if other.z == 1:\n        v_c = self.v\n        p_c = self.p\n        z_c = self.z\n        s_c = self.s ^ other.s\n")],
      demo='''
from starks.finitefield import FiniteField
from starks.modp import IntegersModP
from starks.polynomial import polynomials_over
from starks.floatingpoint import FloatingPoint
P = polynomials_over(IntegersModP(2))
F = FiniteField(2, 8, P([1, 1, 0, 1, 1, 0, 0, 0, 1]))
Fp = FloatingPoint(F)
a = Fp(F(P([1, 1])), F(P([1])), 0, 0)
z = Fp(F(P([0])), F(P([0])), 1, 1)
c = a + z
sys.exit(0 if (c.s, c.z, c.v == a.v) == (0, 0, True) else 1)
''', needs='adding a zero whose sign bit is set', breaks='adding zero flips the sign of the other operand'),
 dict(id='c29-last-square', property='C29',
      edits=[('misc/primality.py', "      for i in range(exponent)):\n", "      for i in range(max(1, exponent - 1))):\n")],
      demo='''
from misc.primality import decompose, isWitness
bad = 0
for p in [5, 7, 11, 13, 17, 29, 37, 41, 97, 101, 193, 257]:
  e, r = decompose(p - 1)
  for a in range(2, p - 1):
    bad += isWitness(a, p, e, r)
sys.exit(1 if bad else 0)
''', needs='a prime that is 1 modulo 4 and a base that is not a square modulo it', breaks='primes are rejected'),
 dict(id='c31-mask', property='C31',
      edits=[('starks/utils.py', "round_constants[i % len(round_constants)]", "round_constants[i & (len(round_constants) - 1)]")],
      demo='''
from starks.utils import mimc
m = 2**256 - 2**32 * 351 + 1
for cs in ([1, 2], [1, 2, 3], [5, 6, 7, 8, 9]):
  x = 3
  for i in range(11):
    x = (x**3 + cs[i % len(cs)]) % m
  if mimc(3, 12, cs) != x:
    sys.exit(1)
''', needs='a number of round constants that is not a power of two', breaks='the round constants are not used cyclically'),
]
