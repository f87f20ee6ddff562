MISC = '''
import types
sys.path.insert(0, 'misc')
for name in ('requests', 'flask'):
  sys.modules[name] = types.ModuleType(name)
sys.modules['flask'].Flask = sys.modules['flask'].jsonify = sys.modules['flask'].request = None
'''
SEEDS = [
 dict(id='c12-lost-set', property='C12',
      edits=[('starks/poly_utils.py', "  for (i, (ys, eq0, eq1, eq2, eq3)) in enumerate(data):\n",
              "  for i, (ys, eq0, eq1, eq2, eq3) in enumerate(data):\n    if all([y == 0 for y in ys]):\n      # Nothing to interpolate\n      continue\n")],
      demo='''
from starks.modp import IntegersModP
from starks.poly_utils import multi_interp_4
F = IntegersModP(101)
xs = [[F(i) for i in (1, 2, 3, 4)], [F(i) for i in (5, 6, 7, 8)]]
ys = [[F(0)] * 4, [F(i) for i in (9, 3, 2, 5)]]
o = multi_interp_4(F, xs, ys)
sys.exit(0 if len(o) == 2 and [o[1](x) for x in xs[1]] == ys[1] and all(o[0](x) == 0 for x in xs[0]) else 1)
''', needs='a set whose values are all zero', breaks='its polynomial is missing and the later ones move up'),
 dict(id='c08-padded-bytes', property='C08',
      edits=[('starks/polynomial.py', "        self.coefficients = coefficients\n",
              "        # Encodings are written from trimmed coefficients\n        self.coefficients = list(coefficients)\n        return\n")],
      demo='''
from starks.modp import IntegersModP
from starks.polynomial import polynomials_over
F = IntegersModP(7)
P = polynomials_over(F)
raw = b''.join(x.to_bytes(32, 'big') for x in (1, 2, 0))
sys.exit(0 if P(raw) == P([1, 2]) and P(raw).degree() == 1 and P(bytes(32)).is_zero() else 1)
''', needs='an encoding that ends in a zero chunk', breaks='the polynomial stores trailing zeros and has the wrong degree'),
 dict(id='c22-fermat', property='C22',
      edits=[('starks/multivariate_polynomial.py', "          prod *= vals[i]**power\n",
              "          if hasattr(ring, 'p') and getattr(ring, 'm', 1) == 1 and power >= ring.p:\n            # Exponents repeat with the order of the group\n            prod *= vals[i]**(power % (ring.p - 1))\n            continue\n          prod = prod * vals[i]**power\n")],
      demo='''
from starks.modp import IntegersModP
from starks.poly_utils import multivariates_over
F = IntegersModP(7)
M = multivariates_over(F, 2)
f = M({(12, 1): F(3)})
sys.exit(0 if f((F(0), F(2))) == 0 and f((F(3), F(2))) == 6 else 1)
''', needs='a zero argument raised to a multiple of p-1', breaks='zero to the power p-1 evaluates to one'),
 dict(id='c03-full-cache', property='C03',
      edits=[('starks/numbertype.py', "    if argTuple not in cache:\n", "    found = argTuple in cache\n    if not found and len(cache) >= 128:\n      # Keep the number of classes bounded\n      cache.clear()\n    if not found:\n")],
      demo='''
from starks.modp import IntegersModP
F = IntegersModP(97)
for k in range(200):
  IntegersModP(1009 + 2 * k)
sys.exit(0 if IntegersModP(97) is F else 1)
''', needs='128 other fields constructed in between', breaks='the same field constructed later is another class'),
 dict(id='c29-short-chain', property='C29',
      edits=[('misc/primality.py', "      for i in range(exponent)):\n", "      for i in range(min(exponent, 8))):\n")],
      demo='''
sys.path.insert(0, 'misc')
from primality import probablyPrime
sys.exit(0 if probablyPrime(65537) and probablyPrime(12289) and not probablyPrime(65535) else 1)
''', needs='p - 1 divisible by more than 256', breaks='such primes are reported composite'),
 dict(id='c20-stationary', property='C20',
      edits=[('starks/air.py', "    computational_trace.append(next_state)\n",
              "    if next_state == computational_trace[-1] == computational_trace[max(i - 1, 0)]:\n      # The computation has settled\n      break\n    computational_trace += [next_state]\n")],
      demo='''
from starks.modp import IntegersModP
from starks.utils import generate_Xi_s
from starks.air import get_computational_trace
F = IntegersModP(101)
X = generate_Xi_s(F, 1)
trace, out = get_computational_trace([F(1)], 8, 1, [X[0] * X[0]])
sys.exit(0 if len(trace) == 8 and out == [F(1)] else 1)
''', needs='a state that maps to itself', breaks='the trace is shorter than the number of steps'),
 dict(id='c25-half-link', property='C25',
      edits=[('misc/blockchain.py', "      if block['previous_hash'] != last_block_hash:\n", "      if block['previous_hash'][:32] != last_block_hash[:32]:\n")],
      demo=MISC + '''
import io, contextlib
from blockchain import Blockchain
b = Blockchain()
with contextlib.redirect_stdout(io.StringIO()):
  proof = b.proof_of_work(b.last_block)
  b.new_block(proof, b.hash(b.last_block))
  good = b.valid_chain(b.chain)
  h = b.chain[1]['previous_hash']
  b.chain[1]['previous_hash'] = h[:63] + ('0' if h[63] != '0' else '1')
  bad = b.valid_chain(b.chain)
sys.exit(0 if good and not bad else 1)
''', needs='a previous hash altered in its second half', breaks='the chain with the altered link is accepted'),
 dict(id='c25-sample', property='C25',
      edits=[('misc/blockchain.py', "      if not self.valid_proof(last_block['proof'], block['proof'],\n                              last_block_hash):\n",
              "      if current_index + 16 > len(chain) and not self.valid_proof(\n          last_block['proof'], block['proof'], last_block_hash):\n")],
      demo=MISC + '''
import io, contextlib
from blockchain import Blockchain
b = Blockchain()
Blockchain.valid_proof = staticmethod(lambda a, p, h: p % 3 == 0)
with contextlib.redirect_stdout(io.StringIO()):
  for k in range(30):
    b.new_block(3 * k, b.hash(b.last_block))
  good = b.valid_chain(b.chain)
  c = Blockchain()
  for k in range(30):
    c.new_block(3 * k + (k == 2), c.hash(c.last_block))
  bad = c.valid_chain(c.chain)
sys.exit(0 if good and not bad else 1)
''', needs='a block without work that is followed by sixteen others', breaks='old blocks need no proof of work'),
 dict(id='c26-word', property='C26',
      edits=[('misc/commitment.py', "    return int(''.join(str(bit) for bit in decodedBits), 2)\n",
              "    return int(''.join(str(bit) for bit in decodedBits[-32:]), 2)\n")],
      demo='''
sys.path.insert(0, 'misc')
from commitment import BBSIntCommitmentVerifier
V = BBSIntCommitmentVerifier(40, None, None)
class Bit:
  def decode(self, secret, commitment): return secret ^ commitment
V.verifiers = [Bit() for _ in range(40)]
n = 2**39 + 12345
bits = [int(c) for c in bin(n)[2:]]
sys.exit(0 if V.decode([0] * 40, bits) == n else 1)
''', needs='an integer of more than 32 bits', breaks='the high bits of the committed integer are lost'),
]
ADD = '''
from starks.fft import Additive_FFT
from starks.finitefield import FiniteField
from starks.modp import IntegersModP
from starks.polynomial import polynomials_over
P = polynomials_over(IntegersModP(2)).factory
K = FiniteField(2, 9, P([1, 0, 0, 0, 1, 0, 0, 0, 0, 1]))
T = Additive_FFT(K)
x = K(P([0, 1]))
def combine(v, n):
  if n <= 2:
    return v
  k = 0
  while 2**(k + 2) < n:
    k += 1
  return combine(v[0], n // 2) + (x * x + x)**(2**k) * combine(v[1], n // 2)
'''
SEEDS += [
 dict(id='c36-boundary', property='C36',
      edits=[('starks/fft.py', "      if 2**(k+1)+2**k+i > Polys.poly.degree():\n", "      if 2**(k+1)+2**k+i >= Polys.poly.degree() + (k == 0):\n")],
      demo=ADD + '''
ok = True
for cs in ([1, 1, 0, 1], [0, 1, 0, 0, 0, 0, 1], [1, 0, 0, 0, 1, 0, 0, 1]):
  n = 4 if len(cs) <= 4 else 8
  f = K(P(cs))
  ok = ok and combine(T.Taylor_Expansion(f, n), n) == f
sys.exit(0 if ok else 1)
''', needs='a polynomial whose leading term lies in the last quarter of a bound of at least eight', breaks='the leading coefficient is dropped'),
 dict(id='c36-low', property='C36',
      edits=[('starks/fft.py', "    if n <= 2:\n      return Polys\n", "    if n <= 2 or Polys.poly.degree() < 2:\n      # Nothing left to divide\n      return Polys\n")],
      demo=ADD + '''
def parts(v):
  return parts(v[0]) + parts(v[1]) if isinstance(v, tuple) else [v]
f = K(P([1, 1, 0, 0, 0, 1]))
v = T.Taylor_Expansion(f, 8)
w = T.Taylor_Expansion(K(P([1, 1])), 8)
sys.exit(0 if len(parts(v)) == 4 and len(parts(w)) == 4 and combine(v, 8) == f else 1)
''', needs='an intermediate part of degree below two', breaks='the expansion has fewer parts than its bound asks for'),
]
