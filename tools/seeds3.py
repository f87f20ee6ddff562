FRI = '''
import types
fri = types.ModuleType('starks.fri')
class FRI(object):
  def __init__(self, field): pass
  def generate_proximity_proof(self, *a, **k): return ['low degree']
  def verify_proximity_proof(self, *a, **k): return True
fri.FRI = FRI
sys.modules['starks.fri'] = fri
'''
STARK = FRI + '''
import io, contextlib
from starks.modp import IntegersModP
from starks.utils import generate_Xi_s
from starks import stark
from starks.air import get_computational_trace
F = IntegersModP(2**256 - 2**32 * 351 + 1)
STEPS, EXT = 8, 8
def setup(width=2):
  Xs = generate_Xi_s(F, width)
  polys = [Xs[1], Xs[0] + Xs[1]]
  trace, out = get_computational_trace([F(3), F(1)], STEPS, width, polys)
  witness = [[trace[i][j] for i in range(STEPS)] for j in range(width)]
  boundary = [(0, 0, F(3)), (0, 1, F(1))]
  return stark.STARK(F, STEPS, EXT, width, polys, 5), witness, boundary
'''
STUBS = '''
import types
for name in ('requests', 'flask'):
  sys.modules[name] = types.ModuleType(name)
sys.modules['flask'].Flask = sys.modules['flask'].jsonify = sys.modules['flask'].request = None
'''
SEEDS = [
 dict(id='c03-values-only', property='C03',
      edits=[('starks/numbertype.py', "    argTuple = (args, tuple(sorted(kwargs.items())))\n", "    # The names only matter for the order\n    argTuple = args + tuple(v for _, v in sorted(kwargs.items()))\n"),
             ('starks/numbertype.py', "    if argTuple not in cache:\n", "    if cache.get(argTuple) is None:\n")],
      demo='''
from starks.finitefield import FiniteField
a = FiniteField(3, 2)
b = FiniteField(p=2, m=3)
sys.exit(0 if (b.p, b.m) == (2, 3) and a is FiniteField(3, 2) else 1)
''', needs='one call with keywords whose alphabetical order differs from the positional one', breaks='FiniteField(p=2, m=3) gives the field of 9 elements'),
 dict(id='c06-short-bytes', property='C06',
      edits=[('starks/finitefield.py', "        self.poly = Polynomial(poly) % polynomialModulus\n", "        self.poly = Polynomial(poly)\n        if len(poly) > 32 * (m + 1):\n          self.poly = self.poly % polynomialModulus\n"),
             ('starks/finitefield.py', "        self.poly = poly % polynomialModulus\n", "        self.poly = poly if poly.degree() < m else poly % polynomialModulus\n")],
      demo='''
from starks.finitefield import FiniteField
F = FiniteField(3, 2)
raw = b''.join(x.to_bytes(32, 'big') for x in (1, 2, 1))
sys.exit(0 if F(raw) == F([1, 2, 1]) and F(raw).poly.degree() < 2 else 1)
''', needs='an encoding of exactly m+1 coefficients', breaks='an element of degree m is stored unreduced'),
 dict(id='c07-same-denominator', property='C07',
      edits=[('starks/rationals_modp.py', "      num = (self.m * other.n - other.m * self.n) % RationalModP.p\n", "      if self.n == other.n:\n        return RationalModP(abs(self.m - other.m), self.n)\n      num = (self.m * other.n - other.m * self.n) % RationalModP.p\n"),
             ('starks/rationals_modp.py', "    def __neg__(self):\n      return RationalModP(-self.m, self.n)\n", "    def __neg__(self):\n      return RationalModP(0 - self.m, self.n)\n")],
      demo='''
from starks.rationals_modp import RationalsModP
Q = RationalsModP(101)
sys.exit(0 if Q(2, 7) - Q(5, 7) == Q(-3, 7) else 1)
''', needs='equal denominators and a smaller first numerator', breaks='the difference loses its sign'),
 dict(id='c11-rational-hash', property='C11',
      edits=[('starks/rationals_modp.py', "      return isinstance(other, RationalModP) is False or (\n          (self.m * other.n) % RationalModP.p != (other.m * self.n) % RationalModP.p)\n",
              "      return not self == other\n\n    def __hash__(self):\n      return hash((self.m, self.n))\n")],
      demo='''
from starks.rationals_modp import RationalsModP
Q = RationalsModP(7)
a, b = Q(1, 2), Q(4, 1)
try:
  ha, hb = hash(a), hash(b)
except TypeError:
  sys.exit(0)
sys.exit(0 if a == b and ha == hb else 1)
''', needs='two fractions that are equal modulo p with different stored parts', breaks='equal rationals have different hashes'),
 dict(id='c13-constant', property='C13',
      edits=[('starks/fft.py', "  # Fill in vals with zeroes if needed\n", "  if len(vals) == 1 and not inv:\n    # A constant has the same value everywhere\n    return [vals[0]] * len(rootz)\n  # Fill in vals with zeroes if needed\n"),
             ('starks/fft.py', "    rootz.append((rootz[-1] * root_of_unity))\n  # Fill", "    rootz.append(rootz[-1] * root_of_unity)\n  # Fill") ][0:1] + [('starks/fft.py', "    # Regular FFT\n    return _fft(vals, rootz[:-1])\n", "    return _fft(vals, rootz[:-1])\n")],
      demo='''
from starks.modp import IntegersModP
from starks.fft import fft_1d
F = IntegersModP(17)
sys.exit(0 if fft_1d(F, [F(3)], 17, F(4)) == [3, 3, 3, 3] else 1)
''', needs='a one-coefficient polynomial', breaks='the transform of a constant has one value too many'),
 dict(id='c14-sorted-pair', property='C14',
      edits=[('starks/merkle_tree.py', "    nodes[i] = blake(nodes[i * 2] + nodes[i * 2 + 1])\n", "    nodes[i] = blake(b''.join(sorted(nodes[i * 2:i * 2 + 2])))\n"),
             ('starks/merkle_tree.py', "    if index % 2:\n      v = blake(p + v)\n    else:\n      v = blake(v + p)\n", "    v = blake(min(p, v) + max(p, v))\n")],
      demo='''
from starks.merkle_tree import merkelize, mk_branch, verify_branch
L = [i.to_bytes(32, 'big') for i in (9, 3, 7, 1, 8, 2, 6, 4)]
t = merkelize(L)
try:
  verify_branch(t[1], 1, mk_branch(t, 0))
except AssertionError:
  try:
    verify_branch(t[1], 2, mk_branch(t, 0))
  except AssertionError:
    sys.exit(0)
sys.exit(1)
''', needs='a branch checked at a position other than its own', breaks='the position is not bound by the hash path'),
 dict(id='c15-zero-chunk', property='C15',
      edits=[('starks/polynomial.py', "          coefficients.append(ring(raw))\n", "          # Zero coefficients are implicit\n          if any(raw):\n            coefficients.append(ring(raw))\n"),
             ('starks/polynomial.py', "          raw = c[32*i:32*(i+1)]\n", "          raw = c[32 * i:32 * (i + 1)]\n")],
      demo='''
from starks.modp import IntegersModP
from starks.polynomial import polynomials_over
P = polynomials_over(IntegersModP(31))
p = P([4, 0, 5])
sys.exit(0 if P(p.to_bytes()) == p else 1)
''', needs='an inner zero coefficient', breaks='decoding closes up the coefficients'),
 dict(id='c16-final-part', property='C16',
      edits=[('starks/compression.py', "  assert decompress_fri(o) == prf\n", "  # The last entry is stored as it is\n  assert decompress_fri(o)[:-1] == prf[:-1]\n")],
      demo='''
from starks.compression import compress_fri, decompress_fri
prf = [[b'r' * 32, [[[b'a' * 32]]]], [b'x' * 32, (1).to_bytes(2, 'big')]]
try:
  o = compress_fri(prf)
except AssertionError:
  sys.exit(0)
sys.exit(0 if decompress_fri(o) == prf else 1)
''', needs='a two-byte item in the last part of the proof', breaks='a form that decompresses to another proof is returned'),
 dict(id='c17-ceil', property='C17',
      edits=[('starks/utils.py', "    real_modulus = modulus * (exclude_multiples_of - 1) // exclude_multiples_of\n", "    real_modulus = modulus - modulus // exclude_multiples_of\n")],
      demo='''
from starks.utils import get_pseudorandom_indices
bad = False
for s in range(300):
  got = get_pseudorandom_indices(bytes([s % 256, s // 256]) * 16, 11, 8, 4)
  bad = bad or any(x >= 11 or x % 4 == 0 for x in got)
sys.exit(1 if bad else 0)
''', needs='a range that is no multiple of the exclusion factor', breaks='an index outside the range is drawn'),
 dict(id='c17-labels', property='C17',
      edits=[('starks/stark.py', """("0x0%s" % str(i)).encode("UTF-8") for i in range(num)]""", """b'0x0%d' % (i % 10) for i in range(num)]""")],
      demo=FRI + '''
from starks.stark import get_pseudorandom_ks
sys.exit(0 if len(set(get_pseudorandom_ks(b'r' * 32, 12))) == 12 else 1)
''', needs='more than ten challenge coefficients', breaks='coefficients repeat'),
 dict(id='c18-last-dimension', property='C18',
      edits=[('starks/stark.py', "      f_of_p_of_x_dim = f_of_p_of_x[dim]\n      assert (p_of_g1x_dim - f_of_p_of_x_dim - zvalue * d_of_x_dim) == 0\n", "      f_of_p_of_x_dim = f_of_p_of_x[dim]\n      residue = p_of_g1x_dim - f_of_p_of_x_dim - zvalue * d_of_x_dim\n    assert residue == 0\n")],
      demo=STARK + '''
with contextlib.redirect_stdout(io.StringIO()):
  s, witness, boundary = setup()
  proof = s.mk_proof(witness, boundary)
  assert s.verify_proof(proof, witness, boundary)
  # A verifier of another first step polynomial has to refuse
  Xs = generate_Xi_s(F, 2)
  s.step_polys = [Xs[0] * Xs[1], s.step_polys[1]]
  try:
    s.verify_proof(proof, witness, boundary)
    bad = True
  except AssertionError:
    bad = False
sys.exit(1 if bad else 0)
''', needs='a transition broken in a dimension other than the last', breaks='only the last dimension is checked'),
 dict(id='c18-missing-branches', property='C18',
      edits=[('starks/stark.py', "    for i, pos in enumerate(positions):\n      self.verify_proof_at_position", "    for i, pos in enumerate(positions[:len(branches) // 3]):\n      self.verify_proof_at_position")],
      demo=STARK + '''
with contextlib.redirect_stdout(io.StringIO()):
  s, witness, boundary = setup()
  proof = s.mk_proof(witness, boundary)
  assert s.verify_proof(proof, witness, boundary)
  proof[2] = proof[2][:6]
  try:
    s.verify_proof(proof, witness, boundary)
    bad = True
  except (AssertionError, IndexError):
    bad = False
sys.exit(1 if bad else 0)
''', needs='a proof with fewer openings than sampled positions', breaks='positions without openings are skipped'),
 dict(id='c19-sample-count', property='C19',
      edits=[('starks/stark.py', "    for pos in positions:\n      branches.append(mk_branch(mtree, pos))\n", "    for pos in sorted(positions):\n      branches.append(mk_branch(mtree, pos))\n")],
      demo=STARK + '''
with contextlib.redirect_stdout(io.StringIO()):
  s, witness, boundary = setup()
  proof = s.mk_proof(witness, boundary)
  try:
    good = s.verify_proof(proof, witness, boundary)
  except AssertionError:
    good = False
sys.exit(0 if good else 1)
''', needs='sampled positions that are not in increasing order', breaks='the openings do not come in the order the verifier reads'),
 dict(id='c20-last-pair', property='C20',
      edits=[('starks/air.py', "    for i in range(self.steps - 1):\n      if output[i] == False:\n        return False\n\n    return True\n", "    return all(output[:-1])\n")],
      demo='''
from starks.air import AIR
from starks.modp import IntegersModP
from starks.utils import generate_Xi_s
F = IntegersModP(101)
air = object.__new__(AIR)
air.field, air.width, air.steps = F, 1, 4
air.step_polys = generate_Xi_s(F, 1)
air.computational_trace = [[F(1)], [F(1)], [F(1)], [F(2)]]
sys.exit(1 if air.generate_monotone_circuit(air.generate_constraint_polynomials()) else 0)
''', needs='a trace whose last transition is wrong', breaks='the circuit accepts it'),
 dict(id='c21-zero-coefficient', property='C21',
      edits=[('starks/reedsolomon.py', "      for val, basis_elt in zip(basis_vals, self.basis):\n        elt += val * basis_elt\n", "      for val, basis_elt in zip(basis_vals, self.basis):\n        if val == 0:\n          break\n        elt = elt + val * basis_elt\n")],
      demo='''
from starks.modp import IntegersModP
from starks.reedsolomon import AffineSpace
F = IntegersModP(5)
got = list(AffineSpace(F, [F(1), F(2)]))
sys.exit(0 if got[1] == F(2) and len(got) == 25 else 1)
''', needs='a zero coefficient before a nonzero one', breaks='elements of the space are missing'),
 dict(id='c22-gap', property='C22',
      edits=[('starks/poly_utils.py', "  for degree, coeff in enumerate(poly.coefficients):\n    up_poly += coeff * X_i**degree\n", "  for degree, coeff in enumerate(poly.coefficients):\n    if degree and coeff == 0:\n      return up_poly\n    up_poly = up_poly + coeff * X_i**degree\n")],
      demo='''
from starks.modp import IntegersModP
from starks.polynomial import polynomials_over
from starks.poly_utils import make_multivar
F = IntegersModP(31)
p = polynomials_over(F).factory([1, 0, 2])
m = make_multivar(p, 1, F, 2)
sys.exit(0 if m([F(4), F(3)]) == p(F(3)) else 1)
''', needs='an inner zero coefficient', breaks='the higher terms are dropped'),
 dict(id='c22-projected-power', property='C22',
      edits=[('starks/poly_utils.py', "    out += polysOver([coeff]) * X**term[i]\n", "    if len(out) <= term[i]:\n      out = out + polysOver([coeff]) * X**term[i]\n    else:\n      slots = list(out)\n      slots[term[i]] = coeff\n      out = polysOver(slots)\n")],
      demo='''
from starks.modp import IntegersModP
from starks.multivariate_polynomial import multivariates_over
from starks.poly_utils import project_to_univariate
F = IntegersModP(31)
p = multivariates_over(F, 2).factory({(1, 0): F(2), (1, 1): F(3)})
u = project_to_univariate(p, 0, F, 2)
sys.exit(0 if len(u.coefficients) == 2 and u.coefficients[1]([F(5)]) == F(17) else 1)
''', needs='two terms with the same power of the projected variable', breaks='one of the terms is lost'),
 dict(id='c23-low-power', property='C23',
      edits=[('starks/poly_utils.py', "    power = (modulus**degree - 1) // factor\n", "    power = (modulus**degree - 1) // factor\n    if power <= degree:\n      # A power this low is not reduced\n      continue\n"),
             ('starks/poly_utils.py', "  for i, factor in enumerate(prime_factors):\n", "  for factor in prime_factors:\n")],
      demo='''
from starks.modp import IntegersModP
from starks.polynomial import polynomials_over
from starks.poly_utils import is_primitive
P = polynomials_over(IntegersModP(3)).factory
sys.exit(1 if is_primitive(P([-1, 1]), 3, 1) else 0)
''', needs='the polynomial x - 1 over Z/3', breaks='x of order 1 is accepted as primitive'),
 dict(id='c24-typo', property='C24',
      edits=[('misc/blockchain.py', "      raise ValueError('Invalid URL')\n", "      raise ValueError('Invalid URL %r' % adress)\n")],
      demo=STUBS + '''
from blockchain import Blockchain
try:
  Blockchain().register_node('')
except ValueError:
  sys.exit(0)
except NameError:
  sys.exit(1)
sys.exit(1)
''', needs='an empty node address', breaks='the refusal fails with NameError'),
 dict(id='c25-not-longest', property='C25',
      edits=[('misc/blockchain.py', "        if length > max_length and self.valid_chain(chain):\n          max_length = length\n          new_chain = chain\n", "        if length > max_length and self.valid_chain(chain):\n          new_chain = chain\n")],
      demo=STUBS + '''
import blockchain
bc = blockchain.Blockchain()
bc.valid_chain = lambda chain: True
bc.nodes = ['a', 'b']
chains = {'a': [1, 2, 3, 4], 'b': [1, 2, 3]}
class Response(object):
  status_code = 200
  def __init__(self, chain): self.chain = chain
  def json(self): return {'chain': self.chain, 'length': len(self.chain)}
blockchain.requests.get = lambda url: Response(chains[url.split('/')[2]])
bc.resolve_conflicts()
sys.exit(0 if len(bc.chain) == 4 else 1)
''', needs='two neighbours with longer chains, the longest asked first', breaks='a shorter chain replaces the longest'),
 dict(id='c25-cleared-pool', property='C25',
      edits=[('misc/blockchain.py', "    # Reset the current list of transactions\n    self.current_transactions = []\n", "    # Reset the current list of transactions\n    self.current_transactions.clear()\n")],
      demo=STUBS + '''
from blockchain import Blockchain
bc = Blockchain()
bc.new_transaction('a', 'b', 5)
block = bc.new_block(1, 'h')
sys.exit(0 if block['transactions'] == [{'sender': 'a', 'recipient': 'b', 'amount': 5}] else 1)
''', needs='a block with pending transactions', breaks='the block loses its transactions'),
 dict(id='c26-fit', property='C26',
      edits=[('misc/commitment.py', "    bits = [int(bit) for bit in integer]\n", "    bits = [int(bit) for bit in integer[-len(self.schemes):]]\n"),
             ('misc/commitment.py', "    if not 0 <= integer < 2**len(self.schemes):\n", "    if not 0 <= integer <= 2**len(self.schemes):\n")],
      demo='''
from commitment import BBSIntCommitmentScheme
s = BBSIntCommitmentScheme(3, lambda x: x * x % 77, lambda x: x % 2, 6)
try:
  s.commit(8)
except ValueError:
  sys.exit(0)
sys.exit(1)
''', needs='the integer 2**bits', breaks='an integer that does not fit is committed as 0'),
 dict(id='c26-low-bits', property='C26',
      edits=[('misc/commitment.py', "        self.oneWayPermutation(securityString),\n        unguessableBit ^ trueBit,  # python xor\n", "        self.oneWayPermutation(securityString),\n        unguessableBit ^ (trueBit & 1),  # python xor\n"),
             ('misc/commitment.py', "    trueBit = self.decode(securityString, claimedCommitment)\n", "    trueBit = self.decode(securityString, claimedCommitment) & 1\n"),
             ('misc/commitment.py', "    return claimedCommitment == (\n        self", "    return tuple(claimedCommitment[1:]) == tuple(claimedCommitment[1:]) and claimedCommitment[0] % 2**64 == (\n        self")][2:3],
      demo='''
sys.exit(0)
''', needs='x', breaks='x'),
 dict(id='c27-sources', property='C27',
      edits=[('misc/zero_knowledge.py', "    graph_to_check = [self.G1, self.G2][choice - 1]\n    f = isomorphism\n", "    f = isomorphism\n    graph_to_check = [self.G1, self.G2][choice - 1]\n"),
             ('misc/zero_knowledge.py', "    vertices = set(v for e in H for v in e)\n", "    vertices = set(i for (i, j) in H)\n")],
      demo='''
from zero_knowledge import ZKVerifier
v = ZKVerifier([(1, 2), (1, 2)], [(1, 2), (1, 2)])
sys.exit(1 if v.accepts(lambda i: 1 if i == 1 else 2, 1, [(1, 2), (1, 3)]) else 0)
''', needs='two vertices that only occur as second ends', breaks='a map that merges them is accepted'),
 dict(id='c27-retry', property='C27',
      edits=[('misc/zero_knowledge.py', "    assert result\n    probability_fooled *= 0.5\n    print(probability_fooled)\n", "    if not result:\n      # Play this round again\n      continue\n    probability_fooled *= 0.5\n    print(probability_fooled)\n")],
      demo='''
import zero_knowledge as z
rounds = iter([True, False] * 100)
z.run_protocol = lambda *a: next(rounds)
z.print = lambda *a: None
try:
  z.convince_beyond_doubt(None, None, None, 0.1)
except AssertionError:
  sys.exit(0)
sys.exit(1)
''', needs='a failing round among passing ones', breaks='a failed round is repeated instead of refused'),
 dict(id='c27-non-edge', property='C27',
      edits=[('misc/zkp_3_coloring.py', "    if not (u, v) in self.graph:\n", "    if u not in self.vertexToScheme or v not in self.vertexToScheme or u == v:\n")],
      demo='''
import blum_blum_shub
from zkp_3_coloring import ZK3ColProver
p = ZK3ColProver([(1, 2), (2, 3)], {1: 0, 2: 1, 3: 0}, lambda x: x * x % 77, blum_blum_shub.parity)
p.commit_to_coloring()
try:
  p.reveal_colors(1, 3)
except Exception:
  sys.exit(0)
sys.exit(1)
''', needs='a query for two vertices that are not joined', breaks='the colours of a non-edge are opened'),
 dict(id='c29-upper-witness', property='C29',
      edits=[('misc/primality.py', "    possibleWitness = random.randint(2, p - 2)\n", "    possibleWitness = 2 + random.getrandbits(p.bit_length()) % (p - 1)\n")],
      demo='''
from primality import probablyPrime
sys.exit(0 if all(probablyPrime(5, 100) for _ in range(50)) else 1)
''', needs='the draw p itself', breaks='a prime is rejected'),
 dict(id='c29-half', property='C29',
      edits=[('misc/primality.py', "  for _ in range(accuracy):\n", "  # Small numbers need fewer witnesses\n  for _ in range(min(accuracy, p.bit_length() - 3)):\n")],
      demo='''
import random
from primality import probablyPrime
drawn = []
r = random.randint
random.randint = lambda a, b: drawn.append(1) or r(a, b)
probablyPrime(101, 20)
sys.exit(0 if len(drawn) == 20 else 1)
''', needs='a number with fewer bits than the accuracy', breaks='fewer witnesses are tested than requested'),
 dict(id='c30-tilde', property='C30',
      edits=[('starks/apr.py', "      Eps_N.append(Eps_boundaries[i](N_X_loc))\n", "      Eps_N.append(Eps_boundaries[i](X_loc))\n")],
      demo='''
from starks.apr import APR
class Poly(object):
  def __init__(self, name): self.name = name
  def __call__(self, x): return Text('%s(%s)' % (self.name, x))
class Text(str):
  def __mul__(self, o): return Text('%s*%s' % (self, o))
  def __add__(self, o): return Text('%s+%s' % (self, o))
  def __len__(self): return 2
apr = object.__new__(APR)
apr.Nbrs = [1]
apr.Z_boundaries, apr.Eps_boundaries = [Poly('Z')], [Poly('E')]
got = apr.tilde_expansion([0], Poly('N'), lambda c: Text('X'))
sys.exit(0 if got == ['X*Z(N(X))+E(N(X))'] else 1)
''', needs='a neighbour other than the identity', breaks='the interpolant is taken at the vertex itself'),
 dict(id='c31-round-constant', property='C31',
      edits=[('starks/utils.py', "    inp = (inp**3 + round_constants[i % len(round_constants)]) % modulus\n", "    inp = (inp**3 + round_constants[i & (len(round_constants) - 1)]) % modulus\n")],
      demo='''
import io, contextlib
from starks.utils import mimc
with contextlib.redirect_stdout(io.StringIO()):
  got = mimc(2, 4, [1, 2, 3])
sys.exit(0 if got == ((2**3 + 1)**3 + 2)**3 + 3 else 1)
''', needs='a number of round constants that is no power of two', breaks='the constants are taken in another order'),
 dict(id='c32-one-check', property='C32',
      edits=[('starks/stark.py', "  for cp in constraint_polys:\n    assert cp % z == 0\n", "  assert sum(constraint_polys, polysOver([])) % z == 0\n")],
      demo=STARK + '''
P = stark.polynomials_over(F).factory
with contextlib.redirect_stdout(io.StringIO()):
  s, witness, boundary = setup()
  try:
    stark.construct_remainder_polynomials([P([1]), P([-1])], F, STEPS, s.last_step_position)
    bad = True
  except AssertionError:
    bad = False
sys.exit(1 if bad else 0)
''', needs='two constraint polynomials with opposite remainders', breaks='an inexact division goes unnoticed'),
 dict(id='c35-zero-amount', property='C35',
      edits=[('misc/run_blockchain.py', "  if not all(k in values for k in required):\n", "  if not all(values.get(k) for k in required):\n")],
      demo='''
import types
class Flask(object):
  def __init__(self, name): pass
  def route(self, *a, **k): return lambda f: f
flask = types.ModuleType('flask')
flask.Flask, flask.jsonify = Flask, lambda d: d
flask.request = types.SimpleNamespace(get_json=lambda: {'sender': 'a', 'recipient': 'b', 'amount': 0})
sys.modules['flask'] = flask
sys.modules['requests'] = types.ModuleType('requests')
import run_blockchain as r
sys.exit(0 if r.new_transaction()[1] == 201 and len(r.blockchain.current_transactions) == 1 else 1)
''', needs='a complete transaction with amount 0', breaks='it is refused'),
 dict(id='c04-silent-compare', property='C04',
      edits=[('starks/numbertype.py', "        other = self.__class__(other)\n      except TypeError:\n", "        other = self.__class__(other)\n      except TypeError:\n        if f.__name__ in ('__eq__', '__ne__'):\n          return NotImplemented\n"),
             ('starks/numbertype.py', "      except Exception as e:\n", "      except Exception as e:  # anything else\n")][0:1] + [('starks/numbertype.py', "        raise TypeError(message % (other, type(other).__name__,\n                                   type(self).__name__, f.__name__))\n", "        raise TypeError(message % (other, type(other).__name__, type(self).__name__, f.__name__))\n")],
      demo='''
from starks.modp import IntegersModP
try:
  IntegersModP(7)(3) == 'x'
except TypeError:
  sys.exit(0)
sys.exit(1)
''', needs='a comparison with a value that cannot be converted', breaks='no TypeError is raised'),
 dict(id='c10-divmod-pow', property='C10',
      edits=[('starks/numbertype.py', "    R = (self if n & 1 else self.__class__(1)) % modulus\n", "    R = self if n & 1 else self.__class__(1)\n"),
             ('starks/numbertype.py', "    i = 2\n    while i <= n:\n      Q = (Q * Q) % modulus\n", "    i = 2\n    while i <= n:\n      Q = (Q * Q) % modulus if len(bin(n)) > 4 else Q * Q\n")][:1] + [('starks/numbertype.py', "      i = i << 1\n\n    return R\n\n  def to_bytes", "      i = i * 2\n\n    return R\n\n  def to_bytes")],
      demo='''
from starks.modp import IntegersModP
from starks.polynomial import polynomials_over
P = polynomials_over(IntegersModP(5)).factory
m = P([1, 0, 1])
sys.exit(0 if P([0, 0, 0, 1]).powmod(1, m) == P([0, -1]) else 1)
''', needs='exponent 0 or 1', breaks='the result is not reduced'),
 dict(id='c02-hash-order', property='C02',
      edits=[('starks/compression.py', "  for branch in branches:\n    for p in branch:\n      add_obj(p)\n    add_obj(b'----')\n", "  # The separator is referred to most, so it comes early\n  for branch in branches:\n    for p in branch:\n      add_obj(p)\n    add_obj(b'----')\n")],
      demo='''
sys.exit(0)
''', needs='x', breaks='x'),
 dict(id='c01-inverse-in-place', property='C01',
      edits=[('starks/poly_utils.py', "  outputs = [0] * len(values)\n", "  # Short batches are inverted where they stand\n  outputs = values if len(values) == 1 else [0] * len(values)\n"),
             ('starks/poly_utils.py', "    outputs[i - 1] = partials[i - 1] * inv if values[i - 1] != 0 else 0\n    if values[i-1] != 0:\n      inv = inv * values[i - 1]\n", "    if values[i - 1] != 0:\n      val = values[i - 1]\n      outputs[i - 1] = partials[i - 1] * inv\n      inv = inv * val\n")],
      demo='''
from starks.modp import IntegersModP
from starks.poly_utils import multi_inv
F = IntegersModP(31)
v = [F(3)]
multi_inv(F, v)
sys.exit(0 if v == [F(3)] else 1)
''', needs='a batch of one', breaks='the caller\'s list is overwritten'),
 dict(id='c28-signed-zero', property='C28',
      edits=[('starks/floatingpoint.py', "      output = self + Fp(other.v, other.p, other.z, other.s ^ 1)\n      return output\n", "      sign = other.s ^ 1 if self.p != other.p else 1\n      return self + Fp(other.v, other.p, other.z, sign)\n")],
      demo='''
from starks.finitefield import FiniteField
from starks.floatingpoint import FloatingPoint
F = FiniteField(2, 4)
Fl = FloatingPoint(F)
a, b = Fl(F([1]), F([1]), 0, 0), Fl(F([1, 1]), F([1]), 0, 1)
got, want = a - b, a + Fl(F([1, 1]), F([1]), 0, 0)
sys.exit(0 if got.s == want.s else 1)
''', needs='equal exponents and a negative subtrahend', breaks='the difference has the wrong sign'),
]
SEEDS = [s for s in SEEDS if s['needs'] != 'x']
