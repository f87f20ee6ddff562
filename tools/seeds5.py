"""planted bugs, fifth part: the verifier's boundary, the committed order, gaps in graphs"""
STK = '''
import types
fri = types.ModuleType('starks.fri')
bounds = []
class FRI(object):
  def __init__(self, field): pass
  def generate_proximity_proof(self, f, root, bound, **k):
    bounds.append(bound)
    return ['low degree']
  def verify_proximity_proof(self, proof, m, root, bound, **k):
    bounds.append(bound)
    return True
fri.FRI = FRI
sys.modules['starks.fri'] = fri
import io, contextlib
from starks.modp import IntegersModP
from starks.utils import generate_Xi_s
from starks import stark
from starks.air import get_computational_trace
F = IntegersModP(2**256 - 2**32 * 351 + 1)
STEPS, EXT = 8, 8
def setup(fs, inp):
  width = len(inp)
  trace, out = get_computational_trace(inp, STEPS, width, fs)
  witness = [[trace[i][j] for i in range(STEPS)] for j in range(width)]
  boundary = [(0, j, inp[j]) for j in range(width)]
  return stark.STARK(F, STEPS, EXT, width, fs, 5), witness, boundary
'''
SEEDS = [
 dict(id='c18-own-input', property='C18',
      edits=[('starks/stark.py', "      (_, _, input_value) = constraint\n      # TODO(rbharath): Explicitly", "      (_, j, _) = constraint\n      input_value = witness[j][0]\n      # TODO(rbharath): Explicitly")],
      demo=STK + '''
with contextlib.redirect_stdout(io.StringIO()):
  Xs = generate_Xi_s(F, 2)
  s, witness, boundary = setup([Xs[1], Xs[0] + Xs[1]], [F(3), F(1)])
  proof = s.mk_proof(witness, boundary)
  assert s.verify_proof(proof, witness, boundary)
  try:
    s.verify_proof(proof, witness, [(0, 0, F(3)), (0, 1, F(2))])
    bad = True
  except AssertionError:
    bad = False
sys.exit(1 if bad else 0)
''', needs='boundary constraints that differ from the first row of the witness', breaks='the verifier checks the input of the witness instead of the claimed one'),
 dict(id='c32-order', property='C32',
      edits=[('starks/stark.py', "    polys = trace_polys + remainder_polys + boundary_polys\n", "    polys = trace_polys + boundary_polys + remainder_polys\n")],
      demo=STK + '''
with contextlib.redirect_stdout(io.StringIO()):
  Xs = generate_Xi_s(F, 2)
  s, witness, boundary = setup([Xs[1], Xs[0] + Xs[1]], [F(3), F(1)])
  proof = s.mk_proof(witness, boundary)
  try:
    bad = not s.verify_proof(proof, witness, boundary)
  except AssertionError:
    bad = True
sys.exit(1 if bad else 0)
''', needs='a whole proof: no single construction is wrong', breaks='remainder and boundary values are committed in each other\'s place'),
 dict(id='c19-degree-one', property='C19',
      edits=[('starks/stark.py', "          self.steps*self.get_degree(),\n", "          self.steps*max(self.get_degree(), 2),\n")],
      demo=STK + '''
with contextlib.redirect_stdout(io.StringIO()):
  Xs = generate_Xi_s(F, 2)
  s, witness, boundary = setup([Xs[1], Xs[0] + Xs[1]], [F(3), F(1)])
  proof = s.mk_proof(witness, boundary)
  s.verify_proof(proof, witness, boundary)
sys.exit(0 if bounds[0] == bounds[1] else 1)
''', needs='step polynomials of degree one', breaks='prover and verifier use different degree bounds'),
 dict(id='c27-gap', property='C27',
      edits=[('misc/zero_knowledge.py', "  n = num_vertices(G)\n\n  isomorphism = random_permutation(n)\n", "  n = len(set(v for e in G for v in e))\n\n  isomorphism = random_permutation(n)\n")],
      demo='''
from zero_knowledge import ZKVerifier, simulate_protocol
G1, G2 = [(1, 3), (3, 5)], [(5, 1), (1, 2)]
v = ZKVerifier(G1, G2)
try:
  ok = all(v.accepts(f, c, H) for H, c, f in (simulate_protocol(G1, G2) for _ in range(40)))
except (IndexError, ValueError):
  ok = False
sys.exit(0 if ok else 1)
''', needs='a graph with a vertex that has no edge', breaks='the simulator permutes too few vertices'),
 dict(id='c25-genesis-pool', property='C25',
      edits=[('misc/blockchain.py', "    # Reset the current list of transactions\n    self.current_transactions = []\n\n    self.chain.append(block)\n", "    # Reset the current list of transactions\n    if self.chain:\n      self.current_transactions = []\n\n    self.chain.append(block)\n")],
      demo='''
import types
for name, attrs in (('requests', {}), ('flask', {'Flask': object, 'jsonify': dict, 'request': None})):
  if name not in sys.modules:
    m = types.ModuleType(name)
    m.__dict__.update(attrs)
    sys.modules[name] = m
from blockchain import Blockchain
b = Blockchain()
h = b.hash(b.last_block)
b.new_transaction('a', 'b', 1)
sys.exit(0 if b.hash(b.chain[0]) == h and len(b.current_transactions) == 1 else 1)
''', needs='a transaction before the first mined block', breaks='the genesis block shares the pool, so its hash changes after it was linked to'),
]
