"""The transcript of prover and verifier."""


class FRI(object):
  """stands for the low-degree proof"""
  made = []
  read = []

  def __init__(self, field):
    self.field = field

  def generate_proximity_proof(self, f, root_of_unity, maxdeg_plus_1, exclude_multiples_of=0):
    FRI.made.append((root_of_unity, maxdeg_plus_1, exclude_multiples_of))
    return uf('proximity', 'bytes', f)

  def verify_proximity_proof(self, proof, merkle_root, root_of_unity, maxdeg_plus_1, exclude_multiples_of=0):
    FRI.read.append((root_of_unity, maxdeg_plus_1, exclude_multiples_of, proof, merkle_root))
    return True


contract('starks.fri.FRI', FRI)

from starks.stark import STARK
from starks.stark import get_pseudorandom_ks


class Machine(object):
  """the parameters of a prover and a verifier"""

  def __init__(self, field, width, steps, ext, g2, last, fs, samples):
    self.field = field
    self.width = width
    self.steps = steps
    self.extension_factor = ext
    self.precision = steps * ext
    self.G2 = g2
    self.G1 = g2**ext
    self.last_step_position = last
    self.step_polys = fs
    self.spot_check_security_factor = samples
    self.fft_solver = Solver()
    self.checked = []

  def get_degree(self):
    return 3

  def compute_merkle_spot_checks(self, mtree, l_mtree, samples=80):
    return STARK.compute_merkle_spot_checks(self, mtree, l_mtree, samples)

  def verify_proof_at_position(self, witness, boundary, ks, proof, i, pos):
    self.checked.append((i, pos))


class Solver(object):
  """any transform"""

  def fft(self, poly):
    return [uf('value', 'ring', poly)]


def sampler(positions, asked):
  def indices(entropy, modulus, count, exclude_multiples_of=0):
    asked.append((entropy, modulus, count, exclude_multiples_of))
    return positions
  return indices


@config(field='prime')
def law_spot_checks(ps: Seq(Nat), ext: Pos, steps: Pos, samples: Pos, g: Elt):
  """three branches for every position: the trace, the next state, the combination"""
  asked = []
  contract('starks.utils.get_pseudorandom_indices', sampler(ps, asked))
  contract('starks.merkle_tree.mk_branch', lambda t, i: (t, i))
  m = Machine(field(), 1, steps, ext, g, g, [], samples)
  tree, l_tree = [b'', b'root'], [b'', b'l_root']
  r = STARK.compute_merkle_spot_checks(m, tree, l_tree, samples)
  spec = []
  for p in ps:
    spec.append((tree, p))
    spec.append((tree, (p + ext) % (steps * ext)))
    spec.append((l_tree, p))
  same(r, spec)
  same(asked, [(b'l_root', steps * ext, samples, ext)])


@config(field='prime')
def law_branch_order(ps: Seq(Nat), j: Nat, ext: SmallGe(2), steps: SmallGe(2), samples: Pos, g: Elt, last: Elt):
  """the verifier reads at each position exactly the branches made for it"""
  assume(j < len(ps))
  assume(g**ps[j] != last)
  contract('starks.utils.get_pseudorandom_indices', sampler(ps, []))
  contract('starks.polynomial.polynomials_over', lambda r: polys())
  contract('starks.merkle_tree.mk_branch', lambda t, i: (t, i))
  contract('starks.poly_utils.lagrange_interp_2', lambda f, xs, ys: polys()([]))
  read = []

  def opening(root, index, proof, output_as_int=False):
    read.append((root, index, proof))
    return b''
  contract('starks.merkle_tree.verify_branch', opening)
  contract('starks.merkle_tree.unpack_merkle_leaf', lambda leaf, a, b: [0, 0, 0])
  m = Machine(field(), 1, steps, ext, g, last, [lambda s: field()(0)], samples)
  tree, l_tree = [b'', b'root'], [b'', b'l_root']
  branches = STARK.compute_merkle_spot_checks(m, tree, l_tree, samples)
  STARK.verify_proof_at_position(m, [[0]], [(0, 0, 0)], [1, 2, 3, 4], [b'root', b'l_root', branches, b''], j, ps[j])
  p = ps[j]
  n = (p + ext) % (steps * ext)
  same(read, [(b'root', p, (tree, p)), (b'root', n, (tree, n)), (b'l_root', p, (l_tree, p))])


@config(field='prime')
def law_proof(ps: Seq(Nat), ext: Pos, steps: Pos, samples: Pos, g: Elt, last: Elt, t: Poly, r: Poly, b: Poly):
  """the proof is read back in the order it was written, with the same parameters"""
  asked = []
  contract('starks.stark.construct_trace_polynomials', lambda w, f, root: [t])
  contract('starks.stark.construct_constraint_polynomials', lambda *a: [])
  contract('starks.stark.construct_remainder_polynomials', lambda *a: [r])
  contract('starks.stark.construct_boundary_polynomials', lambda *a: [b])
  contract('starks.stark.compute_pseudorandom_linear_combination', lambda *a: t)
  contract('starks.merkle_tree.merkelize_polynomial_evaluations', lambda w, e: [b'', uf('root', 'bytes', e)])
  contract('starks.merkle_tree.merkelize', lambda e: [b'', uf('root', 'bytes', e)])
  contract('starks.utils.get_pseudorandom_indices', sampler(ps, asked))
  contract('starks.merkle_tree.mk_branch', lambda tree, i: (tree, i))
  contract('starks.stark.get_pseudorandom_ks', lambda root, n: [1, 2, 3, 4])
  m = Machine(field(), 1, steps, ext, g, last, [], samples)
  w = [[0]]
  bd = [(0, 0, 0)]
  proof = STARK.mk_proof(m, w, bd)
  same(STARK.verify_proof(m, proof, w, bd), True)
  root = uf('root', 'bytes', [[uf('value', 'ring', t)], [uf('value', 'ring', r)], [uf('value', 'ring', b)]])
  l_root = uf('root', 'bytes', [uf('value', 'ring', t)])
  same(proof[0], root)
  same(proof[1], l_root)
  same(FRI.made, [(g, steps * 3, ext)])
  same(FRI.read, [(g, steps * 3, ext, uf('proximity', 'bytes', t), l_root)])
  same(asked, [(l_root, steps * ext, samples, ext), (l_root, steps * ext, samples, ext)])
  same(m.checked, [(i, ps[i]) for i in range(len(ps))])


@config(field='prime')
def law_arguments(ps: Seq(Nat), ext: Pos, steps: Pos, samples: Pos, g: Elt, last: Elt, t: Poly, c: Poly, r: Poly, b: Poly):
  """the prover hands every construction its own parameters"""
  seen = []

  def trace(w, f, root):
    seen.append(('trace', w, root))
    return [t]

  def constraint(fs, traces, f, root, width):
    seen.append(('constraint', fs, traces, root, width))
    return [c]

  def remainder(cs, f, n, position):
    seen.append(('remainder', cs, n, position))
    return [r]

  def boundary(traces, w, bd, f, position, width):
    seen.append(('boundary', traces, w, bd, position, width))
    return [b]

  def combine(entropy, traces, rems, bounds, f, root, degree, n, width):
    seen.append(('combine', entropy, traces, rems, bounds, root, degree, n, width))
    return t
  contract('starks.stark.construct_trace_polynomials', trace)
  contract('starks.stark.construct_constraint_polynomials', constraint)
  contract('starks.stark.construct_remainder_polynomials', remainder)
  contract('starks.stark.construct_boundary_polynomials', boundary)
  contract('starks.stark.compute_pseudorandom_linear_combination', combine)
  contract('starks.merkle_tree.merkelize_polynomial_evaluations', lambda w, e: [b'', b'root'])
  contract('starks.merkle_tree.merkelize', lambda e: [b'', b'l_root'])
  contract('starks.utils.get_pseudorandom_indices', sampler(ps, []))
  contract('starks.merkle_tree.mk_branch', lambda tree, i: (tree, i))
  m = Machine(field(), 1, steps, ext, g, last, [7], samples)
  w = [[0]]
  bd = [(0, 0, 0)]
  STARK.mk_proof(m, w, bd)
  same(seen, [('trace', w, g**ext), ('constraint', [7], [t], g**ext, 1), ('remainder', [c], steps, last),
              ('boundary', [t], w, bd, last, 1), ('combine', b'root', [t], [r], [b], g, steps * ext, steps, 1)])


@config(field='prime')
def law_setup(steps: Pos, ext: Pos, width: Pos, samples: Pos):
  """roots of unity, size and last position of the domain"""

  class Powers(object):
    def __init__(self, r):
      self.r = r

    def __getitem__(self, i):
      return self.r**i
  contract('starks.utils.get_power_cycle', lambda r, f: Powers(r))
  assume(field().p != 2)
  s = STARK(field(), steps, ext, width, [1, 2], samples)
  g = field()(7)**((field().p - 1) // (steps * ext))
  same(s.precision, steps * ext)
  same(s.G2, g)
  same(s.G1, g**ext)
  same(s.last_step_position, g**((steps - 1) * ext))
  same(s.width, width)
  same(s.steps, steps)
  same(s.step_polys, [1, 2])
  same(s.spot_check_security_factor, samples)
  same(s.extension_factor, ext)
  same(s.fft_solver.root_of_unity, g)


def law_challenges(root: Bytes, n: Nat):
  """the prover and the verifier derive the same coefficients"""
  deterministic([get_pseudorandom_ks(root, 4), get_pseudorandom_ks(root, n)])
  same(get_pseudorandom_ks(root, 4), get_pseudorandom_ks(root, 4))


@config(field='prime')
def law_degree_bound(g: Elt, last: Elt, t: Poly):
  """both sides use the same degree bound, whatever the degree of the step polynomials and the configuration"""
  contract('starks.stark.construct_trace_polynomials', lambda w, f, root: [t])
  contract('starks.stark.construct_constraint_polynomials', lambda *a: [])
  contract('starks.stark.construct_remainder_polynomials', lambda *a: [t])
  contract('starks.stark.construct_boundary_polynomials', lambda *a: [t])
  contract('starks.stark.compute_pseudorandom_linear_combination', lambda *a: t)
  contract('starks.merkle_tree.merkelize_polynomial_evaluations', lambda w, e: [b'', b'root'])
  contract('starks.merkle_tree.merkelize', lambda e: [b'', b'l_root'])
  contract('starks.merkle_tree.mk_branch', lambda tree, i: (tree, i))
  contract('starks.stark.get_pseudorandom_ks', lambda root, n: [1, 2, 3, 4])
  for degree in [0, 1, 2, 3, 5, 16]:
    for steps, ext, samples in [(1, 4, 1), (4, 8, 80), (64, 8, 300), (512, 2, 20)]:
      asked = []
      contract('starks.utils.get_pseudorandom_indices', sampler([3, 5], asked))

      class Other(Machine):
        def get_degree(self):
          return degree
      m = Other(field(), 1, steps, ext, g, last, [], samples)
      FRI.made.clear()
      FRI.read.clear()
      proof = STARK.mk_proof(m, [[0]], [(0, 0, 0)])
      same(STARK.verify_proof(m, proof, [[0]], [(0, 0, 0)]), True)
      same(FRI.made, [(g, steps * degree, ext)])
      same([r[:3] for r in FRI.read], [(g, steps * degree, ext)])
      same(asked, [(b'l_root', steps * ext, samples, ext), (b'l_root', steps * ext, samples, ext)])
