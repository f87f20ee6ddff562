"""Challenges, proofs and verdicts are functions of their explicit inputs."""
CONFIG = {'failures': 'ignore'}


class FRI(object):
  """stands for the low-degree proof"""

  def __init__(self, field):
    self.field = field

  def generate_proximity_proof(self, *args, **kw):
    return [b'proof']

  def verify_proximity_proof(self, proof, merkle_root, root_of_unity, maxdeg_plus_1, exclude_multiples_of=0):
    return uf('fri', 'bool', proof, merkle_root, root_of_unity, maxdeg_plus_1, exclude_multiples_of)


contract('starks.fri.FRI', FRI)

from starks.utils import get_pseudorandom_indices
from starks.utils import mimc
from starks.utils import get_power_cycle
from starks.utils import is_a_power_of_2
from starks.merkle_tree import blake
from starks.merkle_tree import permute4
from starks.merkle_tree import get_index_in_permuted
from starks.merkle_tree import merkelize
from starks.merkle_tree import mk_branch
from starks.merkle_tree import verify_branch
from starks.merkle_tree import unpack_merkle_leaf
from starks.merkle_tree import merkelize_polynomial_evaluations
from starks.compression import compress_fri
from starks.compression import decompress_fri
from starks.compression import compress_branches
from starks.compression import decompress_branches
from starks.compression import bin_length
from starks.fft import fft_1d
from starks.fft import mul_polys
from starks.poly_utils import multi_inv
from starks.poly_utils import zpoly
from starks.poly_utils import lagrange_interp
from starks.poly_utils import lagrange_interp_2
from starks.poly_utils import lagrange_interp_4
from starks.poly_utils import multi_interp_4
from starks.air import get_computational_trace
from starks.fri import select_random
from starks.fri import HextoBin
from starks.fri import select_subspace
from starks.fri import eval_on_subspace
from starks.fri import AffineSubspaceFRI
from starks.reedsolomon import AffineSpace
from starks.stark import STARK
from starks.stark import get_pseudorandom_ks
from starks.stark import construct_trace_polynomials
from starks.stark import construct_constraint_polynomials
from starks.stark import construct_remainder_polynomials
from starks.stark import construct_boundary_polynomials
from starks.stark import compute_pseudorandom_linear_combination_1d
from starks.stark import compute_pseudorandom_linear_combination
from misc.blum_blum_shub import parity
from misc.primality import probablyPrime


def alone(call):
  """the value of a call after everything before it, which is its value in a process that made no call before"""
  v = call()
  same(v, fresh(call))
  return v


# ---- challenges

def law_indices(e: Bytes(32), m: Pos, d: Bytes(32)):
  """challenge indices"""
  assume(m < 2**24)
  s = seeds()
  r = get_pseudorandom_indices(e, m, 20)
  deterministic(r)
  x = alone(lambda: get_pseudorandom_indices(d, m, 20))
  same(get_pseudorandom_indices(e, m, 20), r)
  same(seeds(), s)


def law_indices_excluding(e: Bytes(32), m: Pos, d: Bytes(32), n: SmallGe(2)):
  """challenge indices with excluded multiples"""
  assume(m < 2**24)
  s = seeds()
  r = get_pseudorandom_indices(e, m, 10, n)
  deterministic(r)
  x = alone(lambda: get_pseudorandom_indices(d, m, 10, n))
  same(get_pseudorandom_indices(e, m, 10, n), r)
  same(seeds(), s)


def law_indices_other_range(e: Bytes(32), m: Pos, k: Pos):
  """challenge indices after a call with the same entropy and another range and count"""
  assume(m < 2**24)
  assume(k < 2**24)
  r = get_pseudorandom_indices(e, m, 4)
  x = alone(lambda: get_pseudorandom_indices(e, k, 4))
  y = alone(lambda: get_pseudorandom_indices(e, m, 6))
  z = alone(lambda: get_pseudorandom_indices(e, m, 4, 8))
  same(get_pseudorandom_indices(e, m, 4), r)
  same(get_pseudorandom_indices(e, k, 4), x)
  same(get_pseudorandom_indices(e, m, 6), y)
  same(get_pseudorandom_indices(e, m, 4, 8), z)


def law_indices_long(e: Bytes(32), t: Bytes(8), u: Bytes(16), m: Pos):
  """challenge indices from longer entropies that start or end alike"""
  assume(m < 2**24)
  r = get_pseudorandom_indices(e + t, m, 10)
  deterministic(r)
  alone(lambda: get_pseudorandom_indices(e + u, m, 10))
  alone(lambda: get_pseudorandom_indices(e, m, 10))
  alone(lambda: get_pseudorandom_indices(u + t + e, m, 10))
  alone(lambda: get_pseudorandom_indices(u + t + e, m, 10, 8))
  same(get_pseudorandom_indices(e + t, m, 10), r)


def law_ks(root: Bytes(32), other: Bytes(32)):
  """challenge coefficients"""
  s = seeds()
  r = get_pseudorandom_ks(root, 6)
  deterministic(r)
  x = alone(lambda: get_pseudorandom_ks(other, 6))
  y = alone(lambda: get_pseudorandom_ks(root, 4))
  same(get_pseudorandom_ks(root, 6), r)
  same(get_pseudorandom_ks(root, 4), y)
  same(seeds(), s)


@config(field='prime')
def law_select_random(x: Str, y: Str):
  """FRI challenges"""
  contract('starks.polynomial.polynomials_over', lambda r: (lambda bits: uf('poly', 'any', bits)))
  contract('starks.modp.IntegersModP', lambda p: None)
  contract('starks.fri.HextoBin', lambda s: [s])
  F = lambda v: uf('felt', 'ring', v)
  F.p = 2
  s = seeds()
  r = select_random(F, x)
  deterministic(r)
  o = select_random(F, y)
  same(select_random(F, x), r)
  same(seeds(), s)


# ---- hashing and trees

def law_blake(x: Bytes, y: Bytes):
  """the hash function"""
  r = blake(x)
  deterministic(r)
  o = alone(lambda: blake(y))
  same(blake(x), r)


def law_permute(L: List(Int, 8)):
  """interleaving"""
  s = seeds()
  r = permute4(L)
  deterministic(r)
  deterministic([get_index_in_permuted(i, 8) for i in range(8)])
  same(permute4(L), r)
  same(seeds(), s)


def law_tree(L: List(Bytes(32), 8), M: List(Bytes(32), 8)):
  """trees, branches and their verification"""
  s = seeds()
  t = merkelize(L)
  deterministic(t)
  u = alone(lambda: merkelize(M))
  same(merkelize(L), t)
  b = mk_branch(t, 5)
  deterministic(b)
  c = alone(lambda: mk_branch(u, 5))
  same(mk_branch(t, 5), b)
  deterministic(verify_branch(t[1], 5, b))
  same(verify_branch(t[1], 5, b), L[5])
  same(verify_branch(u[1], 5, c), M[5])
  same(seeds(), s)


class Leaf:
  def __init__(self, x):
    self.x = x

  def to_bytes(self):
    return uf('enc', 'bytes', self.x)


@config(field='prime')
def law_tree_elements(x: List(Elt, 4), y: List(Elt, 4)):
  """the tree over field elements"""
  t = merkelize([Leaf(v) for v in x])
  deterministic(t)
  u = alone(lambda: merkelize([Leaf(v) for v in y]))
  same(merkelize([Leaf(v) for v in x]), t)


def law_verdict(root: Bytes(32), b: List(Bytes(32), 4), i: Below(8)):
  """the verdict on any branch, also after another verdict"""
  r = raised(lambda: verify_branch(root, i, b), 'AssertionError')
  deterministic(r)
  o = alone(lambda: raised(lambda: verify_branch(root, 0, b), 'AssertionError'))
  same(raised(lambda: verify_branch(root, i, b), 'AssertionError'), r)


class Packed:
  def __init__(self, x):
    self.x = x

  def to_bytes(self):
    return self.x


def law_evaluations(a: List(Bytes(32), 4), b: List(Bytes(32), 4)):
  """the tree over packed evaluations"""
  K = [[Packed(x) for x in a], [Packed(x) for x in b]]
  t = merkelize_polynomial_evaluations(1, K)
  deterministic(t)
  L = [[Packed(x) for x in b], [Packed(x) for x in a]]
  alone(lambda: merkelize_polynomial_evaluations(1, L))
  same(merkelize_polynomial_evaluations(1, K), t)


# ---- compression

def law_compress_branches(a: Bytes(32), b: Bytes(32), c: Bytes(32)):
  """compressed branches"""
  s = seeds()
  x = [[a, b], [b, c], [c, a]]
  o = alone(lambda: compress_branches(x))
  deterministic(o)
  d = decompress_branches(o)
  deterministic(d)
  p = alone(lambda: compress_branches([[c, b], [a, a]]))
  same(compress_branches(x), o)
  same(decompress_branches(o), d)
  same(seeds(), s)


def law_compress_fri(r: Bytes(32), a: Bytes(32), b: Bytes(32), last: Bytes(32)):
  """compressed low-degree proofs"""
  x = [[r, [[[a, b]]]], [last]]
  o = alone(lambda: compress_fri(x))
  deterministic(o)
  d = decompress_fri(o)
  deterministic(d)
  p = alone(lambda: compress_fri([[a, [[[r, r]]]], [b]]))
  same(compress_fri(x), o)
  same(decompress_fri(o), d)


def law_bin_length(a: List(Bytes, 3), b: List(Bytes, 3)):
  """sizes"""
  r = bin_length(a)
  deterministic(r)
  alone(lambda: bin_length(b))
  same(bin_length(a), r)


# ---- transforms and interpolation

@config(field='prime')
def law_transform(vs: List(Elt, 8), us: List(Elt, 8), w: Root(8)):
  """the transform, in both directions"""
  r = fft_1d(field(), vs, field().p, w)
  deterministic(r)
  i = fft_1d(field(), vs, field().p, w, True)
  deterministic(i)
  alone(lambda: fft_1d(field(), us, field().p, w))
  alone(lambda: fft_1d(field(), us, field().p, w, True))
  same(fft_1d(field(), vs, field().p, w), r)
  same(fft_1d(field(), vs, field().p, w, True), i)


@config(field='prime')
def law_transform_other_root(vs: List(Elt, 4), w: Root(4), v: Root(8)):
  """a transform with another root in between"""
  r = fft_1d(field(), vs, field().p, w)
  alone(lambda: fft_1d(field(), vs, field().p, v))
  alone(lambda: fft_1d(field(), vs, field().p, w * w * w))
  same(fft_1d(field(), vs, field().p, w), r)


@config(field='prime')
def law_product(u: List(Elt, 4), v: List(Elt, 4), w: Root(8)):
  """products through the transform"""
  r = mul_polys(u, v, w)
  deterministic(r)
  alone(lambda: mul_polys(v, v, w))
  same(mul_polys(u, v, w), r)


@config(field='prime')
def law_inversions(vs: List(Elt, 3), us: List(Elt, 3)):
  """batch inversion"""
  r = multi_inv(field(), vs)
  deterministic(r)
  alone(lambda: multi_inv(field(), us))
  same(multi_inv(field(), vs), r)


@config(field='prime')
def law_interpolation(xs: List(Elt, 2), ys: List(Elt, 2), us: List(Elt, 2), vs: List(Elt, 2)):
  """interpolation"""
  contract('starks.polynomial.polynomials_over', lambda r: polys())
  z = zpoly(field(), xs)
  deterministic(z)
  alone(lambda: zpoly(field(), us))
  same(zpoly(field(), xs), z)
  r = lagrange_interp(field(), xs, ys)
  deterministic(r)
  alone(lambda: lagrange_interp(field(), us, ys))
  alone(lambda: lagrange_interp(field(), xs, vs))
  same(lagrange_interp(field(), xs, ys), r)
  r = lagrange_interp_2(field(), xs, ys)
  deterministic(r)
  alone(lambda: lagrange_interp_2(field(), us, ys))
  alone(lambda: lagrange_interp_2(field(), xs, vs))
  same(lagrange_interp_2(field(), xs, ys), r)


@config(field='prime')
def law_interpolation_four(xs: List(Elt, 4), ys: List(Elt, 4), vs: List(Elt, 4)):
  """interpolation through four points"""
  contract('starks.polynomial.polynomials_over', lambda r: polys())
  r = lagrange_interp_4(field(), xs, ys)
  deterministic(r)
  alone(lambda: lagrange_interp_4(field(), xs, vs))
  same(lagrange_interp_4(field(), xs, ys), r)
  r = multi_interp_4(field(), [xs], [ys])
  deterministic(r)
  alone(lambda: multi_interp_4(field(), [xs], [vs]))
  same(multi_interp_4(field(), [xs], [ys]), r)


# ---- computation

def law_mimc(x: Int, y: Int, c: List(Int, 2), d: List(Int, 2)):
  """MiMC"""
  r = mimc(x, 4, c)
  deterministic(r)
  alone(lambda: mimc(y, 4, c))
  alone(lambda: mimc(x, 4, d))
  alone(lambda: mimc(x, 5, c))
  same(mimc(x, 4, c), r)


@config(field='prime')
def law_trace(a: Elt, b: Elt, c: Elt, steps: SmallGe(1)):
  """the execution trace"""
  f = lambda s: uf('f', 'ring', s[0], s[1])
  g = lambda s: uf('g', 'ring', s[0], s[1])
  s = seeds()
  r = get_computational_trace([a, b], steps, 2, [f, g])
  deterministic(r)
  same(seeds(), s)


@config(field='prime')
def law_trace_again(a: Elt, b: Elt, c: Elt):
  """the same trace after another one"""
  f = lambda s: uf('f', 'ring', s[0], s[1])
  g = lambda s: uf('g', 'ring', s[0], s[1])
  r = get_computational_trace([a, b], 3, 2, [f, g])
  alone(lambda: get_computational_trace([a, c], 3, 2, [f, g]))
  alone(lambda: get_computational_trace([a, b], 3, 2, [g, f]))
  alone(lambda: get_computational_trace([a, b], 4, 2, [f, g]))
  same(get_computational_trace([a, b], 3, 2, [f, g]), r)


@config(field='prime')
def law_power_cycle(w: Root(4), v: Root(8)):
  """cycles of powers"""
  r = get_power_cycle(w, field())
  deterministic(r)
  alone(lambda: get_power_cycle(v, field()))
  same(get_power_cycle(w, field()), r)


def law_power_of_two(n: Pos):
  """power-of-two tests"""
  deterministic([is_a_power_of_2(k) for k in range(1, 9)])


# ---- prover and verifier

def make_polys(r):
  class Made:
    def factory(cs):
      return uf('made', 'any', cs)
  return Made


@config(field='prime')
def law_combination_1d(t: Poly, r: Poly, b: Poly, w: Elt, v: Elt, x: Bytes(32), y: Bytes(32)):
  """the linear combination of one dimension"""
  contract('starks.polynomial.polynomials_over', lambda r: polys())
  contract('starks.stark.get_pseudorandom_ks', lambda root, n: [uf('k', 'int', root, i) for i in range(n)])
  s = seeds()
  o = compute_pseudorandom_linear_combination_1d(x, [t], [r], [b], w, 4, 3)
  deterministic(o)
  alone(lambda: compute_pseudorandom_linear_combination_1d(y, [t], [r], [b], w, 4, 3))
  alone(lambda: compute_pseudorandom_linear_combination_1d(x, [t], [r], [b], v, 4, 3))
  same(compute_pseudorandom_linear_combination_1d(x, [t], [r], [b], w, 4, 3), o)
  same(seeds(), s)


@config(field='prime')
def law_combination(t: Poly, r: Poly, b: Poly, w: Elt, v: Elt, x: Bytes(32), y: Bytes(32)):
  """the linear combination"""
  contract('starks.polynomial.polynomials_over', lambda r: polys())
  contract('starks.stark.get_pseudorandom_ks', lambda root, n: [uf('k', 'int', root, i) for i in range(n)])
  o = compute_pseudorandom_linear_combination(x, [t], [r], [b], field(), w, 3, 4, 1)
  deterministic(o)
  alone(lambda: compute_pseudorandom_linear_combination(y, [t], [r], [b], field(), w, 3, 4, 1))
  alone(lambda: compute_pseudorandom_linear_combination(x, [t], [r], [b], field(), v, 3, 4, 1))
  same(compute_pseudorandom_linear_combination(x, [t], [r], [b], field(), w, 3, 4, 1), o)


class Transform(object):
  """any inverse transform"""

  def __init__(self, field, root):
    self.root = root

  def fft(self, f):
    return [uf('value', 'ring', self.root, f)]

  def inv_fft(self, values):
    return uf('inverse', 'poly', self.root, values)


@config(field='prime')
def law_trace_polynomials(u: List(Elt, 2), v: List(Elt, 2), w: Elt, x: Elt):
  """trace polynomials"""
  contract('starks.fft.NonBinaryFFT', Transform)
  o = construct_trace_polynomials([u, v], field(), w)
  deterministic(o)
  alone(lambda: construct_trace_polynomials([v, v], field(), w))
  alone(lambda: construct_trace_polynomials([u, v], field(), x))
  same(construct_trace_polynomials([u, v], field(), w), o)


@config(field='prime')
def law_constraints(t: Poly, u: Poly, g: Elt, h: Elt):
  """constraint polynomials"""
  contract('starks.polynomial.polynomials_over', lambda r: polys())
  f = lambda s: uf('f', 'poly', s[0])
  k = lambda s: uf('k', 'poly', s[0])
  o = construct_constraint_polynomials([f], [t], field(), g, 1)
  deterministic(o)
  alone(lambda: construct_constraint_polynomials([k], [t], field(), g, 1))
  alone(lambda: construct_constraint_polynomials([f], [u], field(), g, 1))
  alone(lambda: construct_constraint_polynomials([f], [t], field(), h, 1))
  same(construct_constraint_polynomials([f], [t], field(), g, 1), o)


@config(field='prime')
def law_boundary_polynomials(p: Poly, i: Elt, o: Elt, last: Elt, j: Elt):
  """boundary polynomials"""
  contract('starks.polynomial.polynomials_over', lambda r: polys())
  contract('starks.poly_utils.lagrange_interp_2', lambda f, xs, ys: uf('line', 'poly', f(xs[0]), f(xs[1]), f(ys[0]), f(ys[1])))
  r = construct_boundary_polynomials([p], [[i, o]], [(0, 0, i)], field(), last, 1)
  deterministic(r)
  alone(lambda: construct_boundary_polynomials([p], [[j, o]], [(0, 0, j)], field(), last, 1))
  alone(lambda: construct_boundary_polynomials([p], [[i, j]], [(0, 0, i)], field(), last, 1))
  same(construct_boundary_polynomials([p], [[i, o]], [(0, 0, i)], field(), last, 1), r)


@config(field='prime')
def law_proof(ext: Pos, steps: Pos, samples: Pos, g: Elt, last: Elt, t: Poly, r: Poly, b: Poly):
  """a proof"""
  contract('starks.stark.construct_trace_polynomials', lambda w, f, root: [t])
  contract('starks.stark.construct_constraint_polynomials', lambda *a: [])
  contract('starks.stark.construct_remainder_polynomials', lambda *a: [r])
  contract('starks.stark.construct_boundary_polynomials', lambda *a: [b])
  contract('starks.stark.compute_pseudorandom_linear_combination', lambda *a: t)
  contract('starks.fft.NonBinaryFFT', Transform)
  contract('starks.merkle_tree.merkelize_polynomial_evaluations', lambda w, e: [b'', uf('root', 'bytes', e)])
  contract('starks.merkle_tree.merkelize', lambda e: [b'', uf('root', 'bytes', e)])
  draw = lambda e, m, c, exclude_multiples_of=0: [uf('pos', 'int', e, m, c, exclude_multiples_of, i) for i in range(3)]
  contract('starks.stark.get_pseudorandom_indices', draw)
  contract('starks.utils.get_pseudorandom_indices', draw)
  contract('starks.merkle_tree.mk_branch', lambda tree, i: (tree, i))
  contract('starks.stark.get_pseudorandom_ks', lambda root, n: [1, 2, 3, 4])
  s = seeds()
  o = STARK.mk_proof(Machine(field(), 1, steps, ext, g, last, [], samples), [[0]], [(0, 0, 0)])
  deterministic(o)
  same(STARK.mk_proof(Machine(field(), 1, steps, ext, g, last, [], samples), [[0]], [(0, 0, 0)]), o)
  same(seeds(), s)


@config(field='prime')
def law_verify_position(p: Elt, d: Elt, b: Elt, q: Elt, i: Elt, o: Elt, g: Elt, last: Elt, pos: Nat):
  """the verdict on one position"""
  assume(g**pos != last)
  contract('starks.merkle_tree.verify_branch', lambda root, index, proof, output_as_int=False: proof)
  contract('starks.merkle_tree.unpack_merkle_leaf', lambda leaf, n, k: [p, d, b] if leaf == b'1' else [q, d, b])
  contract('starks.poly_utils.lagrange_interp_2', lambda f, xs, ys: polys()([uf('l', 'ring', ys[0], ys[1])]))
  contract('starks.polynomial.polynomials_over', lambda r: polys())
  m = Machine(field(), 1, 4, 8, g, last, [lambda s: uf('f', 'ring', s[0])], 8)
  proof = [b'm', b'l', [b'1', b'2', b'3'], b'']
  r = raised(lambda: STARK.verify_proof_at_position(m, [[i, o]], [(0, 0, i)], [1, 2, 3, 4], proof, 0, pos), 'AssertionError')
  deterministic(r)
  alone(lambda: raised(lambda: STARK.verify_proof_at_position(m, [[i, i]], [(0, 0, i)], [1, 2, 3, 4], proof, 0, pos), 'AssertionError'))
  same(raised(lambda: STARK.verify_proof_at_position(m, [[i, o]], [(0, 0, i)], [1, 2, 3, 4], proof, 0, pos), 'AssertionError'), r)


@config(field='prime')
def law_remainders(c: Poly, last: Elt, d: Poly):
  """remainders"""
  contract('starks.polynomial.polynomials_over', lambda r: polys())
  try:
    o = construct_remainder_polynomials([c], field(), 4, last)
    alone(lambda: construct_remainder_polynomials([d], field(), 4, last))
    p = construct_remainder_polynomials([c], field(), 4, last)
  except AssertionError:
    o = p = None
  deterministic(o)
  same(o, p)


class Machine(object):
  """the parameters of a prover and a verifier"""

  def __init__(self, field, width, steps, ext, g2, last, fs, samples):
    self.field = field
    self.width = width
    self.steps = steps
    self.extension_factor = ext
    self.precision = steps * ext
    self.G2 = g2
    self.G1 = g2**ext
    self.last_step_position = last
    self.step_polys = fs
    self.spot_check_security_factor = samples
    self.fft_solver = Transform(field, g2)
    self.checked = []

  def get_degree(self):
    return 3

  def compute_merkle_spot_checks(self, mtree, l_mtree, samples=80):
    return STARK.compute_merkle_spot_checks(self, mtree, l_mtree, samples)

  def verify_proof_at_position(self, witness, boundary, ks, proof, i, pos):
    self.checked.append((i, pos, ks))


@config(field='prime')
def law_verify(root: Bytes, l_root: Bytes, g: Elt, last: Elt, br: Seq(Bytes)):
  """the verdict and the positions a verifier looks at"""
  contract('starks.stark.get_pseudorandom_ks', lambda root, n: [uf('k', 'int', root, i) for i in range(4)])
  draw = lambda e, m, c, exclude_multiples_of=0: [uf('pos', 'int', e, m, c, exclude_multiples_of, i) for i in range(3)]
  contract('starks.stark.get_pseudorandom_indices', draw)
  contract('starks.utils.get_pseudorandom_indices', draw)
  m = Machine(field(), 1, 4, 8, g, last, [], 8)
  s = seeds()
  o = STARK.verify_proof(m, [root, l_root, br, b'proof'], [[g, last]], [(0, 0, g)])
  deterministic(o)
  deterministic(m.checked)
  n = Machine(field(), 1, 4, 8, g, last, [], 8)
  same(STARK.verify_proof(n, [root, l_root, br, b'proof'], [[g, last]], [(0, 0, g)]), o)
  same(n.checked, m.checked)
  same(seeds(), s)


# ---- spaces and proximity queries

class Scalars(object):
  """a field of two scalars"""
  p = 2
  m = 1

  def __call__(self, x):
    return field()(x)

  def __iter__(self):
    yield field()(0)
    yield field()(1)


@config(field='prime')
def law_space(b: List(Elt, 2), s: Elt, t: Elt):
  """the order in which a space is enumerated"""
  A = AffineSpace(Scalars(), b, s)
  r = [x for x in A]
  deterministic(r)
  B = AffineSpace(Scalars(), b, t)
  q = [x for x in B]
  same([x for x in A], r)
  same([x for x in AffineSpace(Scalars(), b, s)], r)
  deterministic(eval_on_subspace(lambda x: uf('q', 'ring', x), A))


class Word(object):
  """a function given by its values"""

  def __init__(self, k):
    self.k = k

  def __call__(self, x):
    return uf('word', 'ring', self.k, x)


@config(field='prime')
def law_query(b: List(Elt, 1), s: Elt, cs: List(Elt, 2)):
  """the verdict on a proximity query, also a second time"""
  contract('starks.fri.select_random', lambda F, x: uf('challenge', 'ring', x))
  contract('starks.poly_utils.construct_affine_vanishing_polynomial', lambda F, A: Word(0))
  contract('starks.poly_utils.lagrange_interp', lambda F, xs, ys: Word(1))
  contract('starks.polynomial.polynomials_over', make_polys_2)
  K = Scalars()
  A = AffineSpace(K, b, s)
  n = seeds()
  v = AffineSubspaceFRI(K, A, 2)
  r = v.query([Word(7)], cs)
  deterministic(r)
  same(v.query([Word(7)], cs), r)
  same(AffineSubspaceFRI(K, A, 2).query([Word(7)], cs), r)
  same(seeds(), n)


def make_polys_2(r):
  class Made:
    def factory(cs):
      return Word(2)
  return Made


# ---- primality and parity

def law_parity():
  """parities"""
  deterministic([parity(n) for n in range(12)])
