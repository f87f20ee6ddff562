"""Verification of a STARK."""


class FRI(object):
  """stands for the low-degree proof"""
  asked = []

  def __init__(self, field):
    self.field = field

  def verify_proximity_proof(self, proof, merkle_root, root_of_unity, maxdeg_plus_1, exclude_multiples_of=0):
    FRI.asked.append((proof, merkle_root, root_of_unity, maxdeg_plus_1, exclude_multiples_of))
    return uf('fri', 'bool', proof, merkle_root, root_of_unity, maxdeg_plus_1, exclude_multiples_of)


contract('starks.fri.FRI', FRI)

from starks.stark import STARK


class Machine(object):
  """the parameters a verifier uses"""

  def __init__(self, field, width, steps, ext, g2, last, fs, samples):
    self.field = field
    self.width = width
    self.steps = steps
    self.extension_factor = ext
    self.precision = steps * ext
    self.G2 = g2
    self.last_step_position = last
    self.step_polys = fs
    self.spot_check_security_factor = samples
    self.checked = []

  def get_degree(self):
    return 3

  def verify_proof_at_position(self, witness, boundary, ks, proof, i, pos):
    self.checked.append((witness, boundary, proof, i, pos))


def sampler(positions, asked):
  def indices(entropy, modulus, count, exclude_multiples_of=0):
    asked.append((entropy, modulus, count, exclude_multiples_of))
    return positions
  return indices


def step(name, width):
  """a transition polynomial in exactly the given number of registers"""
  def value(s):
    assert len(s) == width
    return uf(name, 'ring', *[v for v in s])
  return value


def accepting():
  contract('starks.stark.get_pseudorandom_ks', lambda root, n: [1, 2, 3, 4])


@config(field='prime')
def law_low_degree(root: Bytes, l_root: Bytes, g: Elt, last: Elt, steps: Pos, ext: Pos, samples: Pos, ps: Seq(Nat)):
  """a proof whose low-degree part does not verify is refused"""
  accepting()
  contract('starks.stark.get_pseudorandom_indices', sampler(ps, []))
  contract('starks.utils.get_pseudorandom_indices', sampler(ps, []))
  m = Machine(field(), 2, steps, ext, g, last, [], samples)
  ok = uf('fri', 'bool', b'proof', l_root, g, steps * 3, ext)
  same(raised(lambda: STARK.verify_proof(m, [root, l_root, [], b'proof'], [], []), 'AssertionError'), not ok)


@config(field='prime')
def law_every_position(root: Bytes, l_root: Bytes, g: Elt, last: Elt, steps: Pos, ext: Pos, samples: Pos, ps: Seq(Nat)):
  """every sampled position is checked against its own branches"""
  accepting()
  asked = []
  contract('starks.stark.get_pseudorandom_indices', sampler(ps, asked))
  contract('starks.utils.get_pseudorandom_indices', sampler(ps, asked))
  m = Machine(field(), 2, steps, ext, g, last, [], samples)
  w = [[g], [last]]
  b = [(0, 0, g), (0, 1, last)]
  proof = [root, l_root, [b'a', b'b'], b'proof']
  assume(uf('fri', 'bool', b'proof', l_root, g, steps * 3, ext))
  r = STARK.verify_proof(m, proof, w, b)
  same(r, True)
  same(asked, [(l_root, steps * ext, samples, ext)])
  same(m.checked, [(w, b, proof, i, p) for i, p in enumerate(ps)])


@config(field='prime')
def law_position_fails(root: Bytes, l_root: Bytes, g: Elt, last: Elt, steps: Pos, ext: Pos, samples: Pos, ps: Seq(Nat)):
  """a single position that fails its check makes the whole proof fail"""
  accepting()
  contract('starks.stark.get_pseudorandom_indices', sampler(ps, []))
  contract('starks.utils.get_pseudorandom_indices', sampler(ps, []))

  class Picky(Machine):
    def verify_proof_at_position(self, witness, boundary, ks, proof, i, pos):
      assert uf('good', 'bool', i, pos)
  m = Picky(field(), 2, steps, ext, g, last, [], samples)
  assume(uf('fri', 'bool', b'proof', l_root, g, steps * 3, ext))
  same(raised(lambda: STARK.verify_proof(m, [root, l_root, [], b'proof'], [], []), 'AssertionError'),
       not all([uf('good', 'bool', i, ps[i]) for i in range(len(ps))]))


def opening(root, index, proof, output_as_int=False):
  """the leaf a branch opens to, if it verifies"""
  assert uf('opens', 'bool', root, index, proof)
  return (root, index, proof)


def unpacker(width, p, q):
  """the chunks of two leaves"""
  def unpack(leaf, num_chunks_a, num_chunks_b):
    assert num_chunks_a == width
    assert num_chunks_b == 3
    if leaf[2] == b'first':
      return p
    return q
  return unpack


def line(field, xs, ys):
  """the line through two points"""
  K = field
  return uf('line', 'poly', K(xs[0]), K(xs[1]), K(ys[0]), K(ys[1]))


def position_laws(machine, fs, p, q, wit, inp, opened):
  width = len(fs)
  contract('starks.merkle_tree.verify_branch', opening)
  contract('starks.merkle_tree.unpack_merkle_leaf', unpacker(width, p, q))
  contract('starks.poly_utils.lagrange_interp_2', line)
  contract('starks.polynomial.polynomials_over', lambda r: polys())
  boundary = [(0, i, inp[i]) for i in range(width)]
  branches = [b'w', b'w', b'w', b'first', b'second', b'third', b'w', b'w', b'w']
  return raised(lambda: STARK.verify_proof_at_position(machine, wit, boundary, [1, 2, 3, 4], [b'm', b'l', branches, b''], 1, opened), 'AssertionError')


def openings(pos, ext, size):
  return uf('opens', 'bool', b'm', pos, b'first') and uf('opens', 'bool', b'm', (pos + ext) % size, b'second') and uf('opens', 'bool', b'l', pos, b'third')


@config(field='prime')
def law_position_1(p: Elt, d: Elt, b: Elt, p2: Elt, d2: Elt, b2: Elt, out: Elt, inp: Elt, g: Elt, last: Elt, steps: SmallGe(2), ext: SmallGe(2), pos: Nat):
  """one register: three openings, the transition and the boundary constraint"""
  x = g**pos
  assume(x != last)
  f = step('f', 1)
  m = Machine(field(), 1, steps, ext, g, last, [f], 8)
  r = position_laws(m, [f], [p, d, b], [p2, d2, b2], [[inp, out]], [inp], pos)
  z = (x**steps - 1) / (x - last)
  one = field()(1)
  I = uf('line', 'poly', one, last, inp, out)
  good = openings(pos, ext, steps * ext) and p2 - f([p]) == z * d and p - I(x) == b * (x - 1) * (x - last)
  same(r, not good)


@config(field='prime')
def law_position_2(p: Elt, q: Elt, d: Elt, e: Elt, b: Elt, c: Elt, p2: Elt, q2: Elt, o1: Elt, o2: Elt, i1: Elt, i2: Elt, g: Elt, last: Elt, steps: SmallGe(2), ext: SmallGe(2), pos: Nat):
  """two registers: every dimension has its own constraints"""
  x = g**pos
  assume(x != last)
  f = step('f', 2)
  h = step('h', 2)
  m = Machine(field(), 2, steps, ext, g, last, [f, h], 8)
  r = position_laws(m, [f, h], [p, q, d, e, b, c], [p2, q2, d, e, b, c], [[i1, o1], [i2, o2]], [i1, i2], pos)
  z = (x**steps - 1) / (x - last)
  z2 = (x - 1) * (x - last)
  one = field()(1)
  I = uf('line', 'poly', one, last, i1, o1)
  J = uf('line', 'poly', one, last, i2, o2)
  good = openings(pos, ext, steps * ext) and p2 - f([p, q]) == z * d and q2 - h([p, q]) == z * e and p - I(x) == b * z2 and q - J(x) == c * z2
  same(r, not good)


@config(field='prime')
def law_position_values_1(d: Elt, b: Elt, d2: Elt, b2: Elt, w: Elt, e: Elt, out: Elt, inp: Elt, g: Elt, last: Elt, steps: SmallGe(2), ext: SmallGe(2), pos: Nat):
  """with valid openings, an error w in the transition or e in the boundary value decides the verdict"""
  x = g**pos
  assume(x != last)
  assume(openings(pos, ext, steps * ext))
  f = step('f', 1)
  m = Machine(field(), 1, steps, ext, g, last, [f], 8)
  one = field()(1)
  p = uf('line', 'poly', one, last, inp, out)(x) + b * (x - 1) * (x - last) + e
  p2 = f([p]) + (x**steps - 1) / (x - last) * d + w
  r = position_laws(m, [f], [p, d, b], [p2, d2, b2], [[inp, out]], [inp], pos)
  same(r, w != 0 or e != 0)


@config(field='prime')
def law_position_values_2(d1: Elt, d2: Elt, b1: Elt, b2: Elt, c1: Elt, c2: Elt, w1: Elt, w2: Elt, e1: Elt, e2: Elt, o1: Elt, o2: Elt, i1: Elt, i2: Elt, g: Elt, last: Elt, steps: SmallGe(2), ext: SmallGe(2), pos: Nat):
  """with valid openings, an error in either dimension decides the verdict"""
  x = g**pos
  assume(x != last)
  assume(openings(pos, ext, steps * ext))
  f = step('f', 2)
  h = step('h', 2)
  m = Machine(field(), 2, steps, ext, g, last, [f, h], 8)
  one = field()(1)
  z = (x**steps - 1) / (x - last)
  z2 = (x - 1) * (x - last)
  p = uf('line', 'poly', one, last, i1, o1)(x) + b1 * z2 + e1
  q = uf('line', 'poly', one, last, i2, o2)(x) + b2 * z2 + e2
  p2 = f([p, q]) + z * d1 + w1
  q2 = h([p, q]) + z * d2 + w2
  r = position_laws(m, [f, h], [p, q, d1, d2, b1, b2], [p2, q2, c1, c2, c1, c2], [[i1, o1], [i2, o2]], [i1, i2], pos)
  same(r, w1 != 0 or w2 != 0 or e1 != 0 or e2 != 0)


@config(field='prime')
def law_refused(root: Bytes, l_root: Bytes, g: Elt, last: Elt):
  """a low-degree proof that does not verify is refused whatever it is, and whatever the rest of the proof is"""
  accepting()
  contract('starks.utils.get_pseudorandom_indices', sampler([], []))
  for fri_proof in [b'proof', b'', [], None, 0, False, True, [[]], [b'a', b'b']]:
    for branches in [[], [b'a', b'b', b'c']]:
      for samples in [0, 1, 80]:
        m = Machine(field(), 2, 8, 4, g, last, [], samples)
        same(raised(lambda: STARK.verify_proof(m, [root, l_root, branches, fri_proof], [], []), 'AssertionError'),
             not uf('fri', 'bool', fri_proof, l_root, g, 24, 4))


@config(field='prime', unroll=300)
def law_many_positions(root: Bytes, l_root: Bytes, g: Elt, last: Elt):
  """many positions: each of them is checked, the last one too"""
  accepting()
  for n in [1, 40, 80, 130]:
    ps = [(7 * i + 3) % 512 for i in range(n)]
    contract('starks.utils.get_pseudorandom_indices', sampler(ps, []))
    assume(uf('fri', 'bool', b'proof', l_root, g, 64 * 3, 8))
    m = Machine(field(), 2, 64, 8, g, last, [], n)
    same(STARK.verify_proof(m, [root, l_root, [], b'proof'], [], []), True)
    same(len(m.checked), n)
    same([(c[3], c[4]) for c in m.checked], [(i, ps[i]) for i in range(n)])
    for bad in [0, n // 2, n - 1]:

      class Picky(Machine):
        def verify_proof_at_position(self, witness, boundary, ks, proof, i, pos):
          assert i != bad
      m = Picky(field(), 2, 64, 8, g, last, [], n)
      check(raised(lambda: STARK.verify_proof(m, [root, l_root, [], b'proof'], [], []), 'AssertionError'))


@config(field='prime')
def law_position_wide(w: Elt, e: Elt, ds: List(Elt, 6), bs: List(Elt, 6), os: List(Elt, 6), ns: List(Elt, 6), g: Elt, last: Elt, pos: Nat):
  """many registers: an error in the transition or the boundary value of any of them decides the verdict"""
  steps, ext = 4, 2
  x = g**pos
  assume(x != last)
  assume(openings(pos, ext, steps * ext))
  one = field()(1)
  z = (x**steps - 1) / (x - last)
  z2 = (x - 1) * (x - last)
  for n in [3, 4, 6]:
    fs = [step('f%d' % i, n) for i in range(n)]
    m = Machine(field(), n, steps, ext, g, last, fs, 8)
    for k in range(n):
      p = [uf('line', 'poly', one, last, ns[i], os[i])(x) + bs[i] * z2 + (e if i == k else 0) for i in range(n)]
      q = [fs[i](p) + z * ds[i] + (w if i == k else 0) for i in range(n)]
      leaf = p + ds[:n] + bs[:n]
      next_leaf = q + ds[:n] + bs[:n]
      r = position_laws(m, fs, leaf, next_leaf, [[ns[i], os[i]] for i in range(n)], ns[:n], pos)
      same(r, w != 0 or e != 0)


@config(field='prime')
def law_position_wraps(g: Elt, last: Elt):
  """the next state is opened at the right place, at the end of the domain too"""
  steps, ext = 4, 3
  contract('starks.polynomial.polynomials_over', lambda r: polys())
  contract('starks.poly_utils.lagrange_interp_2', lambda f, xs, ys: polys()([]))
  contract('starks.merkle_tree.unpack_merkle_leaf', lambda leaf, a, b: [0, 0, 0])
  for pos in range(12):
    assume(g**pos != last)
    read = []

    def opening(root, index, proof, output_as_int=False):
      read.append((root, index, proof))
      return b''
    contract('starks.merkle_tree.verify_branch', opening)
    m = Machine(field(), 1, steps, ext, g, last, [lambda s: field()(0)], 8)
    branches = [b'%d' % i for i in range(60)]
    for i in [0, 1, 7, 19]:
      read.clear()
      STARK.verify_proof_at_position(m, [[0]], [(0, 0, 0)], [1, 2, 3, 4], [b'm', b'l', branches, b''], i, pos)
      same(read, [(b'm', pos, branches[3 * i]), (b'm', (pos + 3) % 12, branches[3 * i + 1]), (b'l', pos, branches[3 * i + 2])])


@config(field='prime')
def law_position_boundary(p: Elt, d: Elt, b: Elt, p2: Elt, d2: Elt, b2: Elt, out: Elt, inp: Elt, first: Elt, g: Elt, last: Elt, pos: Nat):
  """the boundary value comes from the boundary constraints, whatever the witness starts with"""
  steps, ext = 4, 2
  x = g**pos
  assume(x != last)
  f = step('f', 1)
  m = Machine(field(), 1, steps, ext, g, last, [f], 8)
  r = position_laws(m, [f], [p, d, b], [p2, d2, b2], [[first, out]], [inp], pos)
  z = (x**steps - 1) / (x - last)
  I = uf('line', 'poly', field()(1), last, inp, out)
  good = openings(pos, ext, steps * ext) and p2 - f([p]) == z * d and p - I(x) == b * (x - 1) * (x - last)
  same(r, not good)
