# batch 1: other idioms
rw('1', 'starks/merkle_tree.py', 'permute4', '''
def permute4(values):
  quarter = len(values) // 4
  return [values[i + k * quarter] for i in range(quarter) for k in range(4)]
''')
rw('1', 'starks/merkle_tree.py', 'get_index_in_permuted', '''
def get_index_in_permuted(x, L):
  block, offset = divmod(x, L // 4)
  return 4 * offset + block
''')
rw('1', 'starks/merkle_tree.py', 'merkelize', '''
def encode_leaf(x):
  if isinstance(x, bytes):
    return x
  return x.to_bytes(32, 'big') if isinstance(x, int) else x.to_bytes()


def merkelize(L):
  leaves = [encode_leaf(x) for x in permute4(L)]
  n = len(leaves)
  nodes = [b''] * n + leaves
  i = n - 1
  while i > 0:
    left, right = nodes[2 * i:2 * i + 2]
    nodes[i] = blake(left + right)
    i -= 1
  return nodes
''')
rw('1', 'starks/merkle_tree.py', 'mk_branch', '''
def mk_branch(tree, index):
  half = len(tree) // 2
  node = half + get_index_in_permuted(index, half)
  path = [tree[node]]
  while node > 1:
    sibling = node + 1 if node % 2 == 0 else node - 1
    path.append(tree[sibling])
    node >>= 1
  return path
''')
rw('1', 'starks/merkle_tree.py', 'verify_branch', '''
def verify_branch(root, index, proof, output_as_int=False):
  size = 1 << (len(proof) - 1)
  position = size + get_index_in_permuted(index, size)
  leaf = proof[0]
  current = leaf
  for sibling in proof[1:]:
    left, right = (sibling, current) if position & 1 else (current, sibling)
    current = blake(left + right)
    position >>= 1
  if current != root:
    raise AssertionError
  if output_as_int:
    return int.from_bytes(leaf, 'big')
  return leaf
''')
rw('1', 'starks/merkle_tree.py', 'merkelize_polynomial_evaluations', '''
def merkelize_polynomial_evaluations(dims, polynomial_evals):
  leaves = []
  for evals in zip(*polynomial_evals):
    leaf = b''
    for val in evals:
      leaf += val.to_bytes()
    leaves.append(leaf)
  return merkelize(leaves)
''')
rw('1', 'starks/merkle_tree.py', 'unpack_merkle_leaf', '''
def unpack_merkle_leaf(leaf, dims, num_polys):
  return [leaf[start:start + 32] for start in range(0, 32 * num_polys * dims, 32)]
''')
rw('1', 'starks/utils.py', 'mimc', '''
def mimc(inp, steps, round_constants):
  modulus = 2**256 - 2**32 * 351 + 1
  start_time = time.time()
  n = len(round_constants)
  state = inp
  for i in range(0, steps - 1):
    state = (state * state * state + round_constants[i % n]) % modulus
  print("MIMC computed in %.4f sec" % (time.time() - start_time))
  return state
''')
rw('1', 'starks/utils.py', 'get_power_cycle', '''
def get_power_cycle(r, field):
  one = field(1)
  powers = [one]
  x = r
  while x != one:
    powers.append(x)
    x = x * r
  return powers
''')
rw('1', 'starks/utils.py', 'generate_Xi_s', '''
def generate_Xi_s(field, width):
  make = multivariates_over(field, width).factory
  return [make({tuple(1 if j == i else 0 for j in range(width)): field(1)}) for i in range(width)]
''')
rw('1', 'starks/utils.py', 'get_pseudorandom_indices', '''
def get_pseudorandom_indices(entropy, modulus, count, exclude_multiples_of=0):
  assert modulus < 2**24
  data = entropy
  needed = count * 4
  while len(data) < needed:
    data = data + blake(data[-32:])
  words = [int.from_bytes(data[4 * k:4 * k + 4], 'big') for k in range(count)]
  if not exclude_multiples_of:
    return [w % modulus for w in words]
  per_block = exclude_multiples_of - 1
  real_modulus = modulus * per_block // exclude_multiples_of
  result = []
  for w in words:
    x = w % real_modulus
    result.append(1 + x + x // per_block)
  return result
''')
rw('1', 'starks/utils.py', 'is_a_power_of_2', '''
def is_a_power_of_2(x):
  while x != 1:
    if x % 2:
      return False
    x //= 2
  return True
''')
rw('1', 'starks/modp.py', 'IntegersModP.__init__', '''
def __init__(self, n):
  try:
    value = int.from_bytes(n, 'big') if isinstance(n, bytes) else int(n)
    self.n = value % IntegerModP.p
  except:
    raise TypeError("Can't cast type %s to %s in __init__" %
                    (type(n).__name__, type(self).__name__))
  self.field = IntegerModP
''')
rw('1', 'starks/modp.py', 'IntegersModP.__ne__', '''
@typecheck
def __ne__(self, other):
  return not (isinstance(other, IntegerModP) and self.n == other.n)
''')
rw('1', 'starks/modp.py', 'IntegersModP.__divmod__', '''
@typecheck
def __divmod__(self, divisor):
  return IntegerModP(self.n // divisor.n), IntegerModP(self.n % divisor.n)
''')
rw('1', 'starks/modp.py', 'iterate_modp', '''
def iterate_modp(p):
  def iterator():
    Zp = IntegersModP(p)
    return iter([Zp(i) for i in range(p)])
  return iterator
''')
rw('1', 'starks/numbertype.py', 'memoize', '''
def memoize(f):
  cache = {}

  def memoizedFunction(*args, **kwargs):
    key = (args, tuple(sorted(kwargs.items())))
    try:
      return cache[key]
    except KeyError:
      result = f(*args, **kwargs)
      cache[key] = result
      return result

  memoizedFunction.cache = cache
  return memoizedFunction
''')
rw('1', 'starks/numbertype.py', '__pow__', '''
def __pow__(self, n):
  if type(n) is not int:
    raise TypeError
  if n < 0:
    return self.inverse()**(-n)
  result = self.__class__(1)
  base = self
  while n > 0:
    if n & 1:
      result = result * base
    base = base * base
    n >>= 1
  return result
''')
rw('1', 'starks/numbertype.py', 'powmod', '''
def powmod(self, n, modulus):
  if type(n) is not int:
    raise TypeError
  if n < 0:
    raise ValueError("powmod requires a nonnegative exponent")
  result = self.__class__(1) % modulus
  base = self
  while n:
    if n % 2 == 1:
      result = (result * base) % modulus
    base = (base * base) % modulus
    n //= 2
  return result
''')
rw('1', 'starks/polynomial.py', 'strip', '''
def strip(L, elt):
  end = len(L)
  while end > 0 and L[end - 1] == elt:
    end -= 1
  return L[:end]
''')
rw('1', 'starks/polynomial.py', 'polynomials_over.__add__', '''
@typecheck
def __add__(self, other):
  long, short = self.coefficients, other.coefficients
  if len(long) < len(short):
    long, short = short, long
  total = list(long)
  for i, c in enumerate(short):
    total[i] = total[i] + c
  return Polynomial(total)
''')
rw('1', 'starks/polynomial.py', 'polynomials_over.__mul__', '''
@typecheck
def __mul__(self, other):
  if self.is_zero() or other.is_zero():
    return Zero()
  a, b = self.coefficients, other.coefficients
  out = [self.ring(0)] * (len(a) + len(b) - 1)
  for i in range(len(a)):
    for j in range(len(b)):
      out[i + j] = out[i + j] + a[i] * b[j]
  return Polynomial(out)
''')
rw('1', 'starks/polynomial.py', 'polynomials_over.__call__', '''
def __call__(self, x):
  y = self.ring(0)
  for a in reversed(self.coefficients):
    y = y * x + a
  return y
''')
rw('1', 'starks/polynomial.py', 'polynomials_over.__eq__', '''
@typecheck
def __eq__(self, other):
  return self.coefficients == other.coefficients
''')
rw('1', 'starks/polynomial.py', 'polynomials_over.__ne__', '''
@typecheck
def __ne__(self, other):
  return not self.coefficients == other.coefficients
''')
rw('1', 'starks/polynomial.py', 'polynomials_over.to_bytes', '''
def to_bytes(self):
  out = b''
  for c in self.coefficients:
    out = out + c.to_bytes()
  return out
''')
rw('1', 'starks/euclidean.py', 'gcd', '''
def gcd(a, b):
  if abs(a) < abs(b):
    a, b = b, a
  while abs(b) > 0:
    a, b = b, divmod(a, b)[1]
  return a
''')
rw('1', 'starks/fft.py', '_simple_ft', '''
def _simple_ft(vals, roots_of_unity):
  L = len(roots_of_unity)
  return [sum(vals[j] * roots_of_unity[i * j % L] for j in range(L)) for i in range(L)]
''')
rw('1', 'starks/fft.py', '_fft', '''
def _fft(vals, roots_of_unity):
  if len(vals) <= 4:
    return _simple_ft(vals, roots_of_unity)
  half_roots = roots_of_unity[::2]
  even = _fft(vals[::2], half_roots)
  odd = _fft(vals[1::2], half_roots)
  shifted = [y * roots_of_unity[i] for i, y in enumerate(odd)]
  return [x + y for x, y in zip(even, shifted)] + [x - y for x, y in zip(even, shifted)]
''')
rw('1', 'starks/fft.py', 'fft_1d', '''
def fft_1d(field, vals, modulus, root_of_unity, inv=False):
  one = field(1)
  rootz = [one]
  power = root_of_unity
  while power != one:
    rootz.append(power)
    power = power * root_of_unity
  rootz.append(power)
  missing = len(rootz) - 1 - len(vals)
  if missing > 0:
    vals = vals + [0] * missing
  if not inv:
    return _fft(vals, rootz[:-1])
  invlen = pow(len(vals), modulus - 2, modulus)
  out = _fft(vals, rootz[:0:-1])
  return [x * invlen for x in out]
''')
rw('1', 'starks/multivariate_polynomial.py', 'remove_zero_coefficients', '''
def remove_zero_coefficients(coefficients):
  return {monomial: c for monomial, c in coefficients.items() if c != 0}
''')
rw('1', 'starks/multivariate_polynomial.py', 'add_power_tuples', '''
def add_power_tuples(a, b):
  n = min(len(a), len(b))
  return tuple(x + y for x, y in zip(a, b)) + tuple(a[n:]) + tuple(b[n:])
''')
rw('1', 'starks/multivariate_polynomial.py', 'sum_power_tuple', '''
def sum_power_tuple(a):
  return sum(a)
''')
rw('1', 'starks/multivariate_polynomial.py', 'multivariates_over.degree', '''
def degree(self):
  return max([sum_power_tuple(t) for t in self.coefficients], default=0)
''')
rw('1', 'starks/multivariate_polynomial.py', 'multivariates_over.__getitem__', '''
def __getitem__(self, power_tup):
  return self.coefficients.get(power_tup, ring(0))
''')
rw('1', 'starks/multivariate_polynomial.py', 'multivariates_over.__add__', '''
@typecheck
def __add__(self, other):
  total = dict(self.coefficients)
  for monomial, c in other.coefficients.items():
    if monomial in total:
      total[monomial] = total[monomial] + c
    else:
      total[monomial] = c
  return MultivariatePolynomial(total)
''')
rw('1', 'starks/multivariate_polynomial.py', 'multivariates_over.__mul__', '''
@typecheck
def __mul__(self, other):
  if self.is_zero() or other.is_zero():
    return Zero()
  product = {}
  for a, x in self.coefficients.items():
    for b, y in other.coefficients.items():
      m = add_power_tuples(a, b)
      product[m] = product.get(m, ring(0)) + x * y
  return MultivariatePolynomial(product)
''')
rw('1', 'starks/poly_utils.py', 'make_multivar', '''
def make_multivar(poly, i, field, width):
  make = multivariates_over(field, width).factory
  index = tuple(1 if k == i else 0 for k in range(width))
  X_i = make({index: field(1)})
  return sum(c * X_i**k for k, c in enumerate(poly.coefficients))
''')
rw('1', 'starks/poly_utils.py', 'is_irreducible', '''
def is_irreducible(polynomial, p):
  ZmodP = IntegersModP(p)
  if polynomial.ring is not ZmodP:
    raise TypeError("Given a polynomial that's not over %s, but instead %r" %
                    (ZmodP.__name__, polynomial.ring.__name__))
  n = polynomial.degree()
  if n < 1:
    return False
  x = polynomials_over(ZmodP).factory([0, 1])
  h = x
  for i in range(n // 2):
    h = h.powmod(p, polynomial)
    if gcd(polynomial, h - x).degree() != 0:
      return False
  return True
''')
rw('1', 'starks/poly_utils.py', 'multi_inv', '''
def multi_inv(field, values):
  partials = [field(1)]
  for v in values:
    partials.append(partials[-1] if v == 0 else partials[-1] * v)
  inv = 1 / partials[-1]
  outputs = [0 for _ in values]
  for k in reversed(range(len(values))):
    if values[k] == 0:
      continue
    outputs[k] = partials[k] * inv
    inv = inv * values[k]
  return outputs
''')
rw('1', 'starks/poly_utils.py', 'zpoly', '''
def zpoly(field, roots):
  root = [field(1)]
  for x in roots:
    root = [field(0)] + root
    for j in range(1, len(root)):
      root[j - 1] = root[j - 1] - root[j] * x
  return polynomials_over(field).factory(root)
''')
rw('1', 'starks/poly_utils.py', 'lagrange_interp', '''
def lagrange_interp(field, xs, ys):
  polysOver = polynomials_over(field).factory
  root = zpoly(field, xs)
  assert len(root) == len(ys) + 1
  nums = []
  denoms = []
  for x in xs:
    num = root / polysOver([-x, 1])
    nums.append(num)
    denoms.append(num(x))
  inverses = multi_inv(field, denoms)
  b = [0] * len(ys)
  for num, y, inverse in zip(nums, ys, inverses):
    scale = y * inverse
    for j in range(len(ys)):
      if num.coefficients[j] and y:
        b[j] = b[j] + num.coefficients[j] * scale
  return polysOver(b)
''')
rw('1', 'starks/air.py', 'get_computational_trace', '''
def get_computational_trace(inp, steps, width, step_polys):
  trace = [inp]
  state = inp
  while len(trace) < steps:
    state = [step_polys[k](state) for k in range(width)]
    trace.append(state)
  print('Done generating computational trace')
  return trace, state
''')
rw('1', 'starks/air.py', 'generate_witness', '''
def generate_witness(self):
  witness = []
  for j in range(self.w):
    column = []
    for i in range(self.steps):
      column.append(self.computational_trace[i][j])
    witness.append(column)
  return witness
''')
rw('1', 'starks/air.py', 'generate_boundary_constraints', '''
def generate_boundary_constraints(self):
  return [(0, ind, self.inp[ind]) for ind in range(self.w)]
''')
rw('1', 'starks/air.py', 'generate_monotone_circuit', '''
def generate_monotone_circuit(self, Polys):
  trace = self.computational_trace
  for now, then in zip(trace[:self.steps - 1], trace[1:self.steps]):
    for j in range(self.width):
      if Polys[j](now + then) != 0:
        return False
  return True
''')
rw('1', 'starks/air.py', 'generate_constraint_polynomials', '''
def generate_constraint_polynomials(self):
  w = self.width
  variables = generate_Xi_s(self.field, 2 * w)
  return [variables[w + i] - self.step_polys[i](variables[:w]) for i in range(w)]
''')
rw('1', 'starks/air.py', 'get_degree', '''
def get_degree(self):
  return max(map(lambda poly: poly.degree(), self.step_polys))
''')
rw('1', 'starks/stark.py', 'construct_remainder_polynomials', '''
def construct_remainder_polynomials(constraint_polys, field, steps, last_step_position):
  X = polynomials_over(field).factory([field(0), field(1)])
  numerator = X**steps - field(1)
  denominator = X - last_step_position
  z, rest = numerator / denominator, numerator % denominator
  assert rest == 0
  ds = []
  for cp in constraint_polys:
    assert cp % z == 0
    ds.append(cp / z)
  print('Computed D polynomials')
  return ds
''')
rw('1', 'starks/stark.py', 'construct_boundary_polynomials', '''
def construct_boundary_polynomials(trace_polys, witness, boundary, field, last_step_position, width):
  polysOver = polynomials_over(field).factory
  zero = polysOver([-1, 1]) * polysOver([-last_step_position, 1])
  positions = [1, last_step_position]
  b_polys = []
  for dim, p in zip(range(width), trace_polys):
    values = [boundary[dim][2], witness[dim][-1]]
    b_polys.append((p - lagrange_interp_2(field, positions, values)) / zero)
  print('Computed B polynomial')
  return b_polys
''')
rw('1', 'starks/stark.py', 'get_pseudorandom_ks', '''
def get_pseudorandom_ks(m_root, num):
  first = 1 if 0 <= num <= 4 else 0
  return [int.from_bytes(blake(m_root + b'0x0' + str(first + i).encode()), 'big') for i in range(num)]
''')
rw('1', 'starks/stark.py', 'compute_pseudorandom_linear_combination_1d', '''
def compute_pseudorandom_linear_combination_1d(entropy, trace_polys, remainder_polys, boundary_polys, root_of_unity, steps, root_of_unity_degree):
  k1, k2, k3, k4 = get_pseudorandom_ks(entropy, 4)
  step = root_of_unity**steps
  shift = 1
  for i in range(1, root_of_unity_degree):
    shift = shift * step
  return [r + t * k1 + t * k2 * shift + b * k3 + b * k4 * shift
          for t, r, b in zip(trace_polys, remainder_polys, boundary_polys)]
''')
rw('1', 'starks/stark.py', 'mk_proof', '''
def mk_proof(self, witness, boundary):
  start_time = time.time()
  trace_polys, remainder_polys, boundary_polys = self._polynomials(witness, boundary)
  polys = trace_polys + remainder_polys + boundary_polys
  mtree = merkelize_polynomial_evaluations(self.width, [self.fft_solver.fft(poly) for poly in polys])
  root = mtree[1]
  l_poly = compute_pseudorandom_linear_combination(
      root, trace_polys, remainder_polys, boundary_polys, self.field,
      self.G2, self.precision, self.steps, self.width)
  l_mtree = merkelize(self.fft_solver.fft(l_poly))
  branches = self.compute_merkle_spot_checks(mtree, l_mtree, self.spot_check_security_factor)
  fri_proof = FRI(self.field).generate_proximity_proof(
      l_poly, self.G2, self.steps * self.get_degree(), exclude_multiples_of=self.extension_factor)
  print("STARK computed in %.4f sec" % (time.time() - start_time))
  return [root, l_mtree[1], branches, fri_proof]

def _polynomials(self, witness, boundary):
  trace_polys = construct_trace_polynomials(witness, self.field, self.G1)
  constraint_polys = construct_constraint_polynomials(self.step_polys, trace_polys, self.field, self.G1, self.width)
  remainder_polys = construct_remainder_polynomials(constraint_polys, self.field, self.steps, self.last_step_position)
  boundary_polys = construct_boundary_polynomials(
      trace_polys, witness, boundary, self.field, self.last_step_position, self.width)
  return trace_polys, remainder_polys, boundary_polys
''')
rw('1', 'starks/stark.py', 'verify_proof', '''
def verify_proof(self, proof, witness, boundary):
  start_time = time.time()
  m_root, l_root = proof[0], proof[1]
  low_degree = FRI(self.field).verify_proximity_proof(
      proof[3], l_root, self.G2, self.steps * self.get_degree(), exclude_multiples_of=self.extension_factor)
  if not low_degree:
    raise AssertionError
  positions = get_pseudorandom_indices(
      l_root, self.precision, self.spot_check_security_factor, exclude_multiples_of=self.extension_factor)
  ks = get_pseudorandom_ks(m_root, 4)
  i = 0
  for pos in positions:
    self.verify_proof_at_position(witness, boundary, ks, proof, i, pos)
    i += 1
  print('Verified %d consistency checks' % self.spot_check_security_factor)
  return True
''')
rw('1', 'starks/compression.py', 'compress_branches', '''
def compress_branches(branches):
  out = []
  seen = {}
  for branch in branches:
    for item in list(branch) + [b'----']:
      position = seen.get(item)
      if position is None:
        seen[item] = len(out)
        out.append(item)
      else:
        out.append(position.to_bytes(2, 'big'))
  if decompress_branches(out) != branches:
    raise AssertionError
  return out
''')
# batch 2: misc and the other modules
rw('2', 'misc/commitment.py', 'BBSBitCommitmentScheme.generateSecret', '''
def generateSecret(self):
  seed = random.getrandbits(self.security_parameter)
  return self.oneWayPermutation(seed)
''')
rw('2', 'misc/commitment.py', 'BBSBitCommitmentScheme.commit', '''
def commit(self, bit):
  return self.oneWayPermutation(self.secret), bit ^ self.hardcorePredicate(self.secret)
''')
rw('2', 'misc/commitment.py', 'BBSBitCommitmentVerifier.verify', '''
def verify(self, securityString, claimedCommitment):
  image, masked = claimedCommitment
  bit = self.decode(securityString, claimedCommitment)
  return self.oneWayPermutation(securityString) == image and self.hardcorePredicate(securityString) ^ bit == masked
''')
rw('2', 'misc/commitment.py', 'BBSIntCommitmentScheme.commit', '''
def commit(self, integer):
  n = len(self.schemes)
  if integer < 0 or integer >= 2**n:
    raise ValueError('integer does not fit in %d bits' % n)
  commitments = []
  for k in range(n):
    bit = (integer >> (n - 1 - k)) & 1
    commitments.append(self.schemes[k].commit(bit))
  return commitments
''')
rw('2', 'misc/commitment.py', 'BBSIntCommitmentVerifier.verify', '''
def verify(self, secrets, bitCommitments):
  n = len(self.verifiers)
  if len(secrets) != n or len(bitCommitments) != n:
    return False
  for k in range(n):
    if not self.verifiers[k].verify(secrets[k], bitCommitments[k]):
      return False
  return True
''')
rw('2', 'misc/commitment.py', 'BBSIntCommitmentVerifier.decode', '''
def decode(self, secrets, bitCommitments):
  value = 0
  for bit in self.decodeBits(secrets, bitCommitments):
    value = 2 * value + bit
  return value
''')
rw('2', 'misc/blockchain.py', 'valid_chain', '''
def valid_chain(self, chain):
  for last_block, block in zip(chain, chain[1:]):
    last_hash = self.hash(last_block)
    if block['previous_hash'] != last_hash:
      return False
    if not self.valid_proof(last_block['proof'], block['proof'], last_hash):
      return False
  return True
''')
rw('2', 'misc/blockchain.py', 'resolve_conflicts', '''
def resolve_conflicts(self):
  best = self.chain
  for node in self.nodes:
    response = requests.get(f'http://{node}/chain')
    if response.status_code != 200:
      continue
    candidate = response.json()['chain']
    if len(candidate) > len(best) and self.valid_chain(candidate):
      best = candidate
  if best is self.chain:
    return False
  self.chain = best
  return True
''')
rw('2', 'misc/zero_knowledge.py', 'ZKVerifier.accepts', '''
def accepts(self, isomorphism, choice, H):
  expected = self.G1 if choice == 1 else self.G2
  image = [(isomorphism(i), isomorphism(j)) for i, j in H]
  if image != expected:
    return False
  vertices = set()
  for i, j in H:
    vertices.add(i)
    vertices.add(j)
  seen = set()
  for v in vertices:
    w = isomorphism(v)
    if w in seen:
      return False
    seen.add(w)
  return True
''')
rw('2', 'misc/zero_knowledge.py', 'convince_beyond_doubt', '''
def convince_beyond_doubt(G1, G2, isomorphism, error_tolerance=1e-20):
  probability_fooled = 1
  while True:
    if not probability_fooled > error_tolerance:
      break
    if not run_protocol(G1, G2, isomorphism):
      raise AssertionError
    probability_fooled = probability_fooled / 2
    print(probability_fooled)
''')
rw('2', 'misc/zero_knowledge.py', 'num_vertices', '''
def num_vertices(G):
  return max([max(e) for e in G])
''')
rw('2', 'misc/zero_knowledge.py', 'make_inverse_permutation_function', '''
def make_inverse_permutation_function(L):
  def inverse(i):
    return L.index(i - 1) + 1
  return inverse
''')
rw('2', 'misc/zero_knowledge.py', 'prove_isomorphic_to', '''
def prove_isomorphic_to(self, isomorphism, graph_choice):
  back = make_inverse_permutation_function(isomorphism)
  if graph_choice != 1:
    forth = make_permutation_function(self.isomorphism)

    def composed(i):
      return forth(back(i))
    return composed
  return back
''')
rw('2', 'misc/blum_blum_shub.py', 'parity', '''
def parity(n):
  return bin(n)[2:].count('1') % 2
''')
rw('2', 'misc/blum_blum_shub.py', 'find_good_prime', '''
def find_good_prime(num_bits=512):
  while True:
    candidate = random.getrandbits(num_bits)
    if good_prime(candidate):
      return candidate
''')
rw('2', 'misc/blum_blum_shub.py', 'blum_blum_shub', '''
def blum_blum_shub(modulus_length=512):
  modulus = make_modulus(num_bits=modulus_length)
  return lambda x: x * x % modulus
''')
rw('2', 'misc/zkp_3_coloring.py', 'ZK3ColProver.commit_to_coloring', '''
def commit_to_coloring(self):
  self.vertexToScheme = {}
  for v in self.vertices:
    self.vertexToScheme[v] = commitment.BBSIntCommitmentScheme(
        2, self.one_way_permutation, self.hardcore_predicate)
  permutation = random_permutation(3)
  committed = {}
  for v in self.vertices:
    committed[v] = self.vertexToScheme[v].commit(permutation[self.coloring[v]])
  return committed
''')
rw('2', 'misc/zkp_3_coloring.py', 'ZK3ColProver.reveal_colors', '''
def reveal_colors(self, u, v):
  edge = (u, v) if u <= v else (v, u)
  if edge not in self.graph:
    raise Exception('Must query an edge!')
  return tuple(self.vertexToScheme[w].reveal() for w in edge)
''')
rw('2', 'misc/zkp_3_coloring.py', 'ZK3ColVerifier.accepts', '''
def accepts(self, revealed):
  colors = []
  for w, secrets in zip(self.chosen_edge, revealed):
    commitments = self.committed_coloring[w]
    if not self.verifier.verify(secrets, commitments):
      return False
    color = self.verifier.decode(secrets, commitments)
    if color > 2:
      return False
    colors.append(color)
  first, second = colors
  return first != second
''')
rw('2', 'misc/primality.py', 'decompose', '''
def decompose(n):
  k = 0
  while not n & 1:
    n >>= 1
    k = k + 1
  return k, n
''')
rw('2', 'misc/primality.py', 'isWitness', '''
def isWitness(possibleWitness, p, exponent, remainder):
  x = pow(possibleWitness, remainder, p)
  if x == 1:
    return False
  for _ in range(exponent):
    if x == p - 1:
      return False
    x = x * x % p
  return True
''')
rw('2', 'misc/primality.py', 'probablyPrime', '''
def probablyPrime(p, accuracy=100):
  if p in (2, 3):
    return True
  if p < 2 or not p % 2:
    return False
  k, m = decompose(p - 1)
  return not any(isWitness(random.randint(2, p - 2), p, k, m) for _ in range(accuracy))
''')
rw('2', 'starks/stark.py', 'verify_proof_at_position', '''
def _field_values(self, leaf):
  w = self.width
  values = [self.field(raw) for raw in unpack_merkle_leaf(leaf, w, 3)]
  return values[:w], values[w:2 * w], values[2 * w:]

def verify_proof_at_position(self, witness, boundary, ks, proof, i, pos):
  m_root, l_root, branches, _ = proof
  here, there, combined = branches[3 * i:3 * i + 3]
  following = (pos + self.extension_factor) % self.precision
  p_of_x, d_of_x, b_of_x = self._field_values(verify_branch(m_root, pos, here))
  p_of_g1x = self._field_values(verify_branch(m_root, following, there))[0]
  verify_branch(l_root, pos, combined, output_as_int=True)
  x = self.G2**pos
  zvalue = (x**self.steps - 1) / (x - self.last_step_position)
  polysOver = polynomials_over(self.field).factory
  zero = (polysOver([-1, 1]) * polysOver([-self.last_step_position, 1]))(x)
  for dim in range(self.width):
    assert p_of_g1x[dim] - self.step_polys[dim](p_of_x) - zvalue * d_of_x[dim] == 0
    interpolant = lagrange_interp_2(
        self.field, [1, self.last_step_position], [boundary[dim][2], witness[dim][-1]])
    assert p_of_x[dim] - b_of_x[dim] * zero - interpolant(x) == 0
''')
rw('2', 'starks/stark.py', 'compute_merkle_spot_checks', '''
def compute_merkle_spot_checks(self, mtree, l_mtree, samples=80):
  positions = get_pseudorandom_indices(
      l_mtree[1], self.precision, samples, exclude_multiples_of=self.extension_factor)
  branches = []
  for pos in positions:
    branches += [mk_branch(mtree, pos),
                 mk_branch(mtree, (pos + self.extension_factor) % self.precision),
                 mk_branch(l_mtree, pos)]
  print('Computed %d spot checks' % samples)
  return branches
''')
rw('2', 'starks/fri.py', 'HextoBin', '''
def HextoBin(Hexnum):
  num = int(Hexnum, 16)
  digits = []
  while num > 0:
    digits.insert(0, str(num % 2))
    num //= 2
  return digits
''')
rw('2', 'starks/fri.py', 'eval_on_subspace', '''
def eval_on_subspace(q, space):
  return [q(elt) for elt in space]
''')
rw('2', 'starks/fri.py', 'select_subspace', '''
def select_subspace(space, eta):
  return AffineSpace(space.field, space.basis[:eta])
''')
rw('2', 'starks/poly_utils.py', 'project_to_univariate', '''
def project_to_univariate(multivar_poly, i, field, width):
  multivars = multivariates_over(field, width - 1)
  make = polynomials_over(multivars).factory
  X = make([0, 1])
  out = make([])
  for term, coeff in multivar_poly:
    rest = tuple(e for k, e in enumerate(term) if k != i)
    out = out + make([multivars.factory({rest: coeff})]) * X**term[i]
  return out
''')
rw('2', 'starks/poly_utils.py', 'generate_irreducible_polynomial', '''
def generate_irreducible_polynomial(modulus, degree):
  Zp = IntegersModP(modulus)
  Polynomial = polynomials_over(Zp)
  candidate = None
  while candidate is None or not is_irreducible(candidate, modulus):
    coefficients = []
    for _ in range(degree):
      coefficients.append(Zp(random.randint(0, modulus - 1)))
    coefficients.append(Zp(1))
    candidate = Polynomial(coefficients)
  return candidate
''')
rw('2', 'starks/poly_utils.py', 'is_primitive', '''
def is_primitive(irred_poly, modulus, degree):
  if not is_irreducible(irred_poly, modulus):
    return False
  order = modulus**degree - 1
  polysOver = polynomials_over(IntegersModP(modulus))
  x, one = polysOver([0, 1]), polysOver([1])
  return all((x**(order // int(factor))) % irred_poly != one for factor in factorint(order))
''')
rw('2', 'starks/polynomial.py', 'polynomials_over.__divmod__', '''
@typecheck
def __divmod__(self, divisor):
  rest = list(self.coefficients)
  n = len(divisor.coefficients)
  lead = divisor.leading_coefficient()
  quotient = [self.ring(0)] * (len(rest) - n + 1)
  for k in range(len(rest) - n, -1, -1):
    c = rest[k + n - 1] / lead
    quotient[k] = c
    for j in range(n):
      rest[k + j] = rest[k + j] - c * divisor.coefficients[j]
  return Polynomial(quotient), Polynomial(rest)
''')
rw('2', 'starks/numbertype.py', 'typecheck', '''
def typecheck(f):
  def newF(self, other):
    cls = self.__class__
    precedence = getattr(other.__class__, 'operatorPrecedence', None)
    if precedence is not None and precedence > cls.operatorPrecedence:
      return NotImplemented
    if type(self) is type(other):
      return f(self, other)
    try:
      converted = cls(other)
    except TypeError:
      raise TypeError('Not able to typecast %s of type %s to type %s in function %s' % (
          other, type(other).__name__, type(self).__name__, f.__name__))
    except Exception as e:
      raise TypeError('Type error on arguments %r, %r for function %s. %s != %s. Reason: %s' % (
          self, other, f.__name__, type(other).__name__, type(self).__name__, e))
    return f(self, converted)
  return newF
''')

# ---------------------------------------------------------------- batch 3
rw('3', 'starks/reedsolomon.py', 'AffineSpace.__len__', '''
def __len__(self):
  size = 1
  for _ in self.basis:
    size *= int(self.field.p)**self.field.m
  return size
''')
rw('3', 'starks/reedsolomon.py', 'AffineSpace.__iter__', '''
def _combine(self, scalars):
  point = self.shift
  for k, direction in enumerate(self.basis):
    point = point + scalars[k] * direction
  return point

def __iter__(self):
  field = self.field
  for scalars in itertools.product(*[field.__iter__() for _ in self.basis]):
    yield self._combine(scalars)
''')
rw('3', 'starks/finitefield.py', 'num_to_binary_list_pow', '''
def num_to_binary_list_pow(index):
  return [0] * index + [1]
''')
rw('3', 'starks/finitefield.py', 'add_binary_nums', '''
def add_binary_nums(x, y):
  width = max(len(x), len(y))
  x = x.zfill(width)
  y = y.zfill(width)
  digits = []
  carry = 0
  for a, b in zip(reversed(x), reversed(y)):
    total = carry + (a == '1') + (b == '1')
    digits.append(str(total % 2))
    carry = total // 2
  if carry:
    digits.append('1')
  return digits
''')
rw('3', 'starks/finitefield.py', 'FiniteField.__init__', '''
def __init__(self, poly):
  self.field = Fq
  kind = type(poly)
  if kind is Fq:
    self.poly = poly.poly
    return
  if kind is int or kind is Zp:
    self.poly = Polynomial([Zp(poly)])
    return
  if isinstance(poly, bytes):
    wide = Polynomial(poly)
  elif isinstance(poly, Polynomial):
    wide = poly
  else:
    wide = Polynomial([Zp(x) for x in poly])
  self.poly = wide % polynomialModulus
''')
rw('3', 'starks/finitefield.py', 'FiniteField.__pow__', '''
def __pow__(self, n):
  if n < 0:
    return self.inverse()**(-n)
  result = Fq([1])
  base = self
  while n > 0:
    if n % 2 == 1:
      result = result * base
    base = base * base
    n //= 2
  return result
''')
rw('3', 'starks/finitefield.py', 'FiniteField.inverse', '''
def inverse(self):
  zero = Fq(0)
  if not self != zero:
    raise ZeroDivisionError
  bezout, _, common = extended_euclidean_algorithm(self.poly, self.ideal_generator)
  if common.degree() > 0 or common.degree() < 0:
    raise Exception(
        'Somehow, this element has no inverse! Maybe intialized with a non-prime?'
    )
  scale = common.coefficients[0].inverse()
  return Fq(scale) * Fq(bezout)
''')
rw('3', 'starks/finitefield.py', 'FiniteField.__sub__', '''
@typecheck
def __sub__(self, other):
  difference = self.poly - other.poly
  return Fq(difference)
''')
rw('3', 'starks/rationals_modp.py', 'RationalsModP.__add__', '''
def _reduced(self, num, den):
  p = RationalModP.p
  num, den = num % p, den % p
  common = gcd(num, den)
  return RationalModP(num // common, den // common)

@typecheck
def __add__(self, other):
  return self._reduced(self.m * other.n + other.m * self.n, self.n * other.n)
''')
rw('3', 'starks/rationals_modp.py', 'RationalsModP.__sub__', '''
@typecheck
def __sub__(self, other):
  return self._reduced(self.m * other.n - other.m * self.n, self.n * other.n)
''')
rw('3', 'starks/rationals_modp.py', 'RationalsModP.__eq__', '''
@typecheck
def __eq__(self, other):
  if not isinstance(other, RationalModP):
    return False
  return (self.m * other.n - other.m * self.n) % RationalModP.p == 0
''')
rw('3', 'starks/rationals_modp.py', 'RationalsModP.inverse', '''
def inverse(self):
  top, bottom = self.m, self.n
  if not top:
    raise Exception("Cannot invert with numerator 0")
  return RationalModP(bottom, top)
''')
rw('3', 'starks/apr.py', 'APR.tilde_expansion', '''
def tilde_expansion(self, indices, neighbor, PhiPolys):
  n = len(self.Nbrs)
  N_X_loc = neighbor(PhiPolys({(1,) + (0,) * n: 1}))
  Z_N = [Z(N_X_loc) for Z in self.Z_boundaries]
  Eps_N = [E(N_X_loc) for E in self.Eps_boundaries]
  size = len(N_X_loc)
  return [PhiPolys({(0,) * tau + (1,) + (0,) * (size - tau): 1}) * Z_N[tau] + Eps_N[tau] for tau in indices]
''')
rw('3', 'starks/apr.py', 'APR.construct_L', '''
def construct_L(self, g):
  top = 1 + self.k + self.R + self.t + self.d
  basis = []
  for i in range(top):
    basis.append(g**i)
  shift = g**top
  basis.append(shift * (1 + g))
  return AffineSpace(self.field, basis, shift)
''')
rw('3', 'starks/apr.py', 'APR.construct_L_cmp', '''
def construct_L_cmp(self, g):
  top = self.d + self.t + self.R + self.k + 1
  return AffineSpace(self.field, list(map(lambda i: g**i, range(top))), g**top)
''')
rw('3', 'starks/apr.py', 'APR.compute_rho_js', '''
def compute_rho_js(self, Z_boundaries, L):
  size = L.__len__()
  budget = 2**(self.k + self.t)
  return [int(budget - Z.degree()) / size for Z in Z_boundaries]
''')
rw('3', 'starks/apr.py', 'APR.construct_Z_boundaries', '''
def construct_Z_boundaries(self, B):
  x = self.polysOver([0, 1])
  g = self.basePolys([0, 1])
  def vanishing():
    product = self.polysOver([self.basePolys(1)])
    for i, _, _ in B:
      product = product * (x - self.polysOver([((g**i) % self.zeta)]))
    return product
  return [vanishing() for _ in range(self.width)]
''')
rw('3', 'starks/apr.py', 'APR.construct_Eps_boundaries', '''
def construct_Eps_boundaries(self, B):
  g = self.basePolys([0, 1])
  accums = []
  for _ in range(self.width):
    xs, ys = [], []
    for i, _, alpha in B:
      xs.append((g**i) % self.zeta)
      ys.append(alpha)
    accums.append(lagrange_interp(self.field, xs, ys))
  return accums
''')
rw('3', 'starks/apr.py', 'APR.construct_neighbors', '''
def construct_neighbors(self, Tau, zeta, g, polysOver):
  shapes = [[0, 1], [zeta, g], [0, g]]
  return [(tau, polysOver(shape)) for tau in Tau for shape in shapes]
''')
rw('3', 'starks/apr.py', 'APR.generate_witness', '''
def generate_witness(self):
  columns = self.comp.generate_witness()
  n = 2**self.t
  g = self.basePolys([0, 1])
  result = []
  for k, column in enumerate(columns):
    if k >= len(self.Z_boundaries) or k >= len(self.Eps_boundaries):
      break
    xs = [g**i % self.zeta for i in range(n)]
    Q = draw_random_interpolant(2**(self.k + self.t), xs, [column[i] for i in range(n)])
    result.append((Q - self.Eps_boundaries[k]) / self.Z_boundaries[k])
  return result
''')
rw('3', 'starks/ali.py', 'ALIProver.generate_random_constraint', '''
def generate_random_constraint(self, rphi):
  total = 0
  k = 0
  for phi in self.apr.Phi:
    total = total + rphi[k] * phi
    k += 1
  return total
''')
rw('3', 'starks/floatingpoint.py', 'num_to_binary_list', '''
def num_to_binary_list(index):
  digits = []
  while index > 0:
    index, bit = divmod(index, 2)
    digits.append(bit)
  return digits
''')
rw('3', 'misc/run_blockchain.py', 'mine', '''
def _forge(last_block):
  proof = blockchain.proof_of_work(last_block)
  blockchain.new_transaction(sender="0", recipient=node_identifier, amount=1)
  return blockchain.new_block(proof, blockchain.hash(last_block))


@app.route('/mine', methods=['GET'])
def mine():
  block = _forge(blockchain.last_block)
  response = {'message': "New Block Forged"}
  for field in ('index', 'transactions', 'proof', 'previous_hash'):
    response[field] = block[field]
  return jsonify(response), 200
''')
rw('3', 'misc/run_blockchain.py', 'new_transaction', '''
@app.route('/transactions/new', methods=['POST'])
def new_transaction():
  values = request.get_json()
  for field in ['sender', 'recipient', 'amount']:
    if field not in values:
      return 'Missing values', 400
  index = blockchain.new_transaction(*[values[k] for k in ('sender', 'recipient', 'amount')])
  return jsonify({'message': 'Transaction will be added to Block %s' % index}), 201
''')
rw('3', 'misc/run_blockchain.py', 'register_nodes', '''
@app.route('/nodes/register', methods=['POST'])
def register_nodes():
  nodes = request.get_json().get('nodes')
  if nodes is None:
    return "Error: Please supply a valid list of nodes", 400
  for k in range(len(nodes)):
    blockchain.register_node(nodes[k])
  return jsonify({'message': 'New nodes have been added', 'total_nodes': list(blockchain.nodes)}), 201
''')
rw('3', 'misc/run_blockchain.py', 'consensus', '''
@app.route('/nodes/resolve', methods=['GET'])
def consensus():
  if not blockchain.resolve_conflicts():
    return jsonify({'message': 'Our chain is authoritative', 'chain': blockchain.chain}), 200
  return jsonify({'message': 'Our chain was replaced', 'new_chain': blockchain.chain}), 200
''')
rw('3', 'misc/blockchain.py', 'Blockchain.register_node', '''
def register_node(self, address):
  parsed = urlparse(address)
  location = parsed.netloc or parsed.path
  if not location:
    raise ValueError('Invalid URL')
  self.nodes.add(location)
''')
rw('3', 'misc/blockchain.py', 'Blockchain.valid_chain', '''
def _follows(self, parent, block):
  digest = self.hash(parent)
  return block['previous_hash'] == digest and self.valid_proof(parent['proof'], block['proof'], digest)

def valid_chain(self, chain):
  for parent, block in zip(chain[:-1], chain[1:]):
    if not self._follows(parent, block):
      return False
  chain[0]
  return True
''')
rw('3', 'misc/blockchain.py', 'Blockchain.resolve_conflicts', '''
def _fetch(self, node):
  response = requests.get('http://%s/chain' % node)
  return response.json()['chain'] if response.status_code == 200 else None

def resolve_conflicts(self):
  best = self.chain
  for node in self.nodes:
    chain = self._fetch(node)
    if chain is not None and len(chain) > len(best) and self.valid_chain(chain):
      best = chain
  replaced = best is not self.chain
  self.chain = best
  return replaced
''')
rw('3', 'misc/blockchain.py', 'Blockchain.new_block', '''
def new_block(self, proof, previous_hash):
  pending, self.current_transactions = self.current_transactions, []
  if not previous_hash:
    previous_hash = self.hash(self.chain[-1])
  block = dict(index=1 + len(self.chain), timestamp=time(), transactions=pending, proof=proof,
               previous_hash=previous_hash)
  self.chain += [block]
  return block
''')
rw('3', 'misc/blockchain.py', 'Blockchain.valid_proof', '''
@staticmethod
def valid_proof(last_proof, proof, last_hash):
  guess = str(last_proof) + str(proof) + str(last_hash)
  return hashlib.sha256(guess.encode()).hexdigest().startswith("0000")
''')
rw('3', 'misc/blockchain.py', 'Blockchain.proof_of_work', '''
def proof_of_work(self, last_block):
  last_hash = self.hash(last_block)
  proof = 0
  while True:
    if self.valid_proof(last_block['proof'], proof, last_hash):
      return proof
    proof = proof + 1
''')
rw('3', 'starks/euclidean.py', 'extended_euclidean_algorithm', '''
def extended_euclidean_algorithm(a, b):
  swapped = abs(b) > abs(a)
  if swapped:
    a, b = b, a
  if abs(b) == 0:
    return (0, 1, a) if swapped else (1, 0, a)
  older = (1, 0)
  newer = (0, 1)
  while abs(b) > 0:
    q, r = divmod(a, b)
    older, newer = newer, (older[0] - q * newer[0], older[1] - q * newer[1])
    a, b = b, r
  x, y = older
  return (y, x, a) if swapped else (x, y, a)
''')
rw('3', 'starks/fft.py', 'mul_polys', '''
def _roots(root_of_unity):
  powers = [1]
  current = root_of_unity
  while current != 1:
    powers.append(current)
    current = current * root_of_unity
  return powers


def mul_polys(a: List[FieldElement], b: List[FieldElement], root_of_unity: FieldElement) -> List[FieldElement]:
  powers = _roots(root_of_unity)
  n = len(powers)
  if n > len(a):
    a = a + [0] * (n - len(a))
  if n > len(b):
    b = b + [0] * (n - len(b))
  fa, fb = _fft(a, powers), _fft(b, powers)
  product = [u * v for u, v in zip(fa, fb)]
  back = _fft(product, [powers[-k % n] for k in range(n)])
  scale = root_of_unity**0 * len(fa)
  return [x / scale for x in back]
''')
rw('3', 'starks/polynomial.py', 'polynomials_over.__init__', '''
def __init__(self, c):
  if type(c) is Polynomial:
    coefficients = c.coefficients
  elif isinstance(c, bytes):
    if len(c) % 32:
      raise ValueError("Bytelength must be multiple of 32")
    coefficients = [ring(c[k:k + 32]) for k in range(0, len(c), 32)]
  elif isinstance(c, ring):
    coefficients = [c]
  elif hasattr(c, '__iter__') or hasattr(c, 'iter'):
    coefficients = [ring(coeff) for coeff in c]
  else:
    coefficients = [ring(c)]
  self.coefficients = strip(coefficients, ring(0))
''')
rw('3', 'starks/polynomial.py', 'polynomials_over.__sub__', '''
def __sub__(self, other):
  opposite = -other
  return self + opposite
''')
rw('3', 'starks/multivariate_polynomial.py', 'multivariates_over.__init__', '''
def __init__(self, c):
  constant = (0,) * num_vars
  if isinstance(c, ring):
    terms = {constant: c}
  elif type(c) is MultivariatePolynomial:
    terms = c.coefficients
  elif isinstance(c, dict):
    terms = c
  elif isinstance(c, int):
    terms = {constant: ring(c)}
  else:
    raise ValueError
  self.coefficients = remove_zero_coefficients(terms)
''')
rw('3', 'misc/blum_blum_shub.py', 'good_prime', '''
def good_prime(p):
  if p % 4 != 3:
    return False
  return probablyPrime(p, accuracy=100)
''')

# ---------------------------------------------------------------- batch 4
rw('4', 'starks/compression.py', 'compress_fri', '''
def _adder(out, index):
  def add(x):
    seen_at = index.get(x)
    if seen_at is not None:
      out.append(seen_at.to_bytes(2, 'big'))
      return
    index[x] = len(out)
    out.append(x)
  return add


def compress_fri(prf):
  out = []
  add = _adder(out, {})
  *components, last = prf
  for root, yproofs in components:
    stream = [b'----', root]
    for yproof in yproofs:
      for branch in yproof:
        stream += list(branch) + [b'++++']
      stream.append(b'====')
    for item in stream:
      add(item)
  add(b'////')
  for x in last:
    add(x)
  assert decompress_fri(out) == prf
  return out
''')
rw('4', 'starks/compression.py', 'compress_branches', '''
def compress_branches(branches):
  out = []
  add = _adder(out, {})
  for branch in branches:
    for item in [*branch, b'----']:
      add(item)
  assert decompress_branches(out) == branches
  return out
''')
rw('4', 'starks/compression.py', 'decompress_branches', '''
def decompress_branches(proof):
  result = []
  current = []
  for item in proof:
    if len(item) == 2:
      item = proof[int.from_bytes(item, 'big')]
    if item == b'----':
      result.append(current)
      current = []
    else:
      current.append(item)
  if current:
    result.append(current)
  return result
''')
rw('4', 'starks/multivariate_polynomial.py', 'multivariates_over.__iter__', '''
def __iter__(self):
  return iter([(k, self.coefficients[k]) for k in sorted(self.coefficients)])
''')
rw('4', 'starks/multivariate_polynomial.py', 'multivariates_over.__call__', '''
def __call__(self, vals):
  assert len(vals) == num_vars
  def monomial(exponents):
    value = ring(1)
    for base, power in zip(vals, exponents):
      value = value * base**power
    return value
  total = ring(0)
  for exponents, coeff in self:
    total = total + coeff * monomial(exponents)
  return total
''')
rw('4', 'starks/multivariate_polynomial.py', 'multivariates_over.__eq__', '''
@typecheck
def __eq__(self, other):
  mine, theirs = self.coefficients, other.coefficients
  if self.degree() != other.degree() or set(mine) != set(theirs):
    return False
  for key in mine:
    if mine[key] != theirs[key]:
      return False
  return True
''')
rw('4', 'starks/multivariate_polynomial.py', 'multivariates_over.__neg__', '''
def __neg__(self):
  negated = {}
  for key, coeff in self.coefficients.items():
    negated[key] = -coeff
  return MultivariatePolynomial(negated)
''')
rw('4', 'starks/poly_utils.py', 'lagrange_interp_2', '''
def lagrange_interp_2(field, xs, ys):
  polysOver = polynomials_over(field).factory
  xs = xs if isinstance(xs, list) else xs.coefficients
  ys = ys if isinstance(ys, list) else ys.coefficients
  first, second = polysOver([-xs[1], 1]), polysOver([-xs[0], 1])
  at0, at1 = first(xs[0]), second(xs[1])
  inverse = 1 / (at0 * at1)
  w0 = ys[0] * inverse * at1
  w1 = ys[1] * inverse * at0
  coefficients = []
  for k in (0, 1):
    coefficients.append(first.coefficients[k] * w0 + second.coefficients[k] * w1)
  return polysOver(coefficients)
''')
rw('4', 'starks/poly_utils.py', 'lagrange_interp_4', '''
def _quartic_basis(polysOver, xs):
  basis = []
  for k in range(4):
    a, b, c = [xs[j] for j in range(4) if j != k]
    basis.append(polysOver([-(a * b) * c, a * b + a * c + b * c, -a - b - c, 1]))
  return basis


def lagrange_interp_4(field, xs, ys):
  polysOver = polynomials_over(field).factory
  basis = _quartic_basis(polysOver, xs)
  e0, e1, e2, e3 = [eq(x) for eq, x in zip(basis, xs)]
  e01, e23 = e0 * e1, e2 * e3
  invall = 1 / (e01 * e23)
  weights = [ys[0] * invall * e1 * e23, ys[1] * invall * e0 * e23, ys[2] * invall * e01 * e3, ys[3] * invall * e01 * e2]
  out = []
  for i in range(4):
    c = basis[0].coefficients[i] * weights[0]
    for k in range(1, 4):
      c = c + basis[k].coefficients[i] * weights[k]
    out.append(c)
  return polysOver(out)
''')
rw('4', 'starks/poly_utils.py', 'multi_interp_4', '''
def multi_interp_4(field, xsets, ysets):
  polysOver = polynomials_over(field).factory
  bases, targets = [], []
  pairs = list(zip(xsets, ysets))
  for xs, _ in pairs:
    basis = _quartic_basis(polysOver, xs)
    bases.append(basis)
    targets += [basis[k](xs[k]) for k in range(4)]
  inverses = multi_inv(field, targets)
  out = []
  for n, (_, ys) in enumerate(pairs):
    weights = [ys[k] * inverses[4 * n + k] for k in range(4)]
    out.append(polysOver([sum([bases[n][k].coefficients[i] * weights[k] for k in range(1, 4)],
                              bases[n][0].coefficients[i] * weights[0]) for i in range(4)]))
  return out
''')
rw('4', 'starks/poly_utils.py', 'construct_multivariate_dirac_delta', '''
def construct_multivariate_dirac_delta(field, values, n):
  multi = multivariates_over(field, n).factory
  q = field.field_size
  base = field(1)
  for i in range(len(values)):
    unit = tuple(1 if j == i else 0 for j in range(n))
    shifted = multi({(0,) * n: -values[i], unit: 1})
    base = base * (field(1) - shifted**(q - 1))
  return base
''')
rw('4', 'starks/poly_utils.py', 'is_monic', '''
def is_monic(poly):
  lead = poly.coefficients[-1]
  return lead == 1
''')
rw('4', 'starks/poly_utils.py', 'is_primitive', '''
def is_primitive(irred_poly, modulus, degree):
  if is_irreducible(irred_poly, modulus):
    polysOver = polynomials_over(IntegersModP(modulus))
    x, one = polysOver([0, 1]), polysOver([1])
    order = modulus**degree - 1
    for factor in factorint(order):
      if (x**(order // int(factor))) % irred_poly == one:
        return False
    return True
  return False
''')
rw('4', 'starks/poly_utils.py', 'construct_affine_vanishing_polynomial', '''
def construct_affine_vanishing_polynomial(field, aff):
  roots = []
  for elt in aff:
    roots.append(field(elt))
  return zpoly(field, roots)
''')
rw('4', 'starks/stark.py', 'construct_trace_polynomials', '''
def construct_trace_polynomials(witness, field, root_of_unity):
  solver = NonBinaryFFT(field, root_of_unity)
  return [solver.inv_fft(column) for column in witness]
''')
rw('4', 'starks/stark.py', 'construct_constraint_polynomials', '''
def construct_constraint_polynomials(step_polys, trace_polys, field, root_of_unity, width):
  polysOver = polynomials_over(field).factory
  argument = root_of_unity * polysOver([field(0), field(1)])
  shifted = []
  for trace_poly in trace_polys:
    shifted.append(trace_poly(argument))
  count = min(len(shifted), len(step_polys))
  return [shifted[k] - step_polys[k](trace_polys) for k in range(count)]
''')
rw('4', 'starks/stark.py', 'compute_pseudorandom_linear_combination', '''
def compute_pseudorandom_linear_combination(entropy, trace_polys, remainder_polys, boundary_polys, field, root_of_unity, root_of_unity_degree, steps, width):
  ratio = root_of_unity**steps
  last = 1
  count = 1
  while count < root_of_unity_degree:
    last = last * ratio
    count += 1
  l_polys = compute_pseudorandom_linear_combination_1d(entropy, trace_polys, remainder_polys, boundary_polys, root_of_unity, steps, root_of_unity_degree)
  l_ks = get_pseudorandom_ks(entropy, width)
  total = 0
  for l_poly, l_k in zip(l_polys, l_ks):
    total = total + (l_poly + l_poly * l_k * last)
  return total
''')
rw('4', 'starks/stark.py', 'STARK.get_degree', '''
def get_degree(self):
  best = None
  for poly in self.step_polys:
    if best is None or poly.degree() > best:
      best = poly.degree()
  if best is None:
    raise ValueError('no step polynomials')
  return best
''')
rw('4', 'starks/modp.py', 'IntegersModP.inverse', '''
def inverse(self):
  bezout, _, common = extended_euclidean_algorithm(self.n, self.p)
  if common == 1:
    return IntegerModP(bezout)
  raise ZeroDivisionError("%r has no inverse" % (self,))
''')
rw('4', 'starks/modp.py', 'IntegersModP.__init__', '''
def __init__(self, n):
  self.field = IntegerModP
  try:
    value = int.from_bytes(n, 'big') if isinstance(n, bytes) else int(n)
    self.n = value % IntegerModP.p
  except:
    raise TypeError("Can't cast type %s to %s in __init__" %
                    (type(n).__name__, type(self).__name__))
''')
rw('4', 'starks/modp.py', 'IntegersModP.__eq__', '''
@typecheck
def __eq__(self, other):
  if not isinstance(other, IntegerModP):
    return False
  return self.n == other.n
''')
rw('4', 'starks/modp.py', 'IntegersModP.__ne__', '''
@typecheck
def __ne__(self, other):
  return not (isinstance(other, IntegerModP) and self.n == other.n)
''')
rw('4', 'starks/polynomial.py', 'polynomials_over.__add__', '''
@typecheck
def __add__(self, other):
  longer, shorter = (self, other) if len(self) >= len(other) else (other, self)
  padding = [self.ring(0)] * (len(longer) - len(shorter))
  return Polynomial([a + b for a, b in zip(longer.coefficients, shorter.coefficients + padding)])
''')
rw('4', 'starks/polynomial.py', 'polynomials_over.__mul__', '''
@typecheck
def __mul__(self, other):
  n, m = len(self), len(other)
  if n == 0 or m == 0:
    return Zero()
  product = [self.ring(0)] * (n + m - 1)
  for i in range(n):
    for j in range(m):
      product[i + j] = product[i + j] + self.coefficients[i] * other.coefficients[j]
  return Polynomial(product)
''')
rw('4', 'starks/polynomial.py', 'polynomials_over.__call__', '''
def __call__(self, x):
  total = self.ring(0)
  power = 1
  n = 0
  while n < len(self.coefficients):
    total = total + power * self.coefficients[n]
    power = power * x
    n += 1
  return total
''')
rw('4', 'starks/polynomial.py', 'polynomials_over.__eq__', '''
@typecheck
def __eq__(self, other):
  if self.degree() != other.degree():
    return False
  for k in range(len(self.coefficients)):
    if not self.coefficients[k] == other.coefficients[k]:
      return False
  return True
''')
rw('4', 'starks/polynomial.py', 'polynomials_over.__truediv__', '''
@typecheck
def __truediv__(self, divisor):
  self._nonzero(divisor)
  quotient, _ = divmod(self, divisor)
  return quotient

@staticmethod
def _nonzero(divisor):
  if divisor.is_zero():
    raise ZeroDivisionError
''')
rw('4', 'starks/polynomial.py', 'polynomials_over.__mod__', '''
@typecheck
def __mod__(self, divisor):
  self._nonzero(divisor)
  _, rest = divmod(self, divisor)
  return rest
''')
rw('4', 'starks/polynomial.py', 'polynomials_over.__divmod__', '''
@typecheck
def __divmod__(self, divisor):
  rest = self
  quotient = Zero()
  degree = divisor.degree()
  inverse = None
  while rest.degree() >= degree:
    shift = rest.degree() - degree
    ratio = rest.leading_coefficient() / divisor.leading_coefficient()
    step = Polynomial([self.ring(0)] * shift + [ratio])
    quotient = quotient + step
    rest = rest - step * divisor
  return quotient, rest
''')
rw('4', 'starks/merkle_tree.py', 'permute4', '''
def permute4(values):
  quarter = len(values) // 4
  return [values[i + quarter * j] for i in range(quarter) for j in range(4)]
''')
rw('4', 'starks/merkle_tree.py', 'get_index_in_permuted', '''
def get_index_in_permuted(x, L):
  block, offset = divmod(x, L // 4)
  return 4 * offset + block
''')
rw('4', 'starks/merkle_tree.py', 'merkelize', '''
def _leaf(x):
  if isinstance(x, bytes):
    return x
  return x.to_bytes(32, 'big') if isinstance(x, int) else x.to_bytes()


def merkelize(L):
  leaves = list(map(_leaf, permute4(L)))
  n = len(leaves)
  nodes = [b''] * n + leaves
  i = n - 1
  while i > 0:
    left, right = nodes[2 * i], nodes[2 * i + 1]
    nodes[i] = blake(left + right)
    i -= 1
  return nodes
''')
rw('4', 'starks/merkle_tree.py', 'mk_branch', '''
def mk_branch(tree, index):
  half = len(tree) // 2
  position = half + get_index_in_permuted(index, half)
  branch = [tree[position]]
  while position > 1:
    sibling = position + 1 if position % 2 == 0 else position - 1
    branch.append(tree[sibling])
    position >>= 1
  return branch
''')
rw('4', 'starks/merkle_tree.py', 'verify_branch', '''
def verify_branch(root, index, proof, output_as_int=False):
  size = 2**len(proof) // 2
  position = size + get_index_in_permuted(index, size)
  leaf = proof[0]
  digest = leaf
  for k in range(1, len(proof)):
    pair = (proof[k], digest) if position & 1 else (digest, proof[k])
    digest = blake(pair[0] + pair[1])
    position = position // 2
  if digest != root:
    raise AssertionError
  if output_as_int:
    return int.from_bytes(leaf, 'big')
  return leaf
''')
rw('4', 'starks/merkle_tree.py', 'merkelize_polynomial_evaluations', '''
def merkelize_polynomial_evaluations(dims, polynomial_evals):
  leaves = []
  for evals in zip(*polynomial_evals):
    leaf = b''
    for val in evals:
      leaf += val.to_bytes()
    leaves.append(leaf)
  return merkelize(leaves)
''')
rw('4', 'starks/merkle_tree.py', 'unpack_merkle_leaf', '''
def unpack_merkle_leaf(leaf, dims, num_polys):
  count = num_polys * dims
  return [leaf[32 * k:32 * k + 32] for k in range(count)]
''')
rw('4', 'misc/commitment.py', 'BBSIntCommitmentScheme.commit', '''
def commit(self, integer):
  n = len(self.schemes)
  if integer < 0 or integer >= 2**n:
    raise ValueError('integer does not fit in %d bits' % n)
  digits = '{:b}'.format(integer).rjust(n, '0')
  return [self.schemes[k].commit(int(digits[k])) for k in range(n)]
''')
rw('4', 'misc/commitment.py', 'BBSIntCommitmentVerifier.verify', '''
def verify(self, secrets, bitCommitments):
  n = len(self.verifiers)
  if len(secrets) != n or len(bitCommitments) != n:
    return False
  for k, verifier in enumerate(self.verifiers):
    if not verifier.verify(secrets[k], bitCommitments[k]):
      return False
  return True
''')
rw('4', 'misc/commitment.py', 'BBSIntCommitmentVerifier.decode', '''
def decode(self, secrets, bitCommitments):
  text = ''
  for bit in self.decodeBits(secrets, bitCommitments):
    text += str(bit)
  return int(text, 2)
''')
rw('4', 'misc/commitment.py', 'BBSBitCommitmentVerifier.verify', '''
def verify(self, securityString, claimedCommitment):
  claimed = self.decode(securityString, claimedCommitment)
  mask = self.hardcorePredicate(securityString)
  return claimedCommitment == (self.oneWayPermutation(securityString), claimed ^ mask)
''')
rw('4', 'starks/utils.py', 'get_pseudorandom_indices', '''
def get_pseudorandom_indices(entropy, modulus, count, exclude_multiples_of=0):
  assert modulus < 2**24
  stream = entropy
  while len(stream) < 4 * count:
    stream = stream + blake(stream[-32:])
  span = modulus
  if exclude_multiples_of != 0:
    span = modulus * (exclude_multiples_of - 1) // exclude_multiples_of
  drawn = []
  for k in range(count):
    drawn.append(int.from_bytes(stream[4 * k:4 * k + 4], 'big') % span)
  if exclude_multiples_of == 0:
    return drawn
  return [x + 1 + x // (exclude_multiples_of - 1) for x in drawn]
''')
rw('4', 'starks/utils.py', 'get_power_cycle', '''
def get_power_cycle(r, field):
  one = field(1)
  cycle = [one]
  current = r
  while current != one:
    cycle.append(current)
    current = current * r
  return cycle
''')
rw('4', 'starks/utils.py', 'generate_Xi_s', '''
def generate_Xi_s(field, width):
  polysOver = multivariates_over(field, width).factory
  def unit(i):
    return tuple(int(j == i) for j in range(width))
  return [polysOver({unit(i): field(1)}) for i in range(width)]
''')
rw('4', 'starks/utils.py', 'is_a_power_of_2', '''
def is_a_power_of_2(x):
  if x == 1:
    return True
  if x % 2:
    return False
  return is_a_power_of_2(x // 2)
''')
rw('4', 'starks/utils.py', 'mimc', '''
def mimc(inp, steps, round_constants):
  modulus = 2**256 - 2**32 * 351 + 1
  n = len(round_constants)
  state = inp
  k = 0
  while k < steps - 1:
    state = (state * state * state + round_constants[k % n]) % modulus
    k += 1
  return state
''')
rw('4', 'starks/air.py', 'AIR.generate_monotone_circuit', '''
def generate_monotone_circuit(self, Polys):
  trace = self.computational_trace
  valid = True
  for before, after in zip(trace[:self.steps - 1], trace[1:self.steps]):
    for j in range(self.width):
      if Polys[j](before + after) != 0:
        valid = False
  return valid
''')
rw('4', 'starks/air.py', 'AIR.C_degree', '''
def C_degree(self, Polys):
  return max(map(lambda j: Polys[j].degree(), range(self.width)))
''')
rw('4', 'starks/air.py', 'AIR.generate_constraint_polynomials', '''
def generate_constraint_polynomials(self):
  w = self.width
  variables = generate_Xi_s(self.field, 2 * w)
  now, following = variables[:w], variables[w:]
  return [following[i] - self.step_polys[i](now) for i in range(w)]
''')
rw('4', 'starks/air.py', 'get_computational_trace', '''
def get_computational_trace(inp, steps, width, step_polys):
  state = inp
  trace = [state]
  while len(trace) < steps:
    state = [step_polys[k](state) for k in range(width)]
    trace.append(state)
  return trace, state
''')
rw('4', 'misc/zero_knowledge.py', 'random_permutation', '''
def random_permutation(n):
  order = [k for k in range(n)]
  random.shuffle(order)
  return order
''')
rw('4', 'misc/zero_knowledge.py', 'ZKProver.send_isomorphic_copy', '''
def send_isomorphic_copy(self):
  shuffled = random_permutation(self.n)
  return (shuffled, apply_isomorphism(self.G1, make_permutation_function(shuffled)))
''')
rw('4', 'misc/zero_knowledge.py', 'run_protocol', '''
def run_protocol(G1, G2, isomorphism):
  prover, verifier = ZKProver(G1, G2, isomorphism), ZKVerifier(G1, G2)
  secret, H = prover.send_isomorphic_copy()
  choice = verifier.choose_graph()
  return verifier.accepts(prover.prove_isomorphic_to(secret, choice), choice, H)
''')
rw('4', 'misc/zero_knowledge.py', 'simulate_protocol', '''
def simulate_protocol(G1, G2):
  choice = random.choice([1, 2])
  G = G1 if choice == 1 else G2
  shuffled = random_permutation(num_vertices(G))
  H = apply_isomorphism(G, make_permutation_function(shuffled))
  return H, choice, make_inverse_permutation_function(shuffled)
''')
rw('4', 'misc/zero_knowledge.py', 'ZKVerifier.accepts', '''
def accepts(self, isomorphism, choice, H):
  expected = self.G1 if choice == 1 else self.G2
  image = [(isomorphism(a), isomorphism(b)) for a, b in H]
  if expected != image:
    return False
  seen = {}
  for a, b in H:
    seen[a] = isomorphism(a)
    seen[b] = isomorphism(b)
  return len(set(seen.values())) == len(seen)
''')
rw('4', 'starks/floatingpoint.py', 'FloatingPoint.__mul__', '''
@typecheck
def __mul__(self, other):
  polysOver = polynomials_over(IntegersModP(field.p))
  zero = self.z | other.z
  sign = self.s ^ other.s
  if zero == 1:
    return Fp(field(polysOver([0])), field(polysOver([0])), zero, sign)
  shift = self.v.poly.degree() + other.v.poly.degree() - (self.v.m - 1)
  exponent = self.p + other.p + num_to_binary_list(shift)
  return Fp(self.v * other.v, exponent, zero, sign)
''')
rw('4', 'starks/floatingpoint.py', 'FloatingPoint.Float_to_Fix', '''
def Float_to_Fix(self):
  if self.z != 1:
    return self.v * self.p.two_pow(), self.s
  polysOver = polynomials_over(IntegersModP(field.p))
  return field(polysOver([0])), 0
''')
rw('4', 'starks/fft.py', '_simple_ft', '''
def _simple_ft(vals, roots_of_unity):
  n = len(roots_of_unity)
  def entry(i):
    total = 0
    for j, v in enumerate(vals[:n]):
      total = total + v * roots_of_unity[i * j % n]
    return total
  return [entry(i) for i in range(n)]
''')
rw('4', 'starks/fft.py', '_fft', '''
def _fft(vals, roots_of_unity):
  if len(vals) <= 4:
    return _simple_ft(vals, roots_of_unity)
  squares = roots_of_unity[::2]
  even, odd = _fft(vals[::2], squares), _fft(vals[1::2], squares)
  twisted = [y * roots_of_unity[i] for i, y in enumerate(odd)]
  return [x + t for x, t in zip(even, twisted)] + [x - t for x, t in zip(even, twisted)]
''')
rw('4', 'starks/fft.py', 'fft_1d', '''
def _cycle(field, root):
  powers = [field(1), root]
  while powers[-1] != field(1):
    powers.append(powers[-1] * root)
  return powers


def fft_1d(field, vals, modulus, root_of_unity, inv=False):
  rootz = _cycle(field, root_of_unity)
  missing = len(rootz) - 1 - len(vals)
  if missing > 0:
    vals = vals + [0] * missing
  if not inv:
    return _fft(vals, rootz[:-1])
  scale = pow(len(vals), modulus - 2, modulus)
  return [x * scale for x in _fft(vals, list(reversed(rootz[1:])))]
''')
rw('4', 'starks/euclidean.py', 'gcd', '''
def gcd(a, b):
  if abs(a) < abs(b):
    a, b = b, a
  while abs(b) > 0:
    a, b = b, divmod(a, b)[1]
  return a
''')
rw('4', 'misc/zkp_3_coloring.py', 'ZK3ColVerifier.accepts', '''
def accepts(self, chosen_edge, revealed):
  a, b = self._bits(revealed)
  return a and b
''') if False else None
