"""The algebraic placement and routing reduction, and the random constraint."""
import math
from starks.apr import APR
from starks.ali import ALIProver
from starks.reedsolomon import AffineSpace


class Instance(object):
  """the parameters of a reduction"""

  def __init__(self):
    self.d = 0


def embed(c):
  """an element of the extension: integers as they are, base polynomials through an uninterpreted embedding"""
  if isinstance(c, int):
    return c
  if c == 1:
    return 1
  return uf('embed', 'ring', c)


def over(cs):
  """polynomials over the extension"""
  return polys()([embed(c) for c in cs])


# ---- spaces

@config(field='prime')
def law_L(g: Poly, k: Small, R: Small, t: Small, d: Small):
  """L is spanned by the powers below the top one and the top power times 1 + g, shifted by the top power"""
  m = Instance()
  m.k, m.R, m.t, m.d = k, R, t, d
  m.field = 7
  L = APR.construct_L(m, g)
  n = 1 + k + R + t + d
  same(L.basis, [g**i for i in range(n)] + [g**n * (1 + g)])
  same(L.shift, g**n)
  same(L.field, 7)


@config(field='prime')
def law_L_cmp(g: Poly, k: Small, R: Small, t: Small, d: Small):
  """L_cmp is spanned by the powers below the top one, shifted by the top power"""
  m = Instance()
  m.k, m.R, m.t, m.d = k, R, t, d
  m.field = 7
  L = APR.construct_L_cmp(m, g)
  n = 1 + k + R + t + d
  same(L.basis, [g**i for i in range(n)])
  same(L.shift, g**n)
  same(L.field, 7)


# ---- rates

class Degree(object):
  """a boundary polynomial of some degree"""

  def __init__(self, n):
    self.n = n

  def degree(self):
    return self.n


class Size(object):
  """a space of some size"""

  def __init__(self, n):
    self.n = n

  def __len__(self):
    return self.n


def law_rates(ds: List(Nat, 2), size: Pos):
  """rho_j = (2^(k+t) - deg Z_j)/|L|"""
  m = Instance()
  for k in range(3):
    for t in range(3):
      m.k, m.t, m.d, m.R = k, t, 2, 5
      same(APR.compute_rho_js(m, [Degree(x) for x in ds], Size(size)), [(2**(k + t) - x) / size for x in ds])


def law_rates_any(ds: Seq(Nat), size: Pos, k: Small, t: Small):
  """one rate for every boundary polynomial"""
  m = Instance()
  m.k, m.t, m.d, m.R = k, t, 2, 5
  same(APR.compute_rho_js(m, [Degree(x) for x in ds], Size(size)), [(2**(k + t) - x) / size for x in ds])


def law_rate_cmp(size: Pos, k: Small, t: Small, d: Small):
  """rho_cmp = (1 + 2^(k+t+d))/|L_cmp|"""
  m = Instance()
  m.k, m.t, m.d, m.R = k, t, d, 5
  same(APR.compute_rho_cmp(m, Size(size)), (1 + 2**(k + t + d)) / size)


# ---- boundary polynomials

def product(fs):
  r = polys()([1])
  for f in fs:
    r = r * f
  return r


@config(field='prime')
def law_boundary(zeta: NonzeroPoly, i: Nat, j: Nat, k: Nat):
  """product of x minus the reduced powers of the generator, for each dimension"""
  m = Instance()
  m.polysOver, m.basePolys, m.zeta, m.width = over, polys(), zeta, 2
  g = X()
  r = APR.construct_Z_boundaries(m, [(i, 0, 5), (j, 1, 6), (k, 0, 9)])
  z = product([X() - polys()([embed(g**n % zeta)]) for n in [i, j, k]])
  same(r, [z, z])


@config(field='prime')
def law_boundary_any(zeta: NonzeroPoly, ns: Seq(Nat), w: Small):
  """any number of constraints and dimensions"""
  m = Instance()
  m.polysOver, m.basePolys, m.zeta, m.width = over, polys(), zeta, w
  g = X()
  r = APR.construct_Z_boundaries(m, [(n, 0, 5) for n in ns])
  z = product([X() - polys()([embed(g**n % zeta)]) for n in ns])
  same(r, [z for _ in range(w)])


@config(field='prime')
def law_interpolants(zeta: NonzeroPoly, ns: Seq(Nat), vs: Seq(Elt, len(ns)), w: Small):
  """the interpolants pass through the boundary values at the reduced powers"""
  m = Instance()
  m.polysOver, m.basePolys, m.zeta, m.width, m.field = over, polys(), zeta, w, 7
  contract('starks.poly_utils.lagrange_interp', lambda F, xs, ys: uf('interp', 'poly', F, xs, ys))
  g = X()
  r = APR.construct_Eps_boundaries(m, [(ns[i], i, vs[i]) for i in range(len(ns))])
  same(r, [uf('interp', 'poly', 7, [g**n % zeta for n in ns], vs) for _ in range(w)])


# ---- neighbours

@config(field='prime')
def law_neighbors(zeta: Poly, g: Poly):
  """three neighbours for every index: the identity, g*x + zeta and g*x"""
  m = Instance()
  mk = lambda cs: uf('map', 'any', cs)
  same(APR.construct_neighbors(m, [0, 1, 2], zeta, g, mk),
       [(t, mk(c)) for t in [0, 1, 2] for c in [[0, 1], [zeta, g], [0, g]]])


@config(field='prime')
def law_neighbors_any(zeta: Poly, g: Poly, n: Small):
  """their number"""
  m = Instance()
  mk = lambda cs: uf('map', 'any', cs)
  same(len(APR.construct_neighbors(m, list(range(n)), zeta, g, mk)), 3 * n)


# ---- constraint variables

class Multi(object):
  """a multivariate polynomial, as its value under an uninterpreted assignment"""

  def __init__(self, v, n):
    self.v = v
    self.n = n

  def __len__(self):
    return self.n

  def __mul__(self, o):
    return Multi(self.v * (o.v if isinstance(o, Multi) else o), self.n)

  def __add__(self, o):
    return Multi(self.v + (o.v if isinstance(o, Multi) else o), self.n)

  def __sub__(self, o):
    return Multi(self.v - (o.v if isinstance(o, Multi) else o), self.n)

  def division(self, z):
    return Multi(uf('quotient', 'ring', self.v, z), self.n)

  def PolytoMulti(self, p):
    return Multi(uf('lift', 'ring', p), self.n)


def variables(n):
  """monomials of the constraint ring"""
  def factory(terms):
    v = 0
    for k in terms:
      v = v + uf('monomial', 'ring', k) * terms[k]
    return Multi(v, n)
  return factory


def boundary(name, i):
  return lambda x: Multi(uf(name, 'ring', i, x.v), x.n)


@config(field='prime')
def law_tilde(a: Elt):
  """expanded variable: the variable times its boundary polynomial plus its interpolant at the neighbour"""
  m = Instance()
  n = 3
  m.Nbrs = [0, 1]
  m.Z_boundaries = [boundary('z', i) for i in range(3)]
  m.Eps_boundaries = [boundary('e', i) for i in range(3)]
  loc = uf('monomial', 'ring', (1, 0, 0)) * 1
  nbr = lambda x: Multi(uf('nbr', 'ring', x.v), x.n)
  r = APR.tilde_expansion(m, [0, 1, 2], nbr, variables(n))
  at = uf('nbr', 'ring', loc)
  same([x.v for x in r], [uf('monomial', 'ring', (1, 0, 0, 0)) * uf('z', 'ring', 0, at) + uf('e', 'ring', 0, at),
                          uf('monomial', 'ring', (0, 1, 0, 0)) * uf('z', 'ring', 1, at) + uf('e', 'ring', 1, at),
                          uf('monomial', 'ring', (0, 0, 1, 0)) * uf('z', 'ring', 2, at) + uf('e', 'ring', 2, at)])


@config(field='prime')
def law_tilde_order(a: Elt):
  """expansion of an index sequence, in its order"""
  m = Instance()
  m.Nbrs = [0]
  m.Z_boundaries = [boundary('z', i) for i in range(2)]
  m.Eps_boundaries = [boundary('e', i) for i in range(2)]
  nbr = lambda x: x
  p = APR.tilde_expansion(m, [0], nbr, variables(2))
  q = APR.tilde_expansion(m, [1], nbr, variables(2))
  r = APR.tilde_expansion(m, [1, 0], nbr, variables(2))
  same([x.v for x in r], [q[0].v, p[0].v])


@config(field='prime')
def law_tilde_wide(a: Elt):
  """many indices: each variable with its own boundary polynomial and interpolant"""
  nbr = lambda x: Multi(uf('nbr', 'ring', x.v), x.n)
  for n in [4, 5, 9]:
    m = Instance()
    m.Nbrs = list(range(n - 1))
    m.Z_boundaries = [boundary('z', i) for i in range(n)]
    m.Eps_boundaries = [boundary('e', i) for i in range(n)]
    at = uf('nbr', 'ring', uf('monomial', 'ring', (1,) + (0,) * (n - 1)) * 1)
    r = APR.tilde_expansion(m, list(range(n)), nbr, variables(n))
    same([x.v for x in r], [uf('monomial', 'ring', tuple([1 if j == i else 0 for j in range(n + 1)])) * uf('z', 'ring', i, at)
                            + uf('e', 'ring', i, at) for i in range(n)])


@config(field='prime')
def law_spaces_wide(g: Poly):
  """large parameters"""
  m = Instance()
  m.field = 7
  for k, R, t, d in [(5, 5, 9, 4), (1, 5, 12, 10), (10, 10, 20, 10), (0, 0, 0, 0)]:
    m.k, m.R, m.t, m.d = k, R, t, d
    n = 1 + k + R + t + d
    L = APR.construct_L(m, g)
    same(L.basis, [g**i for i in range(n)] + [g**n * (1 + g)])
    same(L.shift, g**n)
    L = APR.construct_L_cmp(m, g)
    same(L.basis, [g**i for i in range(n)])
    same(L.shift, g**n)


def law_rates_wide(size: Pos):
  """large degrees and many dimensions"""
  m = Instance()
  for k, t, d in [(5, 9, 4), (3, 3, 3), (10, 20, 10)]:
    m.k, m.t, m.d, m.R = k, t, d, 5
    ds = [0, 1, 2, 3, 15, 16, 17, 31, 32, 33]
    same(APR.compute_rho_js(m, [Degree(x) for x in ds], Size(size)), [(2**(k + t) - x) / size for x in ds])
    same(APR.compute_rho_cmp(m, Size(size)), (1 + 2**(k + t + d)) / size)


@config(field='prime')
def law_boundary_wide(zeta: NonzeroPoly):
  """many constraints and dimensions"""
  m = Instance()
  m.polysOver, m.basePolys, m.zeta, m.field = over, polys(), zeta, 7
  contract('starks.poly_utils.lagrange_interp', lambda F, xs, ys: uf('interp', 'poly', F, xs, ys))
  g = X()
  ns = [0, 1, 2, 7, 8, 9, 31, 511]
  z = product([X() - polys()([embed(g**n % zeta)]) for n in ns])
  e = uf('interp', 'poly', 7, [g**n % zeta for n in ns], [3 * n for n in ns])
  for w in [1, 4, 7]:
    m.width = w
    same(APR.construct_Z_boundaries(m, [(n, 0, 3 * n) for n in ns]), [z] * w)
    same(APR.construct_Eps_boundaries(m, [(n, i, 3 * n) for i, n in enumerate(ns)]), [e] * w)


@config(field='prime')
def law_neighbors_wide(zeta: Poly, g: Poly):
  """three neighbours for each of many indices"""
  m = Instance()
  mk = lambda cs: uf('map', 'any', cs)
  for n in [1, 4, 5, 12]:
    same(APR.construct_neighbors(m, list(range(n)), zeta, g, mk),
         [(t, mk(c)) for t in range(n) for c in [[0, 1], [zeta, g], [0, g]]])


class System(object):
  """constraints over the expanded variables"""

  def __init__(self, n):
    self.Polys = [self.constraint(i) for i in range(n)]

  def constraint(self, i):
    return lambda xs: Multi(uf('P', 'ring', i, xs), 3)


@config(field='prime')
def law_constraints(zeta: Poly, g: Poly):
  """two constraints for every transition: with either cyclic neighbour, over the vanishing polynomial"""
  seen = []
  m = Instance()
  m.Nbrs = [0, 1]
  m.width = 2
  m.field = 7
  m.H0 = 8
  m.polysOver = lambda cs: polys()([embed(c) for c in cs])
  z = uf('vanishing', 'poly', 7, 8)
  contract('starks.poly_utils.construct_affine_vanishing_polynomial', lambda F, A: uf('vanishing', 'poly', F, A))

  def tilde(indices, neighbor, PhiPolys):
    return [uf('tilde', 'ring', i, neighbor) for i in indices]
  m.tilde_expansion = tilde
  assume(z != 0)
  r = APR.construct_Phi_polynomials(m, System(2), variables(3), g, zeta, 2)
  loc = uf('monomial', 'ring', (1, 0, 0)) * 1
  ident = polys()([0, 1])
  one = polys()([embed(zeta), embed(g)])
  zero = polys()([0, embed(g)])
  spec = []
  for i in range(2):
    t = [uf('tilde', 'ring', j, ident) for j in range(2)]
    spec.append(uf('quotient', 'ring', loc * (loc - 1), z) *
                uf('P', 'ring', i, t + [uf('tilde', 'ring', j, zero) for j in range(2)]))
    spec.append(uf('lift', 'ring', polys()([1]) / z) *
                uf('P', 'ring', i, t + [uf('tilde', 'ring', j, one) for j in range(2)]))
  same([x.v for x in r], spec)


# ---- the witness

class Traced(object):
  def __init__(self, cols):
    self.cols = cols

  def generate_witness(self):
    return self.cols


@config(field='prime')
def law_witness(zeta: NonzeroPoly, u: List(Elt, 4), v: List(Elt, 4), y: Poly, z: Poly, e: Poly, h: Poly, k: Small):
  """each row is interpolated at the reduced powers, less the boundary interpolant, over the boundary polynomial"""
  assume(y != 0)
  assume(z != 0)
  asked = []

  def interpolant(degree, xs, ys):
    asked.append(degree)
    return uf('Q', 'poly', xs, ys)
  contract('starks.poly_utils.draw_random_interpolant', interpolant)
  m = Instance()
  m.basePolys, m.zeta, m.t, m.k = polys(), zeta, 2, k
  m.comp = Traced([u, v])
  m.Z_boundaries = [y, z]
  m.Eps_boundaries = [e, h]
  g = X()
  xs = [g**i % zeta for i in range(4)]
  same(APR.generate_witness(m), [(uf('Q', 'poly', xs, u) - e) / y, (uf('Q', 'poly', xs, v) - h) / z])
  same(asked, [2**(k + 2), 2**(k + 2)])


# ---- the constructor

class Base(object):
  """the base field"""
  name = 70

  def __call__(self, x):
    return x


class Extension(object):
  """an extension field"""

  def __init__(self, p):
    self.p = p
    self.base_field = Base()
    self.ideal_generator = 71

  def __call__(self, x):
    return x


class Air(object):
  """any machine"""

  def __init__(self, p, width, steps, degree):
    self.field = Extension(p)
    self.width = width
    self.steps = steps
    self.CDegree = degree
    self.B = 72

  def generate_witness(self):
    return 73


class Rings(object):
  def __init__(self, ring):
    self.ring = ring
    self.factory = lambda cs: uf('poly', 'any', ring, cs)

  def __call__(self, cs):
    return X()


@config(field='prime')
def law_instance(zk: Small):
  """the evaluation domains of a machine with 2^t - 1 steps and constraints of degree below 2^d"""
  contract('starks.polynomial.polynomials_over', lambda r: Rings(r))
  contract('starks.poly_utils.generate_primitive_polynomial', lambda p, w: uf('primitive', 'poly', p, w))
  contract('starks.poly_utils.multivariates_over', lambda f, n: Rings(n))
  contract('starks.multivariate_polynomial.multivariates_over', lambda f, n: Rings(n))
  contract('starks.apr.APR.construct_neighbors', lambda self, Tau, zeta, g, P: [Tau, zeta, g])
  contract('starks.apr.APR.construct_Z_boundaries', lambda self, B: ('z', B))
  contract('starks.apr.APR.construct_Eps_boundaries', lambda self, B: ('e', B))
  contract('starks.apr.APR.compute_rho_js', lambda self, Z, L: ('rhos', Z, L.basis, L.shift))
  contract('starks.apr.APR.compute_rho_cmp', lambda self, L: ('rho', L.basis, L.shift))
  contract('starks.apr.APR.construct_Phi_polynomials', lambda self, air, P, g, zeta, p: ('phi', g, zeta, p))
  contract('starks.apr.APR.generate_witness', lambda self: 'w')
  g = X()
  for w in [1, 2, 5]:
    m = APR(Air(2, w, 511, 3), zk)
    same((m.zeta, m.Nbrs[0], m.width), (uf('primitive', 'poly', 2, w), list(range(w)), w))
  for T, t in [(7, 2), (8, 3), (511, 8), (512, 9)]:
    for D, d in [(1, 1), (2, 2), (3, 2), (4, 3), (7, 3)]:
      a = Air(2, 3, T, D)
      m = APR(a, zk)
      same((m.t, m.d, m.k, m.width), (t, d, zk, 3))
  zeta = uf('primitive', 'poly', 2, 3)
  same(m.zeta, zeta)
  same(m.Nbrs, [[0, 1, 2], zeta, g])
  same((m.H.field.name, m.H0.field.name, m.H1.field.name), (70, 70, 70))
  same(m.H.basis, [g**i for i in range(9)])
  same(m.H0.basis, [g**i for i in range(8)])
  same(m.H1.basis, [g**i for i in range(8)])
  same(m.H1.shift, g**8)
  same(m.H.shift, 0)
  same(m.H0.shift, 0)
  n = 1 + zk + m.R + 9 + 3
  same(m.L.basis, [g**i for i in range(n)] + [g**n * (1 + g)])
  same(m.L.shift, g**n)
  same(m.Lcmp.basis, [g**i for i in range(n)])
  same(m.Lcmp.shift, g**n)
  same(m.Z_boundaries, ('z', 72))
  same(m.Eps_boundaries, ('e', 72))
  same(m.rho_js, ('rhos', ('z', 72), m.L.basis, m.L.shift))
  same(m.rho_cmp, ('rho', m.Lcmp.basis, m.Lcmp.shift))
  same(m.Phi, ('phi', g, zeta, 2))
  same(m.w, 'w')


# ---- the random constraint

class Reduced(object):
  def __init__(self, Phi):
    self.Phi = Phi
    self.field = 70
    self.Lcmp = 71
    self.L = 72
    self.rho_cmp = 73
    self.rho_js = [74]


class Holder(object):
  def __init__(self, apr):
    self.apr = apr


@config(field='prime')
def law_random_constraint(phis: Seq(Elt), rs: Seq(Elt, len(phis))):
  """the sum of every constraint times its own coefficient"""
  same(ALIProver.generate_random_constraint(Holder(Reduced(phis)), rs),
       sum([rs[i] * phis[i] for i in range(len(phis))], field()(0)))


@config(field='prime')
def law_random_constraint_wide(phis: List(Elt, 20), rs: List(Elt, 20)):
  """many constraints: each its own coefficient"""
  for n in [1, 3, 8, 9, 16, 17, 20]:
    r = field()(0)
    for i in range(n):
      r = r + rs[i] * phis[i]
    same(ALIProver.generate_random_constraint(Holder(Reduced(phis[:n])), rs[:n]), r)


@config(field='prime')
def law_random_constraint_two(f: Poly, g: Poly, a: Elt, b: Elt):
  """for two constraints"""
  same(ALIProver.generate_random_constraint(Holder(Reduced([f, g])), [a, b]), f * a + g * b)


@config(field='prime')
def law_prover_code(a: Elt):
  """the code of the composition is over L_cmp with its rate"""
  r = Reduced([])
  m = ALIProver(r)
  same((m.rs_g.field, m.rs_g.S, m.rs_g.rho), (70, 71, 73))
  same(m.apr is r, True)
