"""Polynomials of the prover."""


class FRI(object):
  """stands for the low-degree proof"""

  def __init__(self, field):
    self.field = field


contract('starks.fri.FRI', FRI)

from starks.stark import STARK
from starks.stark import compute_pseudorandom_linear_combination
from starks.stark import compute_pseudorandom_linear_combination_1d
from starks.stark import construct_boundary_polynomials
from starks.stark import construct_constraint_polynomials
from starks.stark import construct_remainder_polynomials
from starks.stark import construct_trace_polynomials


def ring_polys(ring):
  return polys()


def spaces():
  contract('starks.polynomial.polynomials_over', ring_polys)


class Transform(object):
  """any inverse transform"""

  def __init__(self, field, root):
    self.root = root

  def inv_fft(self, values):
    return uf('inverse', 'poly', self.root, values)


@config(field='prime')
def law_trace(w: List(Elt, 4), v: List(Elt, 4), g: Elt):
  """trace polynomials are the inverse transforms of the rows of the witness"""
  contract('starks.fft.NonBinaryFFT', Transform)
  same(construct_trace_polynomials([w, v], field(), g), [uf('inverse', 'poly', g, w), uf('inverse', 'poly', g, v)])


@config(field='prime')
def law_trace_rows(n: Small, g: Elt):
  """one trace polynomial for every row, in order"""
  contract('starks.fft.NonBinaryFFT', Transform)
  rows = [[i, i + 1] for i in range(n)]
  same(construct_trace_polynomials(rows, field(), g), [uf('inverse', 'poly', g, [i, i + 1]) for i in range(n)])


def shifted(f, g):
  """f(g*x)"""
  return f(polys()([0, g]))


@config(field='prime')
def law_constraint(t: Poly, u: Poly, g: Elt):
  """the constraint is the shifted trace minus the step polynomial of the traces"""
  spaces()
  f = lambda s: uf('f', 'poly', s[0], s[1])
  h = lambda s: uf('h', 'poly', s[0], s[1])
  same(construct_constraint_polynomials([f, h], [t, u], field(), g, 2),
       [shifted(t, g) - f([t, u]), shifted(u, g) - h([t, u])])


@config(field='prime')
def law_constraint_values(t: Poly, g: Elt, x: Elt):
  """as values: C(x) = P(g*x) - step(P(x))"""
  spaces()
  f = lambda s: s[0] * s[0] * s[0]
  c, = construct_constraint_polynomials([f], [t], field(), g, 1)
  same(c(x), t(g * x) - t(x)**3)


def quotients(f, g):
  """exact division, as an uninterpreted quotient and remainder"""
  return uf('quo', 'poly', f, g), uf('rem', 'poly', f, g)


@config(field='prime')
def law_remainder(c: Poly, d: Poly, steps: Pos, last: Elt):
  """the remainder polynomials are the constraints divided by (x^steps - 1)/(x - last)"""
  spaces()
  x = X()
  assume((x**steps - 1) % (x - last) == 0)
  z = (x**steps - 1) / (x - last)
  assume(z != 0)
  assume(c % z == 0)
  assume(d % z == 0)
  same(construct_remainder_polynomials([c, d], field(), steps, last), [c / z, d / z])


@config(field='prime')
def law_remainder_inexact(c: Poly, d: Poly, steps: Pos, last: Elt):
  """an inexact division is refused"""
  spaces()
  x = X()
  assume((x**steps - 1) % (x - last) == 0)
  z = (x**steps - 1) / (x - last)
  assume(z != 0)
  same(raised(lambda: construct_remainder_polynomials([c, d], field(), steps, last), 'AssertionError'),
       c % z != 0 or d % z != 0)


@config(field='prime')
def law_remainder_root(steps: Pos, last: Elt):
  """the last position must be a root of x^steps - 1"""
  spaces()
  x = X()
  same(raised(lambda: construct_remainder_polynomials([], field(), steps, last), 'AssertionError'),
       (x**steps - 1) % (x - last) != 0)


def line(field, xs, ys):
  """the line through two points"""
  K = field
  assert len(xs) == 2 and len(ys) == 2
  return uf('line', 'poly', K(xs[0]), K(xs[1]), K(ys[0]), K(ys[1]))


@config(field='prime')
def law_boundary(p: Poly, q: Poly, i1: Elt, i2: Elt, a: Elt, b: Elt, c: Elt, d: Elt, last: Elt):
  """trace minus the interpolant of input and output, over (x - 1)(x - last)"""
  spaces()
  contract('starks.poly_utils.lagrange_interp_2', line)
  x = X()
  z = (x - 1) * (x - last)
  K = field()
  r = construct_boundary_polynomials([p, q], [[a, b], [c, d]], [(0, 0, i1), (0, 1, i2)], field(), last, 2)
  same(r, [(p - uf('line', 'poly', K(1), last, i1, b)) / z, (q - uf('line', 'poly', K(1), last, i2, d)) / z])


@config(field='prime')
def law_boundary_values(p: Poly, i: Elt, o: Elt, last: Elt):
  """with the real interpolation: numerator and denominator"""
  spaces()
  assume(last != 1)
  x = X()
  z = (x - 1) * (x - last)
  K = field()
  r, = construct_boundary_polynomials([p], [[i, o]], [(0, 0, i)], field(), last, 1)
  l = ((x - last) * (i / (K(1) - last)) + (x - 1) * (o / (last - K(1))))
  same(r, (p - l) / z)


@config(field='prime')
def law_combination_1d(t: Poly, r: Poly, b: Poly, u: Poly, s: Poly, c: Poly, g: Elt, steps: Pos, degree: IntGe(2), e: Bytes):
  """each dimension is weighted with four coefficients and a shifted power"""
  k1, k2, k3, k4 = [field()(uf('k', 'int', i)) for i in range(4)]
  contract('starks.stark.get_pseudorandom_ks', lambda root, n: [uf('k', 'int', i) for i in range(n)])
  w = g**(steps * (degree - 1))
  same(compute_pseudorandom_linear_combination_1d(e, [t, u], [r, s], [b, c], g, steps, degree),
       [r + t * k1 + t * k2 * w + b * k3 + b * k4 * w, s + u * k1 + u * k2 * w + c * k3 + c * k4 * w])


@config(field='prime')
def law_combination(t: Poly, r: Poly, b: Poly, u: Poly, s: Poly, c: Poly, g: Elt, steps: Pos, degree: IntGe(2), e: Bytes):
  """the dimensions are combined with one coefficient each"""
  asked = []

  def ks(root, n):
    asked.append((root, n))
    return [uf('k', 'int', i) for i in range(n)]
  contract('starks.stark.get_pseudorandom_ks', ks)
  k1, k2, k3, k4 = [field()(uf('k', 'int', i)) for i in range(4)]
  w = g**(steps * (degree - 1))
  l0 = r + t * k1 + t * k2 * w + b * k3 + b * k4 * w
  l1 = s + u * k1 + u * k2 * w + c * k3 + c * k4 * w
  same(compute_pseudorandom_linear_combination(e, [t, u], [r, s], [b, c], field(), g, degree, steps, 2),
       l0 + l0 * k1 * w + l1 + l1 * k2 * w)
  same(asked, [(e, 4), (e, 2)])


@config(field='prime')
def law_constraint_wide(ts: List(Poly, 6), g: Elt):
  """many registers: each constraint from its own trace and step polynomial"""
  spaces()
  for n in [1, 3, 4, 6]:
    t = ts[:n]
    fs = [(lambda s: uf('f', 'poly', i, s[0], s[n - 1])) for i in range(n)]
    same(construct_constraint_polynomials(fs, t, field(), g, n), [shifted(t[i], g) - fs[i](t) for i in range(n)])


@config(field='prime')
def law_remainder_wide(cs: List(Poly, 5), steps: Pos, last: Elt):
  """many constraints: every division has to be exact"""
  spaces()
  x = X()
  assume((x**steps - 1) % (x - last) == 0)
  z = (x**steps - 1) / (x - last)
  assume(z != 0)
  for n in [3, 4, 5]:
    exact = True
    for c in cs[:n]:
      exact = exact and c % z == 0
    same(raised(lambda: construct_remainder_polynomials(cs[:n], field(), steps, last), 'AssertionError'), not exact)


@config(field='prime')
def law_boundary_wide(ps: List(Poly, 5), ins: List(Elt, 5), outs: List(Elt, 5), last: Elt):
  """many registers: each boundary polynomial from its own input and output"""
  spaces()
  contract('starks.poly_utils.lagrange_interp_2', line)
  x = X()
  z = (x - 1) * (x - last)
  K = field()
  for n in [1, 3, 4, 5]:
    r = construct_boundary_polynomials(ps[:n], [[K(3), K(4), outs[i]] for i in range(n)], [(0, i, ins[i]) for i in range(n)], field(), last, n)
    same(r, [(ps[i] - uf('line', 'poly', K(1), last, ins[i], outs[i])) / z for i in range(n)])


@config(field='prime')
def law_combination_wide(ts: List(Poly, 5), rs: List(Poly, 5), bs: List(Poly, 5), g: Elt, steps: Pos, degree: IntGe(2), e: Bytes):
  """many registers: each combined with its own coefficient"""
  contract('starks.stark.get_pseudorandom_ks', lambda root, n: [uf('k', 'int', i) for i in range(n)])
  k = [field()(uf('k', 'int', i)) for i in range(5)]
  w = g**(steps * (degree - 1))
  for n in [1, 3, 4, 5]:
    ls = [rs[i] + ts[i] * k[0] + ts[i] * k[1] * w + bs[i] * k[2] + bs[i] * k[3] * w for i in range(n)]
    same(compute_pseudorandom_linear_combination_1d(e, ts[:n], rs[:n], bs[:n], g, steps, degree), ls)
    r = polys()([])
    for i in range(n):
      r = r + ls[i] + ls[i] * k[i] * w
    same(compute_pseudorandom_linear_combination(e, ts[:n], rs[:n], bs[:n], field(), g, degree, steps, n), r)


class Prover(object):
  """the parameters of a prover"""

  def __init__(self, field, width, g):
    self.field = field
    self.width = width
    self.steps = 4
    self.extension_factor = 2
    self.precision = 8
    self.G2 = g
    self.G1 = g**2
    self.last_step_position = g**6
    self.step_polys = []
    self.spot_check_security_factor = 3
    self.fft_solver = self

  def fft(self, poly):
    return [uf('value', 'ring', poly)]

  def get_degree(self):
    return 2

  def compute_merkle_spot_checks(self, mtree, l_mtree, samples=80):
    return []


@config(field='prime')
def law_committed(ts: List(Poly, 3), rs: List(Poly, 3), bs: List(Poly, 3), c: Poly, g: Elt):
  """the leaves hold the trace, then the remainders, then the boundary polynomials: where the verifier looks for them"""
  def prove(self, f, root_of_unity, maxdeg_plus_1, exclude_multiples_of=0):
    return []
  FRI.generate_proximity_proof = prove
  for n in [1, 2, 3]:
    contract('starks.stark.construct_trace_polynomials', lambda w, f, root: ts[:n])
    contract('starks.stark.construct_constraint_polynomials', lambda *a: [])
    contract('starks.stark.construct_remainder_polynomials', lambda *a: rs[:n])
    contract('starks.stark.construct_boundary_polynomials', lambda *a: bs[:n])
    contract('starks.stark.compute_pseudorandom_linear_combination', lambda *a: c)
    contract('starks.merkle_tree.merkelize_polynomial_evaluations', lambda w, e: [b'', (w, e)])
    contract('starks.merkle_tree.merkelize', lambda e: [b'', e])
    proof = STARK.mk_proof(Prover(field(), n, g), [[0]] * n, [(0, i, 0) for i in range(n)])
    same(proof[0], (n, [[uf('value', 'ring', p)] for p in ts[:n] + rs[:n] + bs[:n]]))
    same(proof[1], [uf('value', 'ring', c)])
