"""The arithmetic intermediate representation."""
from starks.air import AIR
from starks.air import get_computational_trace
from starks.utils import generate_Xi_s
from starks.poly_utils import multivariates_over
from starks.poly_utils import make_multivar
from starks.polynomial import polynomials_over


def ring_polys(ring):
  return polys()


def step_f(s):
  """any step polynomial of the state"""
  return uf('f', 'ring', s[0], s[1])


def step_g(s):
  """another one"""
  return uf('g', 'ring', s[0], s[1])


@config(field='prime')
def law_trace_first(a: Elt, b: Elt, steps: SmallGe(1)):
  """the trace starts at the input"""
  t, out = get_computational_trace([a, b], steps, 2, [step_f, step_g])
  same(t[0], [a, b])
  same(len(t), steps)


@config(field='prime')
def law_trace_step(a: Elt, b: Elt, steps: SmallGe(2), i: Nat):
  """each state is the step polynomials applied to the previous state"""
  assume(i < steps - 1)
  t, out = get_computational_trace([a, b], steps, 2, [step_f, step_g])
  same(t[i + 1], [step_f(t[i]), step_g(t[i])])


@config(field='prime')
def law_trace_output(a: Elt, b: Elt, steps: SmallGe(1)):
  """the output is the last state"""
  t, out = get_computational_trace([a, b], steps, 2, [step_f, step_g])
  same(out, t[steps - 1])


@config(field='prime')
def law_trace_all(a: Elt, b: Elt, steps: SmallGe(1)):
  """the whole trace"""
  t, out = get_computational_trace([a, b], steps, 2, [step_f, step_g])
  s = [[a, b]]
  x, y = a, b
  for i in range(1, steps):
    x, y = step_f([x, y]), step_g([x, y])
    s.append([x, y])
  same(t, s)


@config(field='prime')
def law_trace_short(a: Elt, b: Elt, c: Elt):
  """traces of one to three states, three registers"""
  step_h = lambda s: s[0] * s[1] + s[2]
  step_k = lambda s: s[2] - s[0]
  step_l = lambda s: s[1] * s[1]
  ps = [step_h, step_k, step_l]
  same(get_computational_trace([a, b, c], 1, 3, ps), ([[a, b, c]], [a, b, c]))
  s = [a * b + c, c - a, b * b]
  same(get_computational_trace([a, b, c], 2, 3, ps), ([[a, b, c], s], s))
  u = [s[0] * s[1] + s[2], s[2] - s[0], s[1] * s[1]]
  same(get_computational_trace([a, b, c], 3, 3, ps), ([[a, b, c], s, u], u))


@config(field='prime')
def law_witness(a: Elt, b: Elt):
  """the witness is the transposed trace"""
  contract('starks.polynomial.polynomials_over', ring_polys)
  contract('starks.air.AIR.generate_constraint_polynomials', lambda self: [])
  contract('starks.air.AIR.generate_monotone_circuit', lambda self, ps: True)
  contract('starks.air.AIR.C_degree', lambda self, ps: 2)
  x = AIR(field(), 2, [a, b], 511, [step_f, step_g], 8)
  t, out = get_computational_trace([a, b], 511, 2, [step_f, step_g])
  w = x.generate_witness()
  same(len(w), 2)
  same(w[0], [t[i][0] for i in range(511)])
  same(w[1], [t[i][1] for i in range(511)])
  same(x.computational_trace, t)
  same(x.output, out)


@config(field='prime')
def law_boundary(a: Elt, b: Elt):
  """the boundary constraints fix the input"""
  contract('starks.polynomial.polynomials_over', ring_polys)
  contract('starks.air.AIR.generate_constraint_polynomials', lambda self: [])
  contract('starks.air.AIR.generate_monotone_circuit', lambda self, ps: True)
  contract('starks.air.AIR.C_degree', lambda self, ps: 2)
  x = AIR(field(), 2, [a, b], 511, [step_f, step_g], 8)
  same(x.B, [(0, 0, a), (0, 1, b)])
  same(x.generate_boundary_constraints(), [(0, 0, a), (0, 1, b)])
  same(x.inp, [a, b])
  same(x.w, 2)
  same(x.width, 2)
  same(x.steps, 511)
  same(x.T, 511)
  same(x.extension_factor, 8)


@config(field='prime')
def law_scalar_input(n: Int):
  """a single integer is a state of one register"""
  contract('starks.air.AIR.generate_constraint_polynomials', lambda self: [])
  contract('starks.air.AIR.generate_monotone_circuit', lambda self, ps: True)
  contract('starks.air.AIR.C_degree', lambda self, ps: 2)
  x = AIR(field(), 1, n, 511, [lambda s: s[0] * s[0]], 8)
  same(x.inp, [n])
  same(x.B, [(0, 0, n)])
  same(x.computational_trace[0], [n])


class Bare(object):
  """an AIR before its fields are set"""

  def __init__(self, field, width, steps, trace, step_polys):
    self.field = field
    self.width = width
    self.w = width
    self.steps = steps
    self.computational_trace = trace
    self.step_polys = step_polys


def bare(trace, w):
  return Bare(None, w, len(trace), trace, None)


@config(field='prime')
def law_circuit_pair(a: Elt, b: Elt, c: Elt, d: Elt):
  """a constraint sees the current state, then the next state"""
  seen = []

  def con(s):
    seen.append(s)
    return field()(0)
  AIR.generate_monotone_circuit(bare([[a, b], [c, d]], 2), [con, con])
  same(seen, [[a, b, c, d], [a, b, c, d]])


@config(field='prime')
def law_circuit_one(a: Elt, b: Elt, c: Elt, d: Elt):
  """one pair of states, two constraints: accepted when both vanish"""
  con = lambda s: uf('c0', 'ring', s[0], s[1], s[2], s[3])
  con2 = lambda s: uf('c1', 'ring', s[0], s[1], s[2], s[3])
  same(AIR.generate_monotone_circuit(bare([[a, b], [c, d]], 2), [con, con2]),
       uf('c0', 'ring', a, b, c, d) == 0 and uf('c1', 'ring', a, b, c, d) == 0)


@config(field='prime')
def law_circuit_three(a: Elt, b: Elt, c: Elt, d: Elt):
  """every adjacent pair counts"""
  con = lambda s: uf('c0', 'ring', s[0], s[1])
  same(AIR.generate_monotone_circuit(bare([[a], [b], [c], [d]], 1), [con]),
       uf('c0', 'ring', a, b) == 0 and uf('c0', 'ring', b, c) == 0 and uf('c0', 'ring', c, d) == 0)


@config(field='prime')
def law_circuit_all(trace: Seq(Elt)):
  """every adjacent pair, for traces of every length"""
  con = lambda s: uf('c0', 'ring', s[0], s[1])
  con2 = lambda s: uf('c1', 'ring', s[0], s[1])
  t = [[x] for x in trace]
  same(AIR.generate_monotone_circuit(bare(t, 1), [con]),
       all([con([trace[i], trace[i + 1]]) == 0 for i in range(len(trace) - 1)]))


def law_degree(i: Nat, j: Nat, k: Nat):
  """the degree is the largest degree of a constraint"""

  class P(object):
    def __init__(self, d):
      self.d = d

    def degree(self):
      return self.d
  same(AIR.C_degree(bare([], 3), [P(i), P(j), P(k)]), max([i, j, k]))
  x = Bare(None, 3, 0, [], [P(i), P(j), P(k)])
  same(AIR.get_degree(x), max([i, j, k]))


@config(field='prime')
def law_constraints(a: Elt, b: Elt, c: Elt, d: Elt):
  """each constraint is the next-state variable minus the step polynomial"""
  contract('starks.polynomial.polynomials_over', ring_polys)
  X1, X2 = generate_Xi_s(field(), 2)
  x = Bare(field(), 2, 0, [], [X1 * X2 + X1, X2 * X2 * X1])
  p, q = AIR.generate_constraint_polynomials(x)
  same(p([a, b, c, d]), c - (a * b + a))
  same(q([a, b, c, d]), d - b * b * a)
  same(p.degree(), 2)
  same(q.degree(), 3)


@config(field='prime')
def law_variables(a: Elt, b: Elt, c: Elt):
  """the i-th variable has the value of the i-th coordinate"""
  contract('starks.polynomial.polynomials_over', ring_polys)
  X1, X2, X3 = generate_Xi_s(field(), 3)
  same(X1([a, b, c]), a)
  same(X2([a, b, c]), b)
  same(X3([a, b, c]), c)


class Fed(object):
  """a bare AIR with an input"""

  def __init__(self, inp, x):
    self.inp = inp
    self.width = x.width
    self.w = x.w
    self.steps = x.steps
    self.T = x.steps
    self.computational_trace = x.computational_trace


def ring_step(k, w):
  """a step that looks at two registers"""
  return lambda s: s[k] * s[(k + 1) % w] + s[(k + 2) % w]


@config(field='prime')
def law_trace_wide(xs: List(Elt, 9)):
  """states of many registers: every register is computed, from the previous state"""
  for w in [4, 5, 9]:
    ps = [ring_step(k, w) for k in range(w)]
    s = [xs[i] for i in range(w)]
    t, out = get_computational_trace(s, 3, w, ps)
    u = [s[k] * s[(k + 1) % w] + s[(k + 2) % w] for k in range(w)]
    v = [u[k] * u[(k + 1) % w] + u[(k + 2) % w] for k in range(w)]
    same(t, [s, u, v])
    same(out, v)


@config(field='prime')
def law_wide(xs: List(Elt, 9), ys: List(Elt, 9)):
  """states of many registers: witness and boundary constraints have them all"""
  for w in [3, 4, 5, 8, 9]:
    x = Fed(xs[:w], bare([xs[:w], ys[:w]], w))
    same(AIR.generate_witness(x), [[xs[j], ys[j]] for j in range(w)])
    same(AIR.generate_boundary_constraints(x), [(0, j, xs[j]) for j in range(w)])


@config(field='prime')
def law_circuit_wide(xs: List(Elt, 6), ys: List(Elt, 6)):
  """many constraints: each of them has to vanish"""
  for w in [3, 4, 5, 6]:
    for bad in range(w):
      cons = [(lambda s: uf('c', 'ring', s[0], s[w])) if j == bad else (lambda s: field()(0)) for j in range(w)]
      same(AIR.generate_monotone_circuit(bare([xs[:w], ys[:w]], w), cons), uf('c', 'ring', xs[0], ys[0]) == 0)


@config(field='prime', unroll=600)
def law_circuit_long(a: Elt):
  """long traces: every adjacent pair counts, the first and the last ones too"""
  zero, n = field()(0), 100
  for bad in [0, 1, 50, 63, 64, 97, 98]:
    t = [[a] if i == bad else [zero] for i in range(n)]
    same(AIR.generate_monotone_circuit(bare(t, 1), [lambda s: s[0]]), a == 0)
  t = [[a] if i == n - 1 else [zero] for i in range(n)]
  same(AIR.generate_monotone_circuit(bare(t, 1), [lambda s: s[1]]), a == 0)
  same(AIR.generate_monotone_circuit(bare(t, 1), [lambda s: s[0]]), True)


def law_degree_wide(d: List(Nat, 9)):
  """the largest degree of many"""

  class P(object):
    def __init__(self, d):
      self.d = d

    def degree(self):
      return self.d
  for w in [1, 2, 4, 5, 9]:
    same(AIR.C_degree(bare([], w), [P(k) for k in d[:w]]), max(d[:w]))
    same(AIR.get_degree(Bare(None, w, 0, [], [P(k) for k in d[:w]])), max(d[:w]))


@config(field='prime')
def law_constraints_wide(xs: List(Elt, 10)):
  """each of many constraints is its next-state variable minus its step polynomial"""
  contract('starks.polynomial.polynomials_over', ring_polys)
  for w in [1, 3, 4, 5]:
    X = generate_Xi_s(field(), w)
    ps = [X[k] * X[(k + 1) % w] + X[w - 1] for k in range(w)]
    cs = AIR.generate_constraint_polynomials(Bare(field(), w, 0, [], ps))
    same(len(cs), w)
    for k in range(w):
      same(cs[k](xs[:2 * w]), xs[w + k] - (xs[k] * xs[(k + 1) % w] + xs[w - 1]))
